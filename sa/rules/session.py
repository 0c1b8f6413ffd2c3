"""H05, R05, L02: what a message, a chunk, a connection leaves for the next one."""
from .. import worlds
from ..sat import sat, under as given
from ..terms import *
from ..worlds import World, norm, UNDEF
from .producer import *
from . import consumer
from .producer import HASH_REQUEST


def message_loop(s):
    """the loop that handles one message per turn"""
    us = {}
    for e, n in s.handlers(set(s.requests) | set(s.beacons)):
        if e.loops:
            u = e.loops[-1][3]
            us[u] = us.get(u, 0) + 1
    return max(us, key=us.get) if us else None


def tail(e):
    return e.name.split('.')[-1]


def consumer_fields(s, t):
    """parts of the state of the consumer a term depends on"""
    out = {}
    for x in subterms(norm(t)):
        if x.op == 'field':
            b, q = fieldpath(x)
            if b is s.B and q:
                out[x] = q
    return out


def drops(s):
    """calls that end the connection of the consumer whose message is handled"""
    senders = s.senders()
    return [e for e in s.I.events if e.kind == 'call' and e.name == 'disconnect' and e.args and getattr(e.extra, 'file', None) not in s.p.user and strip(norm(e.args[-1])) in senders]


def smooth(s, user=True):
    """nothing fails (user=False: user code may still report errors)"""
    own = [e for e, _ in s.handlers(set(s.requests) | set(s.beacons))]

    def f(x):
        if x.op == 'is' and x.a[0] in ('Ok', 'Fulfilled'):
            if not user and any(same_call(strip(x.a[1]), e) for e in own):
                return None
            return TRUE
        if x.op == 'is' and x.a[0] in ('undefined', 'null') and x.a[1].op in ('mcall', 'mut') and x.a[1] is s.msg.a[0]:
            return FALSE
        return None
    return f


STRATEGIES = ('Ignore', 'Log', 'EmitError', 'Disconnect', 'EmitErrorAndDisconnect')


def configured(name):
    """facts: the configured strategies are this one"""
    def f(x):
        if x.op == 'is' and x.a[0].split('::')[-1] in STRATEGIES:
            return Bool(x.a[0].split('::')[-1] == name)
        if x.op == '==':
            for y in x.a:
                n = re.split(r'[.:]+', y.a[0])[-1] if y.op == 'sym' else y.a[1] if y.op == 'field' and y.a[0].op == 'sym' else None
                if n in STRATEGIES:
                    return Bool(n == name)
        return None
    return f


def guards(s):
    """(flags for accepted hashes, key, assigned key): the parts of the consumer's state user code depends on"""
    names = sorted(set(s.requests) | set(s.beacons))
    sets = [e for e in s.I.events if e.kind == 'set']
    flags, keys, others = set(), set(), set()
    for n in names:
        w = s.world(n)
        for e, t in s.handlers({n}):
            if not alive(w, e):
                continue
            for c in conj(w.pc(e)):
                b, q = fieldpath(c)
                if c.op == 'field' and b is s.B and q:
                    flags.add(c)
                t = presence(s, c)
                if t is not None:
                    keys.add(t)
                for t in presence_atoms(s, c):
                    others.add(t)
    h = s.world(HASH_REQUEST, hashes(s, 1, 1))
    flags = {c for c in flags if any(tail(e) == fieldpath(c)[1][-1] and alive(h, e) and s.sees_message(And(*e.pc)) for e in sets)}
    k = s.world(s.key)
    own = {c for c in keys if any(tail(e) == fieldpath(c)[1][-1] and s.sees_message(k.of(norm(e.args[0]))) for e in sets)}
    return flags, own, others - own


def implied(d, es):
    """d happens only if one of es happens (same turn; when d itself does not fail)"""
    own = lambda c: c.op == 'is' and c.a[0] == 'Ok' and any(same_call(x, d) for x in subterms(c.a[1]) if x.op in ('mcall', 'call', 'mut'))
    pcs = [[c for c in e.pc if not own(c)] for e in es]
    have = set(d.pc)
    if any(set(p) <= have for p in pcs):
        return True
    return sat(And(And(*d.pc), Not(Or(*[And(*p) for p in pcs])))) is False


def H05(ctx):
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        N = LNAME[L]
        U = message_loop(s)
        names = sorted(set(s.requests) | set(s.beacons))
        users = s.handlers(set(names))
        ds = drops(s)
        ctx.count('places a consumer is dropped at (%s)' % N, len(ds))
        if not ctx.check(len(ds) >= 1, 'drops', L, '%s producer: no consumer is ever disconnected while its messages are handled' % N):
            continue
        flags, keys, others = guards(s)
        if not flags or not keys:
            ctx.undecided('drops', '%s: the state that stands for accepted hashes and the key' % L)
            continue
        off = lambda ts, v: (lambda x: Bool(v) if x in ts else None)
        there = lambda ts, v: both(*[is_present(s, t, v) for t in ts]) if ts else None
        # -- who breaks the handshake is dropped
        base = set()
        for n in names:
            w = s.world(n, smooth(s))
            for e, t in s.handlers({n}):
                base |= set(conj(w.pc(e)))
        cases = [('hash:%s' % lab, HASH_REQUEST, hashes(s, p, f), 'presents hashes that are not the expected ones (%s)' % lab) for p, f, lab in ((0, 1, 'protocol'), (1, 0, 'workflow'), (0, 0, 'both'))]
        for n in names:
            cases.append(('unchecked:' + n, n, both(off(flags, False), there(keys, True)), 'sends %s before its hashes were accepted' % n))
            cases.append(('keyless:' + n, n, both(off(flags, True), there(keys, False)), 'sends %s before its key' % n))
            for st in ('Disconnect', 'EmitErrorAndDisconnect'):
                cases.append(('unassigned:%s:%s' % (n, st), n, both(off(flags, True), there(keys, True), there(others, False), configured(st)), 'sends %s without an assigned key under the strategy %s' % (n, st)))
        for lab, m, f, what in cases:
            w = s.world(m, both(f, smooth(s)))
            base = set()
            for e, t in users:
                base |= {w.of(norm(c)) for c in e.pc if not s.sees_message(c)}
            if U in s.I.loopinfo:
                base |= {x for c in s.I.loopinfo[U]['pre'] for x in conj(w.of(norm(c)))}
            al = [d for d in ds if alive(w, d)]
            sure = [d for d in al if all(c in base or not (consumer_fields(s, c) or in_condition(s, c)) for c in conj(w.pc(d)))]
            ctx.count('ways to break the handshake (%s)' % N)
            ctx.check(bool(al), 'dropped', '%s:%s' % (L, lab), '%s producer: a consumer that %s is not disconnected' % (N, what), None)
            if al:
                ctx.check(bool(sure), 'dropped', '%s:%s:always' % (L, lab), '%s producer: a consumer that %s is disconnected only if %s' % (N, what, show(And(*[c for c in conj(w.pc(al[0])) if c not in base]))[:160]), al[0].where())
        # -- who keeps to it is not
        fair = [('key', s.key, both(off(flags, False), there(keys, False))), ('hashes', HASH_REQUEST, hashes(s, 1, 1))]
        for n in names:
            for st in STRATEGIES:
                fair.append((n + ':' + st, n, both(off(flags, True), there(keys, True), there(others, True), configured(st))))
            for st in ('Ignore', 'Log', 'EmitError'):
                fair.append((n + ':unassigned:' + st, n, both(off(flags, True), there(keys, True), there(others, False), configured(st))))
        for lab, m, f in fair:
            w = s.world(m, both(f, smooth(s)))
            al = [d for d in ds if alive(w, d) and (U is None or U in [l[3] for l in d.loops])]
            ctx.check(not al, 'kept', '%s:%s' % (L, lab), '%s producer: a consumer that keeps to the handshake is disconnected when it sends %s (%s)' % (N, m, lab), al[0].where() if al else None)
        # -- the decision is remembered ...
        sets = [e for e in s.I.events if e.kind == 'set' and e.args and norm(e.args[0]) is TRUE]
        seen = {}
        for n in names:
            w = s.world(n)
            for e, t in s.handlers({n}):
                if alive(w, e):
                    for c in e.pc:
                        for x, q in consumer_fields(s, c).items():
                            seen.setdefault(q[-1], set()).add(x)
        best = None
        for f in sorted({tail(e) for e in sets}):
            mine = [e for e in sets if tail(e) == f]
            miss = [d for d in ds if not implied(d, [e for e in mine if e.seq > (0) and [l[3] for l in e.loops] == [l[3] for l in d.loops]])]
            if best is None or len(miss) < len(best[1]):
                best = (f, miss)
        if best is None or len(best[1]) == len(ds):
            ctx.bad('remembered', L, '%s producer: that a consumer is to be disconnected is not recorded anywhere: its further messages are handled' % N, ds[0].where())
            continue
        f, miss = best
        ctx.count('assignments of the mark (%s)' % N, len([e for e in sets if tail(e) == f]))
        for d in ds:
            hit = d in miss
            ctx.check(not hit, 'remembered', '%s:%s' % (L, label_of(s, d)), '%s producer: a consumer is disconnected without being marked: its further messages are handled' % N, d.where())
        # ... never taken back ...
        back = [e for e in all_events(s) if e.kind == 'set' and tail(e) == f and e.args and norm(e.args[0]) is not TRUE and 'constructor' not in e.where()]
        ctx.check(not back, 'remembered', '%s:reset' % L, '%s producer: the mark of a disconnected consumer is taken back' % N, back[0].where() if back else None)
        # ... and asked for before every message
        marks = seen.get(f, set())
        marked = lambda x: TRUE if x.op == 'field' and x.a[1] == f and fieldpath(x)[0] is s.B else None
        looks = [r for t, rs in s.I.reads.items() for r in rs if U in r[1] and norm(t).op == 'field' and norm(t).a[1] == f and fieldpath(norm(t))[0] is s.B]
        for n in names:
            w = s.world(n, marked)
            for e, t in s.handlers(set(names)):
                if alive(s.world(n), e):
                    ctx.check(not alive(w, e), 'ignored', '%s:%s' % (L, n), '%s producer: %s of a consumer that was disconnected reaches user code' % (N, n), e.where())
                    if marks and U is not None and U in [l[3] for l in e.loops]:
                        ctx.check(any(before(r, e) for r in looks), 'ignored', '%s:%s:chunk' % (L, n), '%s producer: the mark of a disconnected consumer is not looked at again for %s as a further message of the same chunk' % (N, n), e.where())
        for m in [s.key, HASH_REQUEST] + names:
            w = s.world(m, marked)
            ans = [x for x in message_sends(s, w, s.I.events) if U in [l[3] for l in x[0].loops]]
            ctx.check(not ans, 'ignored', '%s:%s:answer' % (L, m), '%s producer: %s of a consumer that was disconnected is answered' % (N, m), ans[0][0].where() if ans else None)


def flat(pc):
    """all that is known to hold when all of pc does, in its smallest parts"""
    out, todo = set(), list(pc)
    while todo:
        c = todo.pop()
        if c.op == 'and':
            todo += list(c.a)
        elif c.op == 'not' and c.a[0].op == 'or':
            todo += [Not(x) for x in c.a[0].a]
        elif c is not TRUE:
            out.add(c)
    return out


def before(r, e):
    """a read that comes before an event whenever that happens"""
    u, us, seq, pc = r
    if seq > e.seq or pc is None:
        return pc is None
    return flat(pc) <= flat(e.pc) or sat(And(And(*e.pc), Not(And(*pc)))) is False


def label_of(s, d):
    """which decision it is: the names in the last conditions"""
    return '.'.join(d.stack[-3:])


# ---------------------------------------------------------------- R05
def names_in(node):
    """variables mentioned in a piece of syntax"""
    out = set()

    def go(x):
        if isinstance(x, dict):
            if x.get('k') == 'path' and isinstance(x.get('p'), str):
                out.add(x['p'])
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(node)
    return out


def bound_in(node):
    """names a piece of syntax binds itself"""
    out = set()

    def go(x):
        if isinstance(x, dict):
            for k in ('n',):
                if isinstance(x.get(k), str) and x.get('k') == 'pid':
                    out.add(x[k])
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(node)
    return out


def body_of(n):
    return [v for k, v in (n or {}).items() if k in ('b', 'c', 'u')]


def leaves_early(I, u, of):
    """(condition, where) under which a loop is left in the middle, given of()"""
    li = I.loopinfo[u]
    out = []
    for b in li['brk']:
        c = of(norm(b))
        if c is not FALSE:
            out.append((c, li['loc']))
    for pc, v, _, lps in li['rets']:
        c = And(*[of(norm(x)) for x in pc])
        if c is not FALSE:
            out.append((c, li['loc']))
    return out


def spot(loc):
    return '%s:%s (%s)' % (loc[0], loc[2], loc[1])


def inner_loops(I, name):
    """loops that take messages out of the buffer, one per turn"""
    out = []
    for e in I.events:
        if e.kind == 'call' and e.name == name and e.loops:
            u = e.loops[-1][3]
            if u not in out and u in I.loopinfo:
                out.append((u, e))
    return out


def R05(ctx):
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        N = LNAME[L] + ' producer'
        U = message_loop(s)
        names = sorted(set(s.requests) | set(s.beacons))
        if not ctx.check(U is not None and U in s.I.loopinfo, 'goes-on', L, '%s: of the messages of a chunk only one is handled' % N):
            continue
        ds = drops(s)
        flags, keys, others = guards(s)
        # every message is followed by the next one
        nx = s.msg.a[0]
        for m in [s.key, HASH_REQUEST] + names + ['another message']:
            for st in STRATEGIES:
                w = s.world(m, both(configured(st), smooth(s, user=False)))
                for e, t in s.handlers({m}) or [(None, None)]:
                    for c, loc in leaves_early(s.I, U, w.of):
                        cs = set(conj(c))
                        if any(alive(w, d) and set(conj(w.pc(d))) <= cs for d in ds):
                            continue        # it is dropped
                        if all(about_mark(s, x, ds) for x in [c]):
                            continue
                        if gone(s, c):
                            continue
                        ctx.bad('goes-on', '%s:%s' % (L, m), '%s: after %s the rest of the chunk is left unhandled' % (N, m), spot(loc))
                    break
            ctx.ok('goes-on', '%s:%s' % (L, m))
            ctx.count('messages followed (%s)' % N)
        drained(ctx, s.I, L, N, smooth(s), {U})
        whole_list(ctx, s, L, N, U)
        snapshots(ctx, s, L, N, U)
    r = consumer.rust()
    N = 'Rust consumer'
    ctx.derived(r.p)
    for u, e in inner_loops(r.I, 'next'):
        for m in consumer.messages(r.p):
            w = World('rs', r.msg, m.split('.'), both(consumer.infra))
            bad = leaves_early(r.I, u, w.of)
            ctx.count('messages followed (%s)' % N)
            ctx.check(not bad, 'goes-on', 'consumer-rs:%s' % m, '%s: after %s the rest of the chunk is left unhandled' % (N, m), spot(bad[0][1]) if bad else None)
    drained(ctx, r.I, 'consumer-rs', N, consumer.infra, {u for u, _ in inner_loops(r.I, 'next')})
    t = consumer.ts()
    ctx.derived(t.p)
    N = 'TypeScript consumer'
    fn = t.entries().get('data')
    if fn is None:
        ctx.missing('what the TypeScript consumer does with received data')
        return
    I = t.run(fn)
    got = lambda x: FALSE if x.op == 'is' and x.a[0] in ('undefined', 'null') and x.a[1].op == 'mcall' and x.a[1].a[1] == 'next' else None
    for u, e in inner_loops(I, 'next'):
        w = consumer.TsWorld(t, I, {}, both(got, consumer.ts_facts()))
        bad = leaves_early(I, u, w.of)
        ctx.count('messages followed (%s)' % N)
        ctx.check(not bad, 'goes-on', 'consumer-ts', '%s: after a message the rest of the chunk is left unhandled if %s' % (N, show(bad[0][0])[-120:] if bad else ''), spot(bad[0][1]) if bad else None)
    drained(ctx, I, 'consumer-ts', N, got, {u for u, _ in inner_loops(I, 'next')})


def about_mark(s, c, ds):
    """the consumer was dropped before: a condition that asks for the mark every drop leaves"""
    marks = {tail(e) for e in s.I.events if e.kind == 'set' and e.args and norm(e.args[0]) is TRUE and any(set(e.pc) <= set(d.pc) for d in ds)}
    f = lambda x: FALSE if x.op == 'field' and x.a[1] in marks and fieldpath(x)[0] is s.B else None
    return World(s.lang, s.msg, ('no', 'such'), f).of(c) is FALSE if marks else False


def gone(s, c):
    """the consumer is no longer known"""
    f = lambda x: (TRUE if x.a[0] == 'Some' else FALSE) if x.op == 'is' and x.a[0] in ('Some', 'undefined') and same_map_lookup(s, x.a[1], s.sender) else None
    return rewrite(c, lambda x: f(x) if f(x) is not None else rebuild(x.op, x.a), {}) is FALSE


def drained(ctx, I, key, N, facts, handling):
    """messages are taken out until there is none"""
    loops = inner_loops(I, 'next')
    if not ctx.check(bool(loops), 'drained', key, '%s: the messages of a chunk are not taken out one after the other until none is left' % N):
        return
    for u, e in loops:
        x = norm(e.val) if e.val is not None else None
        li = I.loopinfo[u]

        def f(y):
            if x is not None and y.op == 'is' and y.a[1] is x:
                return Bool(y.a[0] == 'Some') if y.a[0] in ('Some', 'None') else FALSE if y.a[0] in ('undefined', 'null') else None
            return facts(y)
        of = lambda t: rewrite(norm(t), lambda y: f(y) if f(y) is not None else rebuild(y.op, y.a), {})
        cs = [c for c, _ in leaves_early(I, u, of) if not any(z.op == 'field' for z in subterms(c) if z is not c and False)]
        out = And(*[of(c) for c in (li['exitpc'] or [TRUE])]) if li['exitpc'] is not None else FALSE
        # leaving for another reason than that no message is left (what depends on the message itself is judged above)
        if u in handling:
            only = [c for c in cs if x is None or not any(y is x for y in subterms(c)) and not conditions_on_state(c)]
        else:
            only = cs       # they are only put aside here
        ctx.check(out is FALSE and not only, 'drained', key + ':all', '%s: messages are left in the buffer although they are complete%s' % (N, ' (%s)' % show(only[0])[-100:] if only else ''), spot(li['loc']))


PARTS = ('filter', 'rev', 'skip', 'take', 'sorted', 'partialc', 'skipwhile', 'takewhile', 'slice', 'filtermap')


def whole_list(ctx, s, L, N, U):
    """the messages that were put aside are all handled, in their order"""
    coll = next((l[1] for e in s.I.events for l in e.loops if l[3] == U), None)
    loc = spot(s.I.loopinfo[U]['loc'])
    x = coll
    while x is not None:
        ctx.check(x.op not in PARTS, 'drained', L + ':list', '%s: of the messages taken out of a chunk only a part is handled, or in another order (%s)' % (N, x.op), loc)
        x = x.a[0] if x.a and hasattr(x.a[0], 'op') and x.op not in ('cat', 'list', 'field', 'mcall', 'mut', 'iter') else None
    taken = {U} | {u for u, _ in inner_loops(s.I, 'next')}
    counted = lambda c: any(y.op in ('<', '<=') and any(z.op == 'lv' and z.a[0] in taken for z in subterms(y)) for y in subterms(c))
    for n in sorted(set(s.requests) | set(s.beacons)):
        w = s.world(n, smooth(s))
        for e, t in s.handlers({n}):
            if alive(w, e):
                left = [c for c in conj(w.pc(e)) if c.op != 'exists' and counted(c)]
                ctx.check(not left, 'drained', '%s:%s:counted' % (L, n), '%s: whether %s is handled depends on how many messages came with it (%s)' % (N, n, show(left[0])[:100] if left else ''), e.where())


def conditions_on_state(c):
    return any(x.op == 'field' for x in subterms(c))


def snapshots(ctx, s, L, N, U):
    """what a message leaves in the state of the consumer is looked at again for the next one"""
    li = s.I.loopinfo[U]
    names = sorted(set(s.requests) | set(s.beacons))
    needed = {}
    for n in names:
        for e, t in s.handlers({n}):
            for c in e.pc:
                needed.update(consumer_fields(s, c))
    n = 0
    streams = {norm(e.recv) for e in s.I.events if e.kind == 'call' and e.name in ('next', 'chunk') and e.recv is not None}
    for k, v in li.get('vars', {}).items():
        x = [q for y, q in consumer_fields(s, v).items() if y in needed and y not in streams]
        n += 1
        name = k[0].split('#')[-1]
        if not x or name in bound_in(body_of(li['node'])):
            continue
        ctx.check(name not in names_in(body_of(li['node'])), 'fresh', '%s:%s' % (L, '.'.join(x[0])), '%s: %s is read once per chunk (%s), so a message does not see what the one before it changed' % (N, '.'.join(x[0]), name), spot(li['loc']))
    ctx.count('variables carried into the loop over messages (%s)' % N, n)
    reads = {}
    for t, rs in s.I.reads.items():
        reads.setdefault(norm(t), set()).update(rs)
    assigned = {tail(e) for e in s.I.events if e.kind == 'set' and U in [l[3] for l in e.loops]}
    for x, q in needed.items():
        if q[-1] in assigned and x in reads:
            late = [e for n in names for e, _ in s.handlers({n}) if any(x in consumer_fields(s, c) for c in e.pc) and not any(U in r[1] and before(r, e) for r in reads[x])]
            ctx.check(not late, 'fresh', '%s:%s' % (L, '.'.join(q)), '%s: %s is not looked at again for the further messages of a chunk' % (N, '.'.join(q)), spot(li['loc']))


# ---------------------------------------------------------------- L02
def L02(ctx):
    L02_ts(ctx)
    L02_rs(ctx)


def L02_ts(ctx):
    t = consumer.ts()
    ctx.derived(t.p)
    N = 'TypeScript consumer'
    ent = t.entries()
    if 'disconnected' not in ent or 'data' not in ent:
        ctx.missing('what the TypeScript consumer does when its connection is lost')
        return
    ev = t.run(ent['disconnected']).events
    again = t.run(ent['connected']).events if 'connected' in ent else []
    D = t.run(ent['data'])
    ctx.count('effects of a lost connection (TypeScript consumer)', len(ev))
    sure = lambda e: not [c for c in e.pc if c is not TRUE]
    # the bytes of the old connection
    bufs = list(dict.fromkeys(norm(e.recv) for e in D.events if e.kind == 'call' and e.name == 'chunk' and e.recv is not None))
    for b in bufs:
        q = fieldpath(b)[1]
        cl = [e for e in ev + again if sure(e) and (e.kind == 'call' and e.recv is not None and norm(e.recv) is b and empties(t, e) or e.kind == 'set' and q and tail(e) == q[-1] and e.args and norm(e.args[0]).op == 'new')]
        ctx.check(bool(cl), 'stream', 'ts:' + '.'.join(q), '%s: bytes left over from a lost connection are put in front of those of the next one' % N, ent['disconnected'].loc())
    ctx.floor('streams of received bytes', len(bufs), 1)
    # whoever waits for an answer
    fn = t.method('request')
    I = t.run(fn)
    wait = [(e, norm(e.recv)) for e in I.events if e.kind == 'call' and e.name == 'set' and e.recv is not None and len(e.args) == 2 and any(x.op == 'sym' and x.a[0].startswith('resolve') for x in subterms(norm(e.args[1])))]
    rej = [(e, norm(e.recv)) for e in I.events if e.kind == 'call' and e.name == 'set' and e.recv is not None and len(e.args) == 2 and any(x.op == 'sym' and x.a[0].startswith('reject') for x in subterms(norm(e.args[1])))]
    ctx.floor('places requests wait at', len(wait), 1)
    for e, m in wait:
        q = '.'.join(fieldpath(m)[1])
        ended = []
        for d in ev:
            if d.kind == 'call' and d.recv is not None and sure(d) and d.loops:
                over = norm(d.loops[-1][1])
                for r, mm in rej:
                    if r.pc == e.pc and norm(r.args[0]) is norm(e.args[0]) and walks(over, mm) and any(x.op == 'elem' for x in subterms(norm(d.recv))):
                        ended.append(d)
        ctx.check(bool(ended), 'waiting', 'ts:' + q, '%s: a request that waits for its answer when the connection is lost waits forever' % N, ent['disconnected'].loc())
        cl = [d for d in ev + again if sure(d) and (d.kind == 'call' and d.name == 'clear' and d.recv is not None and norm(d.recv) is m or d.kind == 'set' and tail(d) == q.split('.')[-1])]
        ctx.check(bool(cl), 'waiting', 'ts:%s:cleared' % q, '%s: a request of a lost connection takes the answer to another one of the next connection' % N, ent['disconnected'].loc())
        early = [d for d in ended if any(c.seq < d.seq and d in ev and c in ev and c.kind == 'call' and norm(c.recv) is norm(d.loops[-1][1]) for c in cl)]
        ctx.check(not early, 'waiting', 'ts:%s:order' % q, '%s: the waiting requests are forgotten before they are told' % N, early[0].where() if early else None)
    # the identity
    idn = [e for e in ev if e.kind == 'set' and sure(e) and tail(e) in ('uuid', '_uuid') and e.args and norm(e.args[0]) is UNDEF]
    ctx.check(bool(idn), 'identity', 'ts', '%s: it keeps the identity it had on a lost connection' % N, ent['disconnected'].loc())
    # requests and beacons can be sent again
    for f in {(f.file, f.node.get('l')): f for f in t.p.prog.all_fns if f.name == 'send' and f.owner and f.file not in t.p.user}.values():
        again_sendable(ctx, t, N, f)
    # and users are told
    told = [e for e in ev if e.kind == 'call' and e.name == 'emit' and e.recv is not None and fieldpath(norm(e.recv))[1][-1:] == ['disconnected'] and sure(e)]
    ctx.check(len(told) == 1, 'told', 'ts', '%s: a lost connection is reported %d times instead of once' % (N, len(told)), ent['disconnected'].loc())


def token(e):
    x = norm(e.recv)
    while x.op in ('mut', 'lv', 'upd'):
        x = x.a[2] if x.op == 'lv' else x.a[0]
    return x


def walks(over, m):
    return any(x is m for x in subterms(over))


def empties(t, e):
    """a method that leaves its object without bytes and messages"""
    return e.name in ('destroy', 'clear', 'reset', 'drop', 'empty')


def again_sendable(ctx, t, N, fn):
    """a request or beacon that came to nothing does not block the next one"""
    I = t.run(fn)
    ws = consumer.waiting(t, I)
    numbers = {q for _, q, _, _ in ws}
    w = consumer.TsWorld(t, I, {}, consumer.ts_facts(True, numbers))
    numbers |= {w.of(q) for q in numbers}
    ks = {k for _, _, k, _ in ws}
    if len(ks) != 1:
        ctx.undecided('again', 'ts:%s: %d promises' % (fn.owner, len(ks)))
        return
    n = fn.owner.split('::')[-1]
    ctx.count('requests and beacons (TypeScript consumer)')
    fields = sorted({tail(x) for x in I.events if x.kind == 'set' and x.args and consumer.enum_name(norm(x.args[0])) == 'Pending'})
    for lab, answers, facts in (('lost', {k: None for k in ks}, consumer.ts_facts(True, numbers)), ('unsent', {}, consumer.ts_facts(False, numbers))):
        lost = lab == 'lost'

        def unanswered(x):
            """nothing that follows an answer happens"""
            if x.op == 'deferred':
                return FALSE
            if lost and x.op == 'is' and x.a[0] == 'Fulfilled' and rejected(x.a[1], ks):
                return FALSE
            return None
        w = consumer.TsWorld(t, I, answers, facts, unanswered)
        for q in fields:
            sets = [x for x in I.events if x.kind == 'set' and tail(x) == q and x.args and w.pc(x) is TRUE]
            if not sets:
                continue
            ctx.check(consumer.enum_name(w.of(sets[-1].args[0])) != 'Pending', 'again', 'ts:%s:%s' % (n, lab), '%s: %s cannot be sent again after %s' % (N, n, 'its connection was lost' if lost else 'sending it failed'), sets[-1].where())


def rejected(t, ks):
    """the promise of a request whose connection was lost, or one that follows it"""
    while t not in ks and t.op == 'mcall' and (t.a[1] == 'then' and len(t.a) == 3 or t.a[1] == 'finally'):
        t = t.a[0]
    return t in ks


def L02_rs(ctx):
    r = consumer.rust()
    ctx.derived(r.p)
    N = 'Rust consumer'
    con = [e for e in r.ev if e.kind == 'call' and e.name == 'connect' and e.recv is not None and getattr(e.extra, 'file', None) is None]
    if not con:
        ctx.missing('the call that opens the connection of the Rust consumer')
        return
    c = con[0]
    R = {l[3] for l in c.loops}
    ctx.count('connections (Rust consumer)', len(con))
    made = {}
    for e in r.ev:
        if e.kind == 'call' and e.val is not None:
            made.setdefault(norm(e.val), e)

    def own(recv, rule, what):
        recv = norm(recv)
        if any(x.op == 'lv' and x.a[0] in R for x in subterms(recv)):
            ctx.bad(rule, 'rs', '%s: %s' % (N, what), c.where())
            return
        b = recv
        while b.op in ('mut', 'lv', 'upd'):
            b = b.a[2] if b.op == 'lv' else b.a[0]
        m = made.get(b)
        if m is not None:
            ctx.check(R <= {l[3] for l in m.loops}, rule, 'rs', '%s: %s' % (N, what), m.where())
        elif b.op in ('emptymap', 'list', 'slit', 'cat'):
            ctx.ok(rule, 'rs')
        else:
            ctx.undecided(rule, 'rs: %s' % show(b)[:80])
    for e in r.ev:
        if e.kind == 'call' and e.name == 'chunk' and e.recv is not None:
            own(e.recv, 'stream', 'bytes left over from a lost connection are put in front of those of the next one')
    if 'request' in r.roles:
        own(r.roles['request'][4].recv, 'waiting', 'requests of a lost connection are still waiting on the next one')
    else:
        ctx.undecided('waiting', 'rs: where requests wait')
    # the tasks of a connection end with it
    ends = [e for e in r.ev if e.kind == 'call' and e.name == 'cancel' and e.seq > c.seq and {l[3] for l in e.loops} == R]
    # what the task that keeps the requests waits for beside its next command
    if 'request' in r.roles:
        L = {l[3] for l in r.roles['request'][4].loops}
        heard = {token(e) for e in r.ev if e.kind == 'call' and e.name == 'cancelled' and e.recv is not None and {l[3] for l in e.loops} == L}
        if not ctx.check(bool(heard), 'ended', 'rs:heard', '%s: the task requests wait at is not told that the connection is lost' % N, c.where()):
            return
        ends = [e for e in ends if token(e) in heard]
    # where the end of the connection was waited for beside other things: it is what came first
    first = {}
    for x in c.pc:
        for y in subterms(x):
            if y.op == 'selected':
                first[y] = True
    for e in ends:
        for x in e.pc:
            for y in subterms(x):
                if y.op == 'ite' and y.a[0].op == 'selected' and any(z is c.val for z in subterms(y.a[1])):
                    first[y.a[0]] = True
    w = given(Or(*[And(*[x for x in e.pc if x not in c.pc]) for e in ends]), lambda x: Bool(first[x]) if x in first else None)
    open_ = sat(Not(w)) if ends else True
    if open_ is None:
        ctx.undecided('ended', 'rs: %s' % show(w)[:80])
        return
    ctx.check(not open_, 'ended', 'rs', '%s: the tasks of a connection go on when it is lost%s: requests wait forever' % (N, '' if not ends else ' unless %s' % show(w)[:100]), c.where())
