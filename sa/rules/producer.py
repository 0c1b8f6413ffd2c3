"""H01, H02, R01, R02, R04, L01: the derived producers, message by message."""
import functools, re
from .. import proj, worlds
from ..program import Ty
from ..schema import Stuck
from ..terms import *
from ..worlds import World, norm, UNDEF

STRATEGY_LETS_THROUGH = ('Ignore', 'Log')
PROTO_HASH, FLOW_HASH = '0ProtocolHash0', '0WorkflowHash0'


def strip(t):
    """a value behind success and option wrappers"""
    while True:
        if t.op == 'proj' and t.a[0] in ('Ok', 'Some') and t.a[1] == 0:
            t = t.a[2]
        elif t.op == 'ctor' and t.a[0] == 'Some' and len(t.a) == 2:
            t = t.a[1]
        elif t.op in ('resolved', 'awaited') and len(t.a) == 1:
            t = t.a[0]
        elif t.op == 'mcall' and t.a[1] in ('to_string', 'to_owned', 'clone') and len(t.a) == 2:
            t = t.a[0]
        else:
            return t


def fieldpath(t):
    """(base, [names]) of a chain of field accesses"""
    q = []
    while t.op == 'field':
        q.append(t.a[1])
        t = t.a[0]
    return t, q[::-1]


def conj(t):
    return list(t.a) if t.op == 'and' else ([] if t is TRUE else [t])


def atoms(t):
    if t.op in ('and', 'or'):
        for x in t.a:
            yield from atoms(x)
    elif t.op == 'not':
        yield from atoms(t.a[0])
    elif t.op == 'ite':
        for x in t.a:
            yield from atoms(x)
    else:
        yield t


class Side(object):
    def __init__(self, lang):
        self.lang = lang
        p = self.p = proj.project('producer', lang)
        if p.errors:
            raise Stuck('the derived producer does not parse: %s' % p.errors[:2])
        m = p.model
        self.requests = {r.request.a[0]: r for r in m.requests}
        self.beacons = [b.reference for b in m.beacons]
        self.key, self.assigned = m.config.self_key.a[0], m.config.assigned_key.a[0]
        self.find_entries()
        self.I = worlds.run(p, self.received)
        self.sinks = self.find_sinks(self.I)
        self.find_root()

    # -- entries
    def find_entries(self):
        p = self.p
        if self.lang == 'rs':
            c = [f for f in p.prog.all_fns if f.name == 'listener' and f.file not in p.user]
            c = list({(f.file, f.node.get('l')): f for f in c}.values())
            if len(c) != 1:
                # the function that owns the state of all consumers: it receives from the transport
                raise Stuck('listener of the Rust producer')
            self.received = c[0]
            self.entries = {'received': c[0], 'connected': c[0], 'disconnected': c[0]}
            return
        ctors = {}
        for f in p.prog.all_fns:
            if f.name == 'constructor' and f.owner and f.file not in p.user:
                ctors[(f.file, f.node.get('l'))] = f
        self.entries = {}
        self.setup = None
        for f in ctors.values():
            if f.owner.split('::')[-1] != 'Producer':
                continue
            I = worlds.run(p, f)
            for e in I.events:
                if e.kind == 'call' and e.name == 'subscribe' and e.recv is not None and e.recv.op == 'field':
                    b, q = fieldpath(e.recv)
                    a = e.args[0]
                    if b.op == 'mcall' and b.a[1] == 'getEvents':
                        if a.op == 'field':
                            fn = p.prog.method(Ty(f.owner), a.a[1])
                            if fn:
                                self.entries[q[-1]] = fn
            if self.entries:
                self.setup = (f, I)
                break
        if 'received' not in self.entries:
            raise Stuck('subscription of the TypeScript producer to received data')
        self.received = self.entries['received']

    # -- calls into user code
    def type_name(self, ty):
        """dotted protocol path of a parsed type"""
        while ty.name in ('ref', '&') and ty.args:
            ty = ty.args[0]
        n = ty.name
        for pre in ('crate::protocol::', 'protocol::', 'crate::implementation::protocol::', 'Protocol::'):
            if n.startswith(pre):
                return n[len(pre):].replace('::', '.')
        return None

    def first_param(self, fn):
        ps = [x for x in fn.node.get('params') or [] if not x.get('self')]
        if not ps:
            return None
        ty = ps[0].get('ty') or (ps[0].get('pat') or {}).get('ty')
        if not ty:
            return None
        return self.type_name(self.p.prog.parse_type(ty, fn.mod))

    def find_sinks(self, I):
        out = []
        for e in I.events:
            if e.kind == 'call' and getattr(e.extra, 'file', None) in self.p.user:
                out.append((e, self.first_param(e.extra)))
        return out

    def handlers(self, names):
        return [(e, n) for e, n in self.sinks if n in names]

    def find_root(self):
        roots = {}
        for e, n in self.handlers(set(self.requests) | set(self.beacons)):
            for a in e.args[:1]:
                for x in worlds.root_in(norm(a)):
                    roots[x] = roots.get(x, 0) + 1
        if len(roots) != 1:
            raise Stuck('%d origins of the messages given to user code' % len(roots))
        self.msg = list(roots)[0]
        nx = self.msg.a[0]
        self.hdr = mk('field', nx, 'header')
        b = nx.a[2] if nx.op == 'proj' else nx
        b = b.a[0]
        while b.op == 'mut':
            b = b.a[0]
        if b.op != 'field':
            raise Stuck('owner of the buffer messages come from')
        self.B = b.a[0]
        # the key the consumer is looked up with
        self.sender = None
        t = self.B.a[2] if self.B.op == 'proj' else self.B
        if t.op == 'mcall' and t.a[1] == 'get' and len(t.a) > 2:
            self.sender = strip(t.a[2])
            self.consumers = t.a[0]
        if self.sender is None:
            raise Stuck('how the consumer of a message is looked up')

    def world(self, path, facts=None, lib=True):
        def f(x):
            if lib and x.op == 'is' and x.a[0] == 'Ok' and x.a[1].op == 'mcall' and x.a[1].a[1] in ('pack', 'send', 'chunk'):
                return TRUE
            if x.op == 'is' and x.a[0] == 'undefined' and x.a[1].op in ('elem', 'resolved', 'new', 'slit'):
                return FALSE
            return facts(x) if facts else None
        return World(self.lang, self.msg, path.split('.'), f)

    def payload(self, path):
        return self.world(path).payload()

    def sees_message(self, t):
        return any(x is self.msg or x is self.hdr for x in subterms(norm(t)))

    def about_consumer(self, t):
        return any(x is self.B for x in subterms(norm(t)))

    def senders(self):
        """terms that hold the uuid of the consumer of a message"""
        out = [self.sender]
        for e in self.I.events if self.lang == 'rs' else self.connected_events():
            if e.kind == 'call' and e.name in ('insert', 'set') and e.recv is not None and len(e.args) == 2 and same_map(e.recv, self.consumers):
                for q in uuid_paths(self, e.args[1], strip(norm(e.args[0]))):
                    t = self.B
                    for n in q:
                        t = mk('field', t, n)
                    out.append(t)
        return out

    @functools.lru_cache(None)
    def connected_events(self):
        fn = self.entries.get('connected')
        return worlds.run(self.p, fn).events if fn else []

    @functools.lru_cache(None)
    def disconnected_events(self):
        fn = self.entries.get('disconnected')
        return self.I.events if self.lang == 'rs' else (worlds.run(self.p, fn).events if fn else [])


def same_map(a, b):
    f = lambda t: t.a[2] if t.op == 'lv' else t
    x, y = f(a), f(b)
    return x is y or show(x).split('.')[-1] == show(y).split('.')[-1]


def uuid_paths(side, v, key, depth=0):
    """paths of an inserted consumer under which its key is stored"""
    if depth > 5:
        return
    if v.op == 'slit':
        for n, x in v.a[1]:
            if strip(norm(x)) is key:
                yield (n,)
            else:
                for q in uuid_paths(side, x, key, depth + 1):
                    yield (n,) + q
    elif v.op in ('new', 'inst', 'obj'):
        yield from ts_uuid_paths(side, v, key, depth)


def ts_uuid_paths(side, v, key, depth):
    cls = v.a[0]
    fields = side.p.prog.items.get(cls)
    for n, x in ts_fields(side, v).items():
        if strip(norm(x)) is key:
            yield (n,)
        elif x.op == 'new':
            for q in ts_uuid_paths(side, x, key, depth + 1):
                yield (n,) + q


def ts_fields(side, v):
    """fields a constructor of a class of the program gives its object: name -> value in terms of the arguments"""
    fn = side.p.prog.method(Ty(v.a[0]), 'constructor')
    if fn is None:
        return {}
    I = worlds.run(side.p, fn)
    ps = [p['n'] if 'n' in p else (p.get('pat') or {}).get('n') for p in fn.node.get('params') or []]
    m = {mk('sym', n): a for n, a in zip(ps, v.a[1:]) if n}
    out = {}
    for e in I.events:
        if e.kind == 'set' and e.recv is not None and show(e.recv) in ('self', 'this') and e.args and '.' not in e.name:
            out[e.name] = subst(e.args[0], m)
    return out


@functools.lru_cache(None)
def side(lang):
    return Side(lang)


# ---------------------------------------------------------------- shared facts
LNAME = {'rs': 'Rust', 'ts': 'TypeScript'}


def alive(w, e):
    return w.pc(e) is not FALSE


def returned(s, e):
    """the value user code returned, in terms of the caller"""
    return strip_ref(norm(e.val)) if e.val is not None else None


def strip_ref(t):
    return t


def same_call(t, e):
    return t.op == 'call' and t.a[0] == e.val.a[0] if e.val is not None and e.val.op == 'call' else t is e.val


def rs_conclusion(e, path):
    """facts of the case that user code returned path, e.g. ('Ok', 'Acc')"""
    def f(x):
        if x.op == 'is':
            q, b = worlds.proj_chain(x.a[1])
            if q and q[0] not in ('Ok', 'Err'):
                return None
            if same_call(b, e) and tuple(q) == tuple(path[:len(q)]) and len(q) < len(path):
                return Bool(x.a[0].split('::')[-1] == path[len(q)])
        return None
    return f


def id_owner(x):
    """the protocol structure or value whose id a term asks for"""
    return x.a[0] if x.op == 'mcall' and x.a[1] == 'getId' else None


def struct_of(t):
    """dotted path of a protocol structure named by a term"""
    if t.op == 'sym' and t.a[0].startswith('crate::protocol::'):
        return t.a[0][len('crate::protocol::'):].replace('::', '.')
    return None


def fulfilled(x):
    return TRUE if x.op == 'is' and x.a[0] == 'Fulfilled' else None


def rejected(e):
    def f(x):
        if x.op == 'is' and x.a[0] == 'Fulfilled' and same_call(strip(x.a[1]), e):
            return FALSE
        return None
    return f


def ts_conclusion(response, supplied=None):
    """facts of the case that the response given is this structure and these broadcasts were supplied"""
    def f(x):
        if fulfilled(x) is not None:
            return TRUE
        if x.op == '==':
            o = [id_owner(y) for y in x.a]
            if all(y is not None for y in o):
                n = [struct_of(y) for y in o]
                if n[0] and n[1]:
                    return Bool(n[0] == n[1])
                k = 0 if n[0] else 1
                if n[k] and o[1 - k].op == 'field' and response is not None:
                    return Bool(n[k] == response)
        if x.op == 'exists' and supplied is not None:
            c = x.a[2]
            if c.op == '==':
                n = [struct_of(o) for o in (id_owner(y) for y in c.a) if o is not None]
                n = [y for y in n if y]
                if len(n) == 1:
                    return Bool(n[0] in supplied)
        return None
    return f


def message_sends(s, w, events, after=None):
    """alive calls that give packed bytes to the transport: (event, what is packed, sequence, signature, target)"""
    out = []
    for e in events:
        if e.kind != 'call' or e.name != 'send' or len(e.args) != 2 or (after is not None and e.seq < after.seq):
            continue
        if not alive(w, e):
            continue
        b = strip(w.of(norm(e.args[0])))
        u = strip(w.of(norm(e.args[1])))
        if b.op == 'mcall' and b.a[1] == 'pack' and len(b.a) == 4:
            out.append((e, b.a[0], b.a[2], b.a[3], u))
        else:
            out.append((e, b, None, None, u))
    return out


def extra_conditions(w, e, base):
    have = set(conj(w.pc(base)))
    return [c for c in conj(w.pc(e)) if c not in have]


def loop_lists(w, e):
    return [w.of(norm(l[1])) if l[1] is not None else None for l in e.loops]


def not_empty(c, lists):
    """a condition that only says that a list that is walked has elements"""
    if c.op == 'not' and c.a[0].op == '==' and any(x.op == 'len' for x in c.a[0].a):
        return True
    if c.op == '<' and c.a[0] == Int(0) and c.a[1].op == 'len':
        return True
    return False


def type_at(s, X, e):
    """type of a part of what user code returned"""
    if same_call(X, e):
        return s.I.typeof(e.val)
    P = s.p.prog
    if X.op == 'proj':
        t = type_at(s, X.a[2], e)
        if t is None:
            return None
        v = X.a[0].split('::')[-1]
        if t.name == 'Result':
            return t.args[0 if v == 'Ok' else 1]
        if t.name == 'Option':
            return t.args[0]
        it, mod = P.variant(t, v)
        if it is not None:
            ts = variant_types(it)
            if X.a[1] < len(ts):
                return P.parse_type(ts[X.a[1]], mod)
        return None
    if X.op == 'field':
        t = type_at(s, X.a[0], e)
        if t is None:
            return None
        if t.name == 'tuple' and str(X.a[1]).isdigit() and int(X.a[1]) < len(t.args):
            return t.args[int(X.a[1])]
    return None


def variant_types(it):
    return [f[1] for f in it.get('f') or []]


def all_packable(s, ty, path=()):
    """the protocol structures in a declared return type: [(path, structure, optional, addressed)]"""
    out = []
    n = s.type_name(ty)
    if n:
        return [(n, False, False)]
    if ty.name == 'Option' and ty.args:
        return [(a, True, c) for a, b, c in all_packable(s, ty.args[0])]
    if ty.name == 'tuple':
        if len(ty.args) == 2 and ty.args[0].name == 'Vec':
            return [(a, b, True) for a, b, c in all_packable(s, ty.args[1])]
        for a in ty.args:
            out += all_packable(s, a)
    return out


def declared(act):
    return [(b.reference, b.optional) for b in act.broadcast]


def action_name(r, act):
    c = act.conclusion
    return c.a[0] if c.name == 'Some' else None


# ---------------------------------------------------------------- dispatch
def dispatch(ctx, s, names, kind, rule):
    """each message reaches the one user function declared for it, whole"""
    L = s.lang
    good = {}
    base = None
    for n in names:
        w = s.world(n)
        calls = [(e, t) for e, t in s.handlers(set(s.requests) | set(s.beacons)) if alive(w, e)]
        mine = [e for e, t in calls if t == n]
        key = '%s:%s' % (L, n)
        for e, t in calls:
            if t != n:
                ctx.bad(rule, key + ':' + t, '%s producer: a received %s also reaches the user function for %s' % (LNAME[L], n, t), e.where())
        if not ctx.check(len(mine) == 1, rule, key, '%s producer: a received %s reaches its user function %d times instead of once' % (LNAME[L], n, len(mine)), mine[0].where() if mine else s.p.model and None):
            continue
        e = mine[0]
        a = w.of(norm(e.args[0]))
        if not ctx.check(strip(a) is w.payload(), rule + '-payload', key, '%s producer: the user function for %s gets %s instead of the received message' % (LNAME[L], n, show(a)[:120]), e.where()):
            continue
        # what is asked of the message before it is handed over
        cs = conj(w.pc(e))
        odd = [c for c in cs if in_condition(s, c)]
        ctx.check(not odd, rule + '-always', key, '%s producer: %s is handled only if %s' % (LNAME[L], n, show(And(*odd))[:160] if odd else ''), e.where())
        good[n] = e
    # all of them are reached under the same conditions
    if len(good) > 1:
        sets = {n: frozenset(conj(s.world(n).pc(e))) for n, e in good.items()}
        common = frozenset.intersection(*sets.values())
        for n in sorted(good):
            ex = [c for c in sets[n] if c not in common]
            if ex and not [c for m in sets if m != n for c in sets[m] if c not in common]:
                ctx.bad(rule + '-always', '%s:%s:more' % (L, n), '%s producer: %s is handled only under an additional condition: %s' % (LNAME[L], n, show(And(*ex))[:160]), good[n].where())
    return good


def in_condition(s, c):
    """a condition on the message or its header (not on what was done with it)"""
    return any(x is s.hdr or x is s.msg for a in atoms(c) for x in subterms_outside(a, ('cat', 'mut', 'call'))) if s.lang == 'ts' else \
        any(x is s.hdr or x is s.msg for a in atoms(c) for x in subterms_outside(a, ('cat', 'call')))


def subterms_outside(t, ops):
    out = []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            if x.op in ops:
                return
            out.append(x)
            for y in x.a:
                go(y)
    go(t)
    return out


# ---------------------------------------------------------------- R01
def conclusions(s, r):
    """(label, response structure, action or None)"""
    out = []
    for a in r.actions:
        out.append((action_name(r, a) or 'response', a.response.a[0], a))
    out.append(('error', r.error.a[0], None))
    return out


def case(s, e, r, label, resp, act, supplied=None):
    """facts: user code concluded this"""
    if s.lang == 'rs':
        if act is None:
            return rs_conclusion(e, ('Err',))
        t = s.I.typeof(e.val)
        ok = t.args[0] if t.name == 'Result' and t.args else None
        multi = ok is not None and s.p.prog.items.get(ok.name, ({},))[0].get('k') == 'enum'
        return rs_conclusion(e, ('Ok', label) if multi else ('Ok',))
    return ts_conclusion(resp, supplied)


def response_class(s, e):
    """TypeScript: the class of what user code returns, and the field its constructor keeps the response in"""
    t = s.I.typeof(e.val)
    while t.name == 'Promise' and t.args:
        t = t.args[0]
    fn = s.p.prog.method(t, 'constructor')
    if fn is None:
        return t, None, None
    ps = fn.node.get('params') or []
    if len(ps) != 1:
        return t, None, None
    n = ps[0]['pat']['n']
    f = ts_fields(s, mk('new', t.name, mk('sym', 'the response')))
    kept = [k for k, v in f.items() if v == mk('sym', 'the response')]
    if ps[0].get('prop'):
        kept.append(n)
    return t, kept, [x.strip() for x in (ps[0].get('ty') or '').split('|')]


def R01(ctx):
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        ctx.count('calls followed in the %s producer' % LNAME[L], sum(1 for e in s.I.events if e.kind == 'call'))
        good = dispatch(ctx, s, sorted(s.requests), 'request', 'dispatch')
        ctx.count('requests (%s)' % LNAME[L], len(good))
        ctx.floor('requests reaching user code (%s)' % L, len(good), 1)
        senders = s.senders()
        n_ans = 0
        for n, e in sorted(good.items()):
            r = s.requests[n]
            kept = None
            if L == 'ts':
                t, kept, union = response_class(s, e)
                if not kept:
                    ctx.undecided('answer', 'ts: how %s keeps the response' % t.name)
                    continue
                want = {x[1] for x in conclusions(s, r)}
                have = {s.type_name(s.p.prog.parse_type(u, s.p.prog.items[t.name][1])) for u in union}
                ctx.check(want <= have and not (have - want), 'declared', 'ts:' + n, 'TypeScript producer: %s may be answered with %s, declared are %s' % (n, sorted(map(str, have)), sorted(want)), e.where())
            else:
                t = s.I.typeof(e.val)
            for label, resp, act in conclusions(s, r):
                key = '%s:%s:%s' % (L, n, label)
                sup = {b for b, o in declared(act)} if act is not None else set()
                w = s.world(n, case(s, e, r, label, resp, act, sup))
                sends = [x for x in message_sends(s, w, s.I.events, e) if e.val is not None and any(same_call(y, e) for y in subterms(x[1]))]
                ans = [x for x in sends if len(x[0].loops) == len(e.loops)]
                n_ans += 1
                if not ctx.check(len(ans) == 1, 'answer', key, '%s producer: when %s is concluded with %s, %d answers are sent instead of one' % (LNAME[L], n, label, len(ans)), (ans[0][0] if ans else e).where()):
                    continue
                se, X, seq, sig, u = ans[0]
                if L == 'rs':
                    ty = type_at(s, X, e)
                    if ty is None:
                        ctx.undecided('answer', '%s: type of %s' % (key, show(X)[-80:]))
                    else:
                        ctx.check(s.type_name(ty) == resp, 'answer-type', key, 'Rust producer: %s concluded with %s is answered with %s, declared is %s' % (n, label, s.type_name(ty) or ty, resp), se.where())
                else:
                    b, q = fieldpath(X)
                    ctx.check(same_call(strip(b), e) and len(q) == 1 and q[0] in kept, 'answer-type', key, 'TypeScript producer: %s is answered with %s, not with what user code responded' % (n, show(X)[-80:]), se.where())
                ctx.check(seq is s.hdr_sequence(), 'sequence', key, '%s producer: the answer to %s (%s) carries the sequence %s instead of the one of the request' % (LNAME[L], n, label, show(seq) if seq is not None else '?'), se.where())
                ctx.check(u in senders, 'addressee', key, '%s producer: the answer to %s (%s) is sent to %s, not to the consumer that asked' % (LNAME[L], n, label, show(u)[:120]), se.where())
                ex = [c for c in extra_conditions(w, se, e) if not optional_only(s, c, e)]
                ctx.check(not ex, 'always', key, '%s producer: the answer to %s (%s) is sent only if %s' % (LNAME[L], n, label, show(And(*ex))[-160:] if ex else ''), se.where())
        ctx.floor('answers (%s)' % L, n_ans, 6)


def optional_only(s, c, e):
    """always true: an optional part is there and was packed, or is not there"""
    vs = sorted({a for a in atoms(c)}, key=show)
    if len(vs) > 8:
        return False
    ok = True
    for bits in range(1 << len(vs)):
        env = {v: Bool(bits >> i & 1) for i, v in enumerate(vs)}
        r = evaluate(c, env)
        if r is not True:
            ok = False
    return ok


def evaluate(c, env):
    if c in env:
        return env[c].a[0]
    if c.op == 'bool':
        return c.a[0]
    if c.op == 'not':
        x = evaluate(c.a[0], env)
        return None if x is None else not x
    if c.op in ('and', 'or'):
        xs = [evaluate(x, env) for x in c.a]
        if None in xs:
            return None
        return all(xs) if c.op == 'and' else any(xs)
    if c.op == 'ite':
        x = evaluate(c.a[0], env)
        return None if x is None else evaluate(c.a[1 if x else 2], env)
    return None


Side.hdr_sequence = lambda s: mk('field', s.hdr, 'sequence')


# ---------------------------------------------------------------- R04
def struct_named(t):
    """(dotted path, fields) of a structure literal of the protocol"""
    if t.op == 'slit':
        n, f = t.a[0], t.a[1]
    elif t.op == 'new':
        n = t.a[0]
        f = t.a[1].a[1] if len(t.a) > 1 and t.a[1].op == 'slit' else ()
    else:
        return None, {}
    for pre in ('crate::protocol::', 'protocol::', 'crate::implementation::protocol::'):
        if n.startswith(pre):
            return n[len(pre):].replace('::', '.'), dict(f)
    return None, {}


def absent(t):
    return t is UNDEF or (t.op == 'ctor' and t.a[0] in ('None', 'undefined', 'null'))


def present(t):
    if t.op == 'ite':
        return present(t.a[1]) and present(t.a[2])
    return t.op in ('str', 'cat', 'new', 'slit') or (t.op == 'ctor' and t.a[0] in ('Some', 'Error'))


def R04(ctx):
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        good = dispatch(ctx, s, sorted(s.beacons), 'beacon', 'dispatch')
        ctx.count('beacons (%s)' % LNAME[L], len(good))
        ctx.floor('beacons reaching user code (%s)' % L, len(good), 1)
        senders = s.senders()
        for n, e in sorted(good.items()):
            key = '%s:%s' % (L, n)
            w = s.world(n, rs_conclusion(e, ('Ok',)) if L == 'rs' else fulfilled)
            conf = []
            for x in message_sends(s, w, s.I.events):
                nm, f = struct_named(x[1])
                if nm == 'InternalServiceGroup.BeaconConfirmation':
                    conf.append((x, f))
            if not ctx.check(len(conf) == 1, 'confirmation', key, '%s producer: a %s that was handled is confirmed %d times instead of once' % (LNAME[L], n, len(conf)), e.where()):
                continue
            (se, X, seq, sig, u), f = conf[0]
            ctx.check(se.seq > e.seq, 'after', key, '%s producer: %s is confirmed before its handler has run' % (LNAME[L], n), se.where())
            ctx.check(seq is s.hdr_sequence(), 'sequence', key, '%s producer: the confirmation of %s carries the sequence %s' % (LNAME[L], n, show(seq) if seq is not None else '?'), se.where())
            ctx.check(u in senders, 'addressee', key, '%s producer: the confirmation of %s is sent to %s' % (LNAME[L], n, show(u)[:120]), se.where())
            ctx.check('error' in f and absent(f['error']), 'no-error', key, '%s producer: the confirmation of %s reports the error %s' % (LNAME[L], n, show(f.get('error', UNIT))[:80]), se.where())
            ex = [c for c in extra_conditions(w, se, e) if not optional_only(s, c, e)]
            ctx.check(not ex, 'always', key, '%s producer: %s is confirmed only if %s' % (LNAME[L], n, show(And(*ex))[-160:] if ex else ''), se.where())
            # a handler that failed
            w = s.world(n, rs_conclusion(e, ('Err',)) if L == 'rs' else rejected(e))
            bad = [x for x in message_sends(s, w, s.I.events, e) if struct_named(x[1])[0] == 'InternalServiceGroup.BeaconConfirmation' and absent(struct_named(x[1])[1].get('error', UNIT))]
            ctx.check(not bad, 'failed', key, '%s producer: %s is confirmed although its handler failed' % (LNAME[L], n), bad[0][0].where() if bad else None)


# ---------------------------------------------------------------- H01, H02
HASH_REQUEST = 'InternalServiceGroup.HashRequest'


def gives(e):
    """an assignment that leaves something behind"""
    v = e.args[0] if e.args else None
    return v is not None and v is not FALSE and not absent(v)


def all_events(s):
    if s.lang == 'rs':
        return s.I.events
    out = []
    for n, fn in sorted(s.entries.items()):
        out += s.I.events if fn is s.received else worlds.run(s.p, fn).events
    return out


def presence(s, c):
    """the optional state of the consumer a condition asks for"""
    if s.lang == 'rs' and c.op == 'is' and c.a[0] == 'Some' or s.lang == 'ts' and c.op == 'not' and c.a[0].op == 'is' and c.a[0].a[0] == 'undefined':
        t = c.a[1] if c.op == 'is' else c.a[0].a[1]
        b, q = fieldpath(t)
        if b is s.B and q:
            return t
    return None


def presence_atoms(s, c):
    for a in atoms(c):
        if a.op == 'is' and a.a[0] in ('Some', 'undefined'):
            b, q = fieldpath(a.a[1])
            if b is s.B and q:
                yield a.a[1]


def is_present(s, t, yes):
    def f(x):
        if x.op == 'is' and x.a[1] is t:
            if x.a[0] == 'Some':
                return Bool(yes)
            if x.a[0] == 'undefined':
                return Bool(not yes)
        return None
    return f


def flag_is(t, v):
    return lambda x: Bool(v) if x is t else None


def both(*fs):
    def f(x):
        for g in fs:
            if g is not None:
                r = g(x)
                if r is not None:
                    return r
        return None
    return f


def hashes(s, proto, flow):
    pay = s.payload(HASH_REQUEST)
    names = {'protocol': Str(PROTO_HASH if proto else 'another protocol'), 'workflow': Str(FLOW_HASH if flow else 'another workflow')}

    def f(x):
        if x.op in ('field', 'index') and x.a[0] is pay:
            n = x.a[1] if x.op == 'field' else x.a[1].a[0] if x.a[1].op == 'str' else None
            return names.get(n)
        return None
    return f


def strategy(names):
    """facts: the configured strategy is not one of names"""
    def f(x):
        if x.op == 'is' and x.a[0].split('::')[-1] in names:
            return FALSE
        if x.op == '==':
            for y in x.a:
                if y.op == 'sym' and re.split(r'[.:]+', y.a[0])[-1] in names or y.op == 'field' and y.a[1] in names and y.a[0].op == 'sym':
                    return FALSE
        return None
    return f


def initial(s, path):
    """the value a new consumer has under a path of fields, or None"""
    if s.lang == 'rs':
        for e in s.I.events:
            if e.kind == 'call' and e.name == 'insert' and len(e.args) == 2 and same_map(e.recv, s.consumers):
                v = e.args[1]
                for n in path:
                    v = dict(v.a[1]).get(n) if v is not None and v.op == 'slit' else None
                return v
        return None
    for e in all_events(s):
        if e.kind == 'call' and e.name == 'set' and len(e.args) == 2 and same_map(e.recv, s.consumers):
            v = e.args[1]
            for i, n in enumerate(path):
                if v is None or v.op != 'new':
                    return None
                v = ts_initial(s, v, n)
            return v
    return None


def ts_initial(s, v, n):
    f = ts_fields(s, v)
    if n in f:
        return f[n]
    it = s.p.prog.items.get(v.a[0])
    for x in (it[0].get('fields') or []) if it else []:
        if x['n'] == n:
            if not x.get('init'):
                return UNDEF
            from ..interp import Interp, St
            I = Interp(s.p.prog)
            try:
                return I.eval(x['init'], St())
            except Exception:
                return None
    return None


def handshake(ctx, L):
    s = side(L)
    ctx.derived(s.p)
    N = LNAME[L]
    ev = all_events(s)
    sinks = []
    for n in sorted(set(s.requests) | set(s.beacons)):
        w = s.world(n)
        for e, t in s.handlers(set(s.requests) | set(s.beacons)):
            if alive(w, e):
                sinks.append((n, e, w))
    ctx.count('ways from a received message to user code (%s)' % N, len(sinks))
    ctx.floor('ways from a received message to user code', len(sinks), 1)
    sets = [e for e in ev if e.kind == 'set']
    ctx.count('assignments followed (%s)' % N, len(sets))
    messages = sorted(set(s.requests) | set(s.beacons) | {s.key, HASH_REQUEST})

    # -- which state of the consumer stands for accepted hashes
    flags, why = {}, {}
    cand = {}
    for n, e, w in sinks:
        for c in conj(w.pc(e)):
            b, q = fieldpath(c)
            if c.op == 'field' and b is s.B:
                cand.setdefault(c, q)
    for c, q in cand.items():
        mine = [e for e in sets if e.name.split('.')[-1] == q[-1]]
        r = None
        ok = False
        for p, f in ((1, 1), (0, 1), (1, 0), (0, 0)):
            w = s.world(HASH_REQUEST, hashes(s, p, f))
            on = [e for e in mine if alive(w, e) and s.sees_message(And(*e.pc)) and w.of(norm(e.args[0])) is not FALSE]
            if p and f:
                ok = bool(on)
            elif on:
                r = ('mismatch', 'is set although the %s hash of the consumer is another one' % ('protocol' if not p else 'workflow'), on[0].where())
        if not ok:
            continue        # not about hashes
        for m in messages:
            if m != HASH_REQUEST:
                w = s.world(m)
                on = [e for e in mine if alive(w, e) and s.sees_message(And(*e.pc)) and w.of(norm(e.args[0])) is not FALSE]
                if on:
                    r = ('other', 'is set by a received %s' % m, on[0].where())
        v = initial(s, q)
        if v is None:
            ctx.undecided('hash-initial', '%s: first value of %s' % (L, '.'.join(q)))
        elif v is not FALSE:
            r = ('initial', 'is set for a new consumer', None)
        flags[c] = r
        if r is None:
            ctx.ok('hash-flag', '%s:%s' % (L, '.'.join(q)))
        else:
            why[c] = r
    sound = [c for c in flags if flags[c] is None]
    for c, r in why.items():
        if not sound:
            ctx.bad('hash-flag', '%s:%s' % (L, r[0]), '%s producer: %s, which stands for accepted hashes, %s' % (N, '.'.join(fieldpath(c)[1]), r[1]), r[2])
    if not flags:
        ctx.bad('hash-flag', L, '%s producer: no state of a consumer that user code depends on is set when its hashes are the expected ones' % N)
    for n, e, w in sinks:
        ctx.check(any(c in conj(w.pc(e)) for c in flags), 'hash-required', '%s:%s' % (L, n), '%s producer: %s reaches user code of a consumer whose hashes were not accepted' % (N, n), e.where())

    # -- answer to the hashes
    senders = s.senders()
    for p, f in ((1, 1), (0, 1), (1, 0), (0, 0)):
        w = s.world(HASH_REQUEST, both(fulfilled, hashes(s, p, f)))
        label = '%s:%s' % (L, {(1, 1): 'match', (0, 1): 'protocol', (1, 0): 'workflow', (0, 0): 'both'}[p, f])
        ans = [(x, struct_named(x[1])[1]) for x in message_sends(s, w, s.I.events) if struct_named(x[1])[0] == 'InternalServiceGroup.HashResponse']
        if not ctx.check(len(ans) == 1, 'hash-answer', label, '%s producer: the hashes of a consumer (%s) are answered %d times instead of once' % (N, label.split(':')[1], len(ans)), ans[0][0][0].where() if ans else None):
            continue
        (se, X, seq, sig, u), fs = ans[0]
        err = fs.get('error')
        if err is None or not (absent(err) or present(err)):
            ctx.undecided('hash-answer', '%s: error of the answer: %s' % (label, show(err)[:100] if err is not None else '-'))
        else:
            ctx.check(absent(err) == bool(p and f), 'hash-error', label, '%s producer: a consumer whose hashes are %s is answered %s an error' % (N, 'the expected ones' if p and f else 'others (%s)' % label.split(':')[1], 'without' if absent(err) else 'with'), se.where())
        ctx.check(seq is s.hdr_sequence(), 'hash-sequence', label, '%s producer: the answer to the hashes carries the sequence %s' % (N, show(seq) if seq is not None else '?'), se.where())
        ctx.check(u in senders, 'hash-addressee', label, '%s producer: the answer to the hashes is sent to %s' % (N, show(u)[:100]), se.where())
        odd = [c for c in conj(w.pc(se)) if in_condition(s, c)]
        ctx.check(not odd, 'hash-always', label, '%s producer: the hashes are answered only if %s' % (N, show(And(*odd))[:160] if odd else ''), se.where())

    # -- the key
    off = both(*[flag_is(c, False) for c in flags])
    on = both(*[flag_is(c, True) for c in flags])
    keys, bad = [], {}
    for n, e, w in sinks:
        for c in conj(w.pc(e)):
            t = presence(s, c)
            if t is not None and t not in keys:
                keys.append(t)
    good = []
    for t in keys:
        q = fieldpath(t)[1]
        mine = [e for e in sets if e.name.split('.')[-1] == q[-1] and gives(e)]
        w = s.world(s.key, off)
        got = [e for e in mine if alive(w, e) and s.sees_message(w.of(norm(e.args[0])))]
        if not got:
            continue
        r = None
        late = s.world(s.key, on)
        x = [e for e in mine if alive(late, e) and s.sees_message(And(*e.pc))]
        if x:
            r = ('late', 'is accepted although the hashes were accepted before', x[0].where())
        for m in messages:
            if m != s.key:
                wm = s.world(m)
                x = [e for e in mine if alive(wm, e) and s.sees_message(And(*e.pc))]
                if x:
                    r = ('other', 'is set by a received %s' % m, x[0].where())
        for e in got:
            a = w.of(norm(e.args[0]))
            whole = strip(a)
            pay = w.payload()
            if whole is not pay and not any(y is pay for y in subterms(whole)):
                r = ('value', 'is set to %s' % show(whole)[:80], e.where())
        v = initial(s, q)
        if v is not None and not absent(v):
            r = ('initial', 'is set for a new consumer', None)
        good.append(t)
        ctx.check(r is None, 'key', '%s:%s' % (L, r[0] if r else 'guarded'), '%s producer: the key of a consumer %s' % (N, r[1] if r else ''), r[2] if r else None)
        ans = [x for x in message_sends(s, s.world(s.key, both(fulfilled, off)), s.I.events) if struct_named(x[1])[0] == 'InternalServiceGroup.SelfKeyResponse']
        if ctx.check(len(ans) == 1, 'key-answer', L, '%s producer: the key of a consumer is answered %d times instead of once' % (N, len(ans)), ans[0][0].where() if ans else None):
            se, X, seq, sig, u = ans[0]
            ctx.check(seq is s.hdr_sequence(), 'key-sequence', L, '%s producer: the answer to the key carries the sequence %s' % (N, show(seq) if seq is not None else '?'), se.where())
            ctx.check(u in senders, 'key-addressee', L, '%s producer: the answer to the key is sent to %s' % (N, show(u)[:100]), se.where())
    for n, e, w in sinks:
        ctx.check(any(presence(s, c) in good for c in conj(w.pc(e))), 'key-required', '%s:%s' % (L, n), '%s producer: %s reaches user code of a consumer that did not present its key' % (N, n), e.where())

    # -- the assigned key
    for n, e, w in sinks:
        pc = w.pc(e)
        found = []
        for t in {t for c in conj(pc) for t in presence_atoms(s, c)}:
            if t in good:
                continue
            w2 = s.world(n, both(is_present(s, t, False), strategy(STRATEGY_LETS_THROUGH)))
            if w2.pc(e) is FALSE:
                found.append(t)
        ctx.check(bool(found), 'assigned', '%s:%s' % (L, n), '%s producer: %s reaches user code of a consumer without an assigned key although the strategy does not let it through' % (N, n), e.where())
        for t in found:
            q = fieldpath(t)[1]
            mine = [x for x in sets if x.name.split('.')[-1] == q[-1] and gives(x) and s.sees_message(And(*x.pc, x.args[0]))]
            ctx.check(not mine, 'assigned-by', '%s:%s' % (L, '.'.join(q)), '%s producer: the assigned key is set by a received message' % N, mine[0].where() if mine else None)
            v = initial(s, q)
            if v is not None:
                ctx.check(absent(v), 'assigned-initial', '%s:%s' % (L, '.'.join(q)), '%s producer: a new consumer has an assigned key' % N)


def H01(ctx):
    handshake(ctx, 'rs')


def H02(ctx):
    handshake(ctx, 'ts')


# ---------------------------------------------------------------- L01
def L01(ctx):
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        N = LNAME[L]
        ev = s.disconnected_events()
        users = [e for e in ev if e.kind == 'call' and getattr(e.extra, 'file', None) in s.p.user and 'disconnected' in e.extra.file.rsplit('/', 1)[-1]]
        ctx.count('disconnected events raised (%s)' % N, len(users))
        if not ctx.check(len(users) == 1, 'reported', L, '%s producer: the disconnected event is raised at %d places instead of one' % (N, len(users)), users[0].where() if users else None):
            continue
        u = users[0]
        rem = [e for e in ev if e.kind == 'call' and e.name in ('remove', 'delete') and e.recv is not None and same_map(e.recv, s.consumers)]
        ctx.count('removals of consumers (%s)' % N, len(rem))
        gone = None
        for e in rem:
            if len(e.args) == 1:
                gone = gone or strip(norm(e.args[0]))
        who = lost(s, u)
        mine = [e for e in rem if e.seq < u.seq and set(map(id, e.pc)) <= set(map(id, u.pc)) and (who is None or strip(norm(e.args[0])) is who) and len(e.loops) == len(u.loops)]
        if who is None:
            ctx.undecided('removed', '%s: which connection is lost' % L)
        ctx.check(bool(mine), 'removed', L, '%s producer: the disconnected event is raised without the state of that consumer having been removed' % N, u.where())
        # only for a consumer that was there
        known = [c for c in u.pc if any(same_map_lookup(s, x, who) for x in subterms(norm(c)))]
        ctx.check(bool(known), 'once', L, '%s producer: the disconnected event is raised for a connection that is not known (or no longer known)' % N, u.where())
        # it is raised whenever a known connection is lost
        for e in rem:
            if who is not None and strip(norm(e.args[0])) is who:
                extra = [c for c in u.pc if c not in e.pc and c not in known]
                ctx.check(not extra, 'always', L, '%s producer: the disconnected event is raised only if %s' % (N, show(And(*extra))[:160] if extra else ''), u.where())
                more = [c for c in conj(And(*[norm(c) for c in e.pc])) if any(x.op in ('lv', 'field', 'sym') and same_map(x, s.consumers) for x in subterms(c)) and not presence_of(s, c, who)]
                ctx.check(not more, 'kept', L, '%s producer: the state of a consumer that is gone is removed only if %s' % (N, show(And(*more))[-160:] if more else ''), e.where())
        # consumers come into being only when they connect
        ins = [e for e in s.I.events if e.kind == 'call' and e.name in ('insert', 'set') and len(e.args) == 2 and same_map(e.recv, s.consumers)]
        for n in sorted(set(s.requests) | set(s.beacons) | {s.key, HASH_REQUEST}):
            w = s.world(n)
            x = [e for e in ins if alive(w, e) and s.sees_message(And(*e.pc))]
            ctx.check(not x, 'revived', '%s:%s' % (L, n), '%s producer: a received %s makes a consumer that was removed exist again' % (N, n), x[0].where() if x else None)
        # what reaches user code is looked up in the same state
        for n in sorted(set(s.requests) | set(s.beacons)):
            w = s.world(n)
            for e, t in s.handlers({n}):
                if alive(w, e):
                    c = [c for c in conj(w.pc(e)) if any(same_map_lookup(s, x, s.sender) for x in subterms(c))]
                    ctx.check(bool(c), 'looked-up', '%s:%s' % (L, n), '%s producer: %s of a consumer that was removed reaches user code' % (N, n), e.where())
                    # the filter that user code addresses broadcasts with
                    ctx.check(any(any(same_map(y, s.consumers) for y in subterms(a) if y.op in ('lv', 'field', 'sym')) for a in e.args[1:]), 'filter', '%s:%s' % (L, n), '%s producer: the filter given with %s does not show the connected consumers' % (N, n), e.where())
        # the filter given with the event no longer contains the consumer
        fl = [y for a in u.args for y in subterms(a) if y.op in ('slit', 'new') and y.a[0].split('::')[-1] == 'Filter']
        for y in fl:
            seen = [x for x in subterms(y) if same_map(x, s.consumers) and x.op in ('lv', 'field')]
            if L == 'ts':
                d = [x for x in subterms(y) if x.op == 'del']
                ctx.check(bool(d), 'filter-after', L, '%s producer: the filter given with the disconnected event still contains the consumer' % N, u.where())
            break


def presence_of(s, c, who):
    """a condition that only says whether the connection is known"""
    while c.op == 'not':
        c = c.a[0]
    if c.op == 'is':
        return same_map_lookup(s, c.a[1], who)
    if c.op == '==':
        return any(same_map_lookup(s, x, who) for x in c.a)
    return c.op == 'mcall' and c.a[1] in ('contains_key', 'has') and same_map(c.a[0], s.consumers) and strip(norm(c.a[2])) is who


def same_map_lookup(s, x, who):
    if x.op == 'mcall' and x.a[1] in ('get', 'get_mut', 'remove', 'has', 'contains_key', 'delete') and len(x.a) == 3 and same_map(x.a[0], s.consumers):
        return who is None or strip(norm(x.a[2])) is who
    return False


def lost(s, u):
    """the connection the event is about: the key under which the state handed to user code was found"""
    for a in u.args:
        for x in subterms(norm(a)):
            if x.op == 'mcall' and x.a[1] in ('get', 'remove') and len(x.a) == 3 and same_map(x.a[0], s.consumers):
                return strip(norm(x.a[2]))
    return None


# ---------------------------------------------------------------- R02
def root_call(X, e):
    """the value user code returned, under the projections of a term"""
    t = X
    while True:
        if same_call(t, e):
            return True
        if t.op == 'proj':
            t = t.a[2]
        elif t.op == 'field' or t.op == 'index':
            t = t.a[0]
        elif t.op in ('resolved', 'awaited', 'elem') and t.a and isinstance(t.a[-1], T):
            t = t.a[-1]
        else:
            return False


def interrupted(s, I, w, e, base):
    """ways to leave a loop over addressees before its end"""
    for l in e.loops[len(base.loops):]:
        li = I.loopinfo.get(l[3])
        if li is None:
            continue
        for c in list(li['brk']) + [And(*r[0]) for r in li['rets']]:
            x = w.of(norm(c))
            if x is not FALSE and not contradicts(x, w.pc(base)):
                return x
    return None


def contradicts(x, pc):
    have = set(conj(pc))
    return any(Not(c) in have for c in conj(x))


def broadcasts_rs(ctx, s, n, e, decl, path, key, what):
    """Rust: what is sent to others when user code concluded path"""
    def lib(x):
        if x.op == 'is' and x.a[0] == 'Ok' and x.a[1].op == 'mcall' and x.a[1].a[1] in ('pack', 'send'):
            return TRUE
        return None
    f = both(lib, rs_conclusion(e, path))
    w = s.world(n, f) if n in s.requests else World('rs', s.msg, [], f)
    want = dict(decl)
    seen = {}
    for se, X, seq, sig, u in message_sends(s, w, s.I.events, e):
        if not root_call(X, e) or len(se.loops) <= len(e.loops):
            continue
        ty = type_at(s, X, e)
        if ty is None or s.type_name(ty) is None:
            ctx.undecided('broadcast', '%s: type of %s' % (key, show(X)[-80:]))
            continue
        t = s.type_name(ty)
        k = '%s:%s' % (key, t)
        if not ctx.check(t in want, 'declared', k, 'Rust producer: %s broadcasts %s, which is not declared for it' % (what, t), se.where()):
            continue
        if not ctx.check(t not in seen, 'once', k, 'Rust producer: %s broadcasts %s more than once' % (what, t), se.where()):
            continue
        seen[t] = se
        delivery_rs(ctx, s, w, e, se, X, seq, u, want[t], k, what, t)
    for t in want:
        ctx.check(t in seen, 'sent', '%s:%s' % (key, t), 'Rust producer: %s never sends the declared broadcast %s' % (what, t), e.where())
    return seen


def delivery_rs(ctx, s, w, e, se, X, seq, u, optional, k, what, t):
    C = X.a[0] if X.op == 'field' else X.a[2] if X.op == 'proj' else None
    ctx.check(seq is Int(0), 'sequence', k, 'Rust producer: the broadcast %s of %s carries the sequence %s instead of 0, as if it was an answer' % (t, what, show(seq) if seq is not None else '?'), se.where())
    lists = [l for l in loop_lists(w, se)[len(e.loops):] if l is not None]
    L = u.a[-1] if u.op == 'elem' else None
    own = L is not None and L.op == 'field' and C is not None and L.a[0] is C and L is not X
    ctx.check(own and len(lists) == 1, 'addressees', k, 'Rust producer: the broadcast %s of %s is sent to %s instead of each of the addressees given with it' % (t, what, show(u)[-80:]), se.where())
    br = interrupted(s, s.I, w, se, e)
    ctx.check(br is None, 'every-addressee', k, 'Rust producer: sending the broadcast %s of %s can stop before every addressee got it: %s' % (t, what, show(br)[-120:] if br is not None else ''), se.where())
    ex = [c for c in extra_conditions(w, se, e) if not not_empty(c, lists)]
    is_opt = C is not None and C.op == 'proj' and C.a[0] == 'Some'
    rest = [c for c in ex if not (is_opt and c.op == 'is' and c.a[0] == 'Some' and c.a[1] is C.a[2])]
    rest = [c for c in rest if not optional_only(s, c, e)]
    ctx.check(not rest, 'always', k, 'Rust producer: the broadcast %s of %s is sent only if %s' % (t, what, show(And(*rest))[-160:] if rest else ''), se.where())
    ctx.check(is_opt == bool(optional), 'optional', k, 'Rust producer: the broadcast %s of %s is declared %s but treated as %s' % (t, what, 'optional' if optional else 'required', 'optional' if is_opt else 'required'), se.where())


def event_name(s, e):
    """the workflow event a user function belongs to"""
    n = s.first_param(e.extra)
    known = {x.reference.a[0]: x for x in s.p.model.events}
    if n in known:
        return n
    f = e.extra.file.rsplit('/', 1)[-1].rsplit('.', 1)[0]
    return f if f in known and f in ('connected', 'disconnected') else None


def event_sinks(s):
    """event -> (calls of its user function, interpretation, events)"""
    out = {x.reference.a[0]: [] for x in s.p.model.events}
    runs = [(s.I, s.I.events)]
    if s.lang == 'ts':
        runs = [(s.setup[1], s.setup[1].events)]
        for n in ('connected', 'disconnected'):
            if n in s.entries:
                I = worlds.run(s.p, s.entries[n])
                runs.append((I, I.events))
    for I, ev in runs:
        for e in ev:
            if e.kind == 'call' and getattr(e.extra, 'file', None) in s.p.user and '/events/' in e.extra.file:
                n = event_name(s, e)
                if n:
                    out[n].append((e, I))
    return out


def R02(ctx):
    for L in ('rs', 'ts'):
        declared_once(ctx, side(L).p, LNAME[L] + ' producer')
    s = side('rs')
    ctx.derived(s.p)
    n_b = 0
    for n in sorted(s.requests):
        r = s.requests[n]
        es = [e for e, t in s.handlers({n}) if alive(s.world(n), e)]
        if len(es) != 1 or es[0].val is None:
            ctx.undecided('broadcast', 'rs:%s: the call of its user function' % n)
            continue
        e = es[0]
        t = s.I.typeof(e.val)
        for label, resp, act in conclusions(s, r):
            f = case(s, e, r, label, resp, act)
            decl = declared(act) if act is not None else []
            n_b += len(decl)
            ok = t.args[0] if t.name == 'Result' and t.args else None
            multi = ok is not None and s.p.prog.items.get(ok.name, ({},))[0].get('k') == 'enum'
            path = ('Err',) if act is None else ('Ok', label) if multi else ('Ok',)
            broadcasts_rs(ctx, s, n, e, decl, path, 'rs:%s:%s' % (n, label), '%s concluded with %s' % (n, label))
    for n, calls in sorted(event_sinks(s).items()):
        ev = [x for x in s.p.model.events if x.reference.a[0] == n][0]
        key = 'rs:%s' % n
        decl = [(b.reference, b.optional) for b in ev.broadcasts]
        n_b += len(decl)
        if not ctx.check(len(calls) == 1, 'event', key, 'Rust producer: the event %s reaches its user function at %d places instead of one' % (n, len(calls)), calls[0][0].where() if calls else None):
            continue
        e = calls[0][0]
        if n not in ('connected', 'disconnected'):
            triggered_rs(ctx, s, n, e, key)
        broadcasts_rs(ctx, s, None, e, decl, ('Ok',), key, 'the event %s' % n)
    ctx.count('declared broadcasts (Rust)', n_b)
    ctx.floor('declared broadcasts (Rust)', n_b, 10)

    s = side('ts')
    ctx.derived(s.p)
    n_b = 0
    for n in sorted(s.requests):
        r = s.requests[n]
        es = [e for e, t in s.handlers({n}) if alive(s.world(n), e)]
        if len(es) != 1 or es[0].val is None:
            ctx.undecided('broadcast', 'ts:%s: the call of its user function' % n)
            continue
        e = es[0]
        cls, kept, union = response_class(s, e)
        api = ts_api(ctx, s, cls)
        for label, resp, act in conclusions(s, r):
            decl = declared(act) if act is not None else []
            n_b += len(decl)
            broadcasts_ts(ctx, s, s.I, n, e, cls, api, decl, resp, 'ts:%s:%s' % (n, label), '%s concluded with %s' % (n, label))
    for n, calls in sorted(event_sinks(s).items()):
        ev = [x for x in s.p.model.events if x.reference.a[0] == n][0]
        key = 'ts:%s' % n
        decl = [(b.reference, b.optional) for b in ev.broadcasts]
        n_b += len(decl)
        if not ctx.check(len(calls) == 1, 'event', key, 'TypeScript producer: the event %s reaches its user function at %d places instead of one' % (n, len(calls)), calls[0][0].where() if calls else None):
            continue
        e, I = calls[0]
        t = I.typeof(e.val)
        while t.name == 'Promise' and t.args:
            t = t.args[0]
        broadcasts_ts(ctx, s, I, None, e, t, ts_api(ctx, s, t), decl, None, key, 'the event %s' % n)
    ctx.count('declared broadcasts (TypeScript)', n_b)
    ctx.floor('declared broadcasts (TypeScript)', n_b, 10)


def triggered_rs(ctx, s, n, e, key):
    """the user function of an event gets what the owner of the producer raised"""
    a = strip(norm(e.args[0]))
    if a.op != 'proj':
        ctx.undecided('raised', '%s: origin of %s' % (key, show(a)[:80]))
        return
    var, src = a.a[0].split('::')[-1], a.a[2]
    # the methods that raise it
    raised = []
    for fn in s.p.prog.all_fns:
        if fn.file in s.p.user or not fn.owner or s.first_param(fn) != n:
            continue
        I = worlds.run(s.p, fn)
        for x in I.events:
            if x.kind == 'call' and x.name == 'send' and len(x.args) == 1:
                v = x.args[0]
                raised.append((fn, x, v))
    if not ctx.check(bool(raised), 'raised', key, 'Rust producer: nothing raises the event %s' % n, e.where()):
        return
    for fn, x, v in raised[:1] if len({f.node.get('l') for f, _, _ in raised}) == 1 else raised:
        ok = v.op == 'ctor' and v.a[0].split('::')[-1] == var and len(v.a) == 2 and v.a[1].op == 'sym'
        ctx.check(ok, 'raised', key, 'Rust producer: raising %s delivers %s, its user function waits for %s' % (n, show(v)[:60], var), x.where())
        ctx.check(not x.pc, 'raised-always', key, 'Rust producer: raising %s does so only if %s' % (n, show(And(*x.pc))[:120]), x.where())
    # nothing else is asked of it
    odd = [c for c in e.pc for y in atoms(norm(c)) if y.op == 'is' and y.a[1] is src and y.a[0].split('::')[-1] != var and c is y]
    ctx.check(not odd, 'raised', key + ':other', 'Rust producer: the user function of %s runs for another event' % n, e.where())


def ts_api(ctx, s, cls):
    """how user code supplies broadcasts: [(structure, events of the call, given message, given addressees)]"""
    out = []
    it = s.p.prog.items.get(cls.name)
    if it is None:
        return None
    from ..interp import Interp
    for fn in sorted({(f.node.get('l'), f.name): f for f in s.p.prog.all_fns if f.owner == cls.name}.items(), key=lambda x: x[0]):
        fn = fn[1]
        if fn.name == 'constructor':
            continue
        I = Interp(s.p.prog)
        I.keep_dead = True
        v, st = I.run_fn(fn)
        if v is None or v.op != 'slit' or not any(x.op == 'closure' for _, x in v.a[1]):
            continue
        ps = [mk('sym', (p.get('pat') or p).get('n')) for p in fn.node.get('params') or [] if not p.get('self')]
        for n, cl in v.a[1]:
            if cl.op != 'closure':
                continue
            k = len(I.events)
            st2 = st.fork()
            st2.dead = False
            given = mk('sym', 'the given message')
            c = I.closures[cl.a[0]]
            I.apply(cl, [given], st2, fn.node)
            node = c[1]
            ty = None
            if c[0] == 'cl' and node.get('params'):
                ty = node['params'][0].get('ty')
            t = s.type_name(s.p.prog.parse_type(ty, fn.mod)) if ty else None
            out.append((n, t, I.events[k:], given, ps, fn))
    return out


def broadcasts_ts(ctx, s, I, n, e, cls, api, decl, resp, key, what):
    def facts(supplied):
        f = ts_conclusion(resp, supplied)
        return s.world(n, f) if n else World('ts', s.msg, [], lambda x: TRUE if x.op == 'is' and x.a[0] == 'Ok' else (FALSE if x.op == 'is' and x.a[0] == 'undefined' and x.a[1].op in ('elem', 'resolved') else f(x)))
    want = dict(decl)
    required = {b for b, o in decl if not o}
    names = set(want)
    evs = I.events
    if not decl and not (api or []):
        ctx.ok('declared', key)
        return
    # what user code may supply
    fld = None
    for t in sorted(names):
        w = facts(names - {t})
        k = '%s:%s' % (key, t)
        got = []
        # of entries with one name the last one is the one user code can call
        last = {x[0]: x for x in api or []}
        for nm, ty, es, given, ps, fn in last.values():
            if ty != t:
                continue
            for x in es:
                if x.kind == 'call' and x.name == 'push' and x.args and w.pc(x) is not FALSE:
                    got.append((x, given, ps))
        if not ctx.check(len(got) == 1, 'supplied', k, 'TypeScript producer: user code cannot supply the broadcast %s of %s' % (t, what) if not got else 'TypeScript producer: the broadcast %s of %s is kept %d times' % (t, what, len(got)), e.where()):
            continue
        x, given, ps = got[0]
        a = x.args[0]
        ok = a.op == 'list' and len(a.a) == 2 and a.a[1] is given and a.a[0] in ps or a.op == 'tuple' and len(a.a) == 2 and a.a[1] is given
        ctx.check(ok, 'kept', k, 'TypeScript producer: supplying the broadcast %s keeps %s' % (t, show(a)[:80]), x.where())
        c = [y for y in conj(w.pc(x)) if y is not TRUE]
        ctx.check(not c, 'supplied-always', k, 'TypeScript producer: the broadcast %s of %s can be supplied only if %s' % (t, what, show(And(*c))[:120] if c else ''), x.where())
        fld = x.recv.a[1] if x.recv is not None and x.recv.op == 'field' else fld
    # what user code may not supply
    w = facts(set())
    for nm, ty, es, given, ps, fn in api or []:
        if ty in names:
            continue
        for x in es:
            if x.kind == 'call' and x.name == 'push' and x.args:
                ctx.check(w.pc(x) is FALSE, 'declared', '%s:%s' % (key, ty), 'TypeScript producer: %s lets %s be broadcast, which is not declared for it' % (what, ty), x.where())
    if not decl:
        return
    # all of them are sent
    sends = []
    for sup in [names, required]:
        w = facts(sup)
        mine = [x for x in message_sends(s, w, evs, e) if root_call(x[1], e) and len(x[0].loops) > len(e.loops)]
        label = 'all' if sup == names else 'required'
        if not ctx.check(len(mine) == 1, 'sent', key + ':' + label, 'TypeScript producer: the broadcasts of %s are sent at %d places instead of one%s' % (what, len(mine), '' if sup == names else ' when only the required ones are supplied'), mine[0][0].where() if mine else e.where()):
            continue
        se, X, seq, sig, u = mine[0]
        pair = X.a[0] if X.op == 'index' and X.a[1] is Int(1) else None
        L = pair.a[-1] if pair is not None and pair.op == 'elem' else None
        b, q = fieldpath(L) if L is not None else (None, [])
        ok = L is not None and root_call(b, e) and q and q[-1] == fld
        ctx.check(ok, 'whole', key + ':' + label, 'TypeScript producer: what is broadcast for %s is %s, not each of the messages user code supplied' % (what, show(X)[-80:]), se.where())
        ctx.check(seq is Int(0), 'sequence', key + ':' + label, 'TypeScript producer: the broadcasts of %s carry the sequence %s instead of 0' % (what, show(seq) if seq is not None else '?'), se.where())
        ok = u.op == 'elem' and pair is not None and u.a[-1] is mk('index', pair, Int(0))
        ctx.check(ok, 'addressees', key + ':' + label, 'TypeScript producer: the broadcasts of %s are sent to %s instead of each of the addressees given with them' % (what, show(u)[-80:]), se.where())
        ex = [c for c in extra_conditions(w, se, e) if not not_empty(c, None)]
        ctx.check(not ex, 'always', key + ':' + label, 'TypeScript producer: the broadcasts of %s are sent only if %s' % (what, show(And(*ex))[-160:] if ex else ''), se.where())
        br = interrupted(s, I, w, se, e)
        ctx.check(br is None, 'every-addressee', key + ':' + label, 'TypeScript producer: broadcasting for %s can stop before every addressee got everything: %s' % (what, show(br)[-120:] if br is not None else ''), se.where())
    # a missing one is noticed
    for t in sorted(required):
        w = facts(names - {t})
        mine = [x for x in message_sends(s, w, evs, e) if root_call(x[1], e)]
        ctx.check(not mine, 'required', '%s:%s' % (key, t), 'TypeScript producer: %s goes through although its required broadcast %s is missing' % (what, t), mine[0][0].where() if mine else None)


def declared_once(ctx, p, name):
    """generated code that declares a name twice does not compile, or loses one of them"""
    ds = p.duplicates()
    for f, scope, n, l in ds:
        ctx.bad('declared-once', '%s:%s:%s:%s' % (p.lang, f.rsplit('/out/', 1)[-1], scope, n), '%s: %s is declared twice in one scope' % (name, n), '%s:%s (%s)' % (f, l, scope or 'module'))
    ctx.count('derived files (%s)' % name, len(p.files))
    if not ds:
        ctx.ok('declared-once', p.lang)
    paths(ctx, p, name)


def paths(ctx, p, name):
    """every reference of the generated code into the protocol module denotes something the protocol has"""
    m = p.model.protocol
    groups = {}
    for g in m.groups:
        groups.setdefault(g.parent, {})[g.name] = g.id
    ents = {}
    for x in m.structs + m.enums:
        ents.setdefault(x.parent, set()).add(x.name)
    rx = re.compile(r'(?<![\w:.])(?:(?:crate|super|self)::)*protocol::((?:\w+::)*\w+)' if p.lang == 'rs' else r'(?<![\w.])Protocol\.([\w.]*\w)')

    def good(path):
        segs = re.split(r'::|\.', path)
        at = ROOT = next(iter({g.parent for g in m.groups if g.parent not in {h.id for h in m.groups}}), None)
        while segs and segs[0] in groups.get(at, {}):
            at = groups[at][segs.pop(0)]
        if not segs:
            return True
        s, es = segs[0], ents.get(at, set())
        if s in es or p.lang == 'ts' and s[:1] == 'I' and s[1:] in es:
            return True
        if s in ('AvailableMessages', 'IAvailableMessages'):
            return len(segs) == 1 or segs[1] in es or segs[1] in groups.get(at, {})
        return at == ROOT
    n = 0
    for f, t in sorted(p.trees.items()):
        for path, l in sorted(set(mentioned(t, rx, 0)), key=str):
            n += 1
            if not good(path):
                ctx.bad('declared', '%s:%s:%s' % (p.lang, f.rsplit('/out/', 1)[-1], path), '%s: %s refers to %s, which the protocol does not have' % (name, f.rsplit('/out/', 1)[-1], path), '%s:%s' % (f, l))
    ctx.count('references into the protocol (%s)' % name, n)
    ctx.floor('references into the protocol (%s)' % name, n, 20)


def mentioned(n, rx, line):
    if isinstance(n, dict):
        line = n.get('l', line)
        for k, v in n.items():
            if k != 'v' or n.get('k') != 'lit':
                yield from mentioned(v, rx, line)
    elif isinstance(n, list):
        for v in n:
            yield from mentioned(v, rx, line)
    elif isinstance(n, str):
        for x in rx.findall(n):
            yield x, line
