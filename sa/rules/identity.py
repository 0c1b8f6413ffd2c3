"""R06, K01, R07: what the generated producers offer to user code besides messages: deferred work, keys of consumers, filters."""
from .. import worlds
from ..schema import Stuck
from ..terms import *
from ..worlds import World, norm
from ..interp import Interp
from ..program import Ty
from .producer import (side, LNAME, alive, dispatch, conclusions, case, declared, message_sends, extra_conditions, optional_only, not_empty, rs_conclusion, fulfilled,
                       both, event_sinks, strip, same_call, root_call, struct_named)


# ---------------------------------------------------------------- R06
def scopes(ctx, s):
    """the records user code gets that keep work for later: class -> the field the work is kept in"""
    out = {}
    for fn in {(f.file, f.node.get('l'), f.owner): f for f in s.p.prog.all_fns if f.name == 'deferred' and f.owner and f.file not in s.p.user}.values():
        I = worlds.run(s.p, fn)
        ps = [mk('sym', (p.get('pat') or p).get('n')) for p in fn.node.get('params') or [] if not p.get('self')]
        key = '%s:%s' % (s.lang, fn.owner.split('::')[-1])
        if len(ps) != 1:
            ctx.undecided('kept', '%s: what it is given' % key)
            continue
        sets = [e for e in I.events if e.kind == 'set' and e.args and any(x is ps[0] for x in subterms(norm(e.args[0])))]
        if not ctx.check(len(sets) == 1, 'kept', key, '%s producer: work user code defers is kept at %d places of its scope instead of one' % (LNAME[s.lang], len(sets)), '%s:%s' % (fn.file, fn.node.get('l'))):
            continue
        ctx.check(not sets[0].pc, 'kept-always', key, '%s producer: work user code defers is kept only if %s' % (LNAME[s.lang], show(And(*sets[0].pc))[:120]), sets[0].where())
        out[fn.owner] = sets[0].name
    return out


def owner(t):
    """(class, base) of the scope a term is a record of"""
    t = strip(t)
    while t.op == 'mut':
        t = t.a[0]
    if t.op in ('slit', 'new'):
        return t.a[0].split('<')[0]
    return None


def given(e, classes):
    """the scope a user function is called with"""
    for a in e.args:
        o = owner(norm(a))
        if o in classes:
            return o
    return None


def slot(t, classes, e):
    """the field of a scope this value was taken from, after user code had the scope"""
    t = norm(t)
    while t.op in ('proj', 'mut') and t.op == 'proj' and t.a[0] == 'Some' or t.op == 'mcall' and t.a[1] in ('take', 'unwrap', 'as_mut', 'as_ref'):
        t = t.a[2] if t.op == 'proj' else t.a[0]
    if t.op == 'field':
        b = strip(t.a[0])
        o = owner(b)
        if o in classes and t.a[1] == classes[o]:
            # the Rust scope carries the mark of the call that could change it
            if b.op == 'mut' and e.val is not None and e.val.op == 'call' and e.extra is not None and b.a[1] != e.val.a[0]:
                return None
            return t
    return None


def runs(I, e, classes):
    """(event, slot) at which something kept in a scope is run"""
    for x in I.events:
        if x.seq <= e.seq:
            continue
        if x.kind == 'await':
            t = slot(x.args[0], classes, e)
            if t is not None:
                yield x, t
        elif x.kind == 'call':
            t = None
            if x.recv is not None and owner(norm(x.recv)) in classes and x.name == classes[owner(norm(x.recv))]:
                t = mk('field', norm(x.recv), x.name)
            elif x.recv is not None:
                t = slot(x.recv, classes, e)
            for a in x.args:
                t = t or slot(a, classes, e)
            if t is not None:
                yield x, t


def present(t, yes, lang):
    def f(x):
        if x.op == 'is' and strip(norm(x.a[1])) is strip(t):
            if x.a[0] == 'Some':
                return Bool(yes)
            if x.a[0] in ('undefined', 'None'):
                return Bool(not yes)
        if lang == 'ts' and x.op == 'is' and x.a[0] == 'undefined' and x.a[1].op == 'bool':
            # its truth was put in first
            return Bool(not yes)
        if lang == 'ts' and x is t:
            return Bool(yes)
        return None
    return f


def same_scope(t, e):
    """the scope of this slot is the one this call was given"""
    b = strip(t.a[0])
    while b.op == 'mut':
        b = b.a[0]
    return any(strip(norm(a)) is b for a in e.args)


def R06(ctx):
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        classes = scopes(ctx, s)
        ctx.floor('scopes (%s)' % L, len(classes), 1)
        n = 0
        cases = []
        good = dispatch(ctx, s, sorted(s.requests), 'request', 'reached')
        for name, e in sorted(good.items()):
            r = s.requests[name]
            for label, resp, act in conclusions(s, r):
                sup = {b for b, o in declared(act)} if act is not None else set()
                cases.append(('%s:%s:%s' % (L, name, label), '%s concluded with %s' % (name, label), s.I, e, s.world, name, case(s, e, r, label, resp, act, sup), True))
        good = dispatch(ctx, s, sorted(s.beacons), 'beacon', 'reached')
        for name, e in sorted(good.items()):
            cases.append(('%s:%s' % (L, name), 'the beacon %s' % name, s.I, e, s.world, name, rs_conclusion(e, ('Ok',)) if L == 'rs' else fulfilled, True))
        for name, calls in sorted(event_sinks(s).items()):
            if len(calls) == 1:
                e, I = calls[0]
                cases.append(('%s:%s' % (L, name), 'the event %s' % name, I, e, None, name, rs_conclusion(e, ('Ok',)) if L == 'rs' else fulfilled, False))
        for key, what, I, e, world, name, facts, must in cases:
            o = given(e, classes)
            if o is None:
                if must:
                    ctx.bad('scope', key, '%s producer: user code that handles %s gets no scope to defer work with' % (LNAME[L], what), e.where())
                continue
            n += 1

            def W(*fs):
                f = both(*(fs + (facts,)))
                if world is not None:
                    return world(name, f)
                return World(L, s.msg, [], both(f, lambda x: TRUE if x.op == 'is' and x.a[0] == 'Ok' and x.a[1].op == 'mcall' and x.a[1].a[1] in ('pack', 'send') else None))
            mine = [(x, t) for x, t in runs(I, e, classes) if same_scope(t, e)]
            got = []
            for x, t in mine:
                w = W(present(t, True, L))
                if alive(w, x) and alive(w, e):
                    got.append((x, t, w))
            if not ctx.check(len(got) == 1, 'run', key, '%s producer: what user code deferred when handling %s is run at %d places instead of one' % (LNAME[L], what, len(got)), (got[0][0] if got else e).where()):
                continue
            x, t, w = got[0]
            ctx.check(len(x.loops) == len(e.loops), 'once', key, '%s producer: what user code deferred when handling %s is run again and again' % (LNAME[L], what), x.where())
            ex = [c for c in extra_conditions(w, x, e) if not optional_only(s, c, e) and not not_empty(c, None)]
            ctx.check(not ex, 'always', key, '%s producer: what user code deferred when handling %s is run only if %s' % (LNAME[L], what, show(And(*ex))[-160:] if ex else ''), x.where())
            late = [y for y in message_sends(s, w, I.events, e) if y[0].seq > x.seq and about(s, y, e)]
            ctx.check(not late, 'after', key, '%s producer: what user code deferred when handling %s is run before everything was sent' % (LNAME[L], what), x.where())
            w0 = W(present(t, False, L))
            ctx.check(not alive(w0, x), 'nothing', key, '%s producer: handling %s runs deferred work although there is none' % (LNAME[L], what), x.where())
        ctx.count('calls of user code that may defer work (%s)' % LNAME[L], n)
        ctx.floor('calls of user code that may defer work (%s)' % L, n, 5)


def about(s, y, e):
    """a message that belongs to this call: what it returned, or the confirmation of its beacon"""
    if root_call(y[1], e) or e.val is not None and any(same_call(z, e) for z in subterms(y[1])):
        return True
    return struct_named(y[1])[0] == 'InternalServiceGroup.BeaconConfirmation' and len(y[0].loops) == len(e.loops)


# ---------------------------------------------------------------- R07
U, WHO, GIVEN = mk('sym', 'the uuid of a consumer'), mk('sym', 'what is known about a consumer'), mk('sym', 'the given uuids')
SELECT = ('all', 'except', 'exclude', 'filter')


class Odd(Exception):
    pass


def filter_class(s):
    """the class whose methods select consumers"""
    own = {}
    for f in s.p.prog.all_fns:
        if f.owner and f.file not in s.p.user and f.name in SELECT:
            own.setdefault(f.owner.split('<')[0], {})[f.name] = f
    c = [(o, m) for o, m in own.items() if set(m) == set(SELECT)]
    return c[0] if len(c) == 1 else (None, None)


def source(t):
    """(what is walked, the collection behind it): 'keys', 'values'"""
    while t.op in ('call', 'mcall') and (t.a[0] in ('Array.from',) or t.op == 'mcall' and t.a[1] in ('from', 'collect', 'cloned', 'iter', 'to_vec', 'clone')):
        t = t.a[-1] if t.op == 'call' or t.a[1] == 'from' else t.a[0]
    if t.op in ('keys', 'values'):
        return t.op, t.a[0]
    return None, t


def picks(t):
    """(collection term, level, [(condition, value)]) of a list built from what a collection holds"""
    k, m = source(t)
    if k:
        return t, None, [(TRUE, None)]
    if t.op == 'cat' and len(t.a[1]) == 1 and t.a[1][0].op == 'for':
        p = t.a[1][0]
        if p.a[3] is not FALSE:
            raise Odd('the walk may end early: %s' % show(p.a[3])[:80])
        out = []

        def go(b, c):
            if b.op == 'ite':
                go(b.a[1], And(c, b.a[0]))
                go(b.a[2], And(c, Not(b.a[0])))
            elif b.op == 'cat':
                if not b.a[1]:
                    return
                if len(b.a[1]) != 1:
                    raise Stuck('what is put into the result for one consumer')
                x = b.a[1][0]
                if x.op == 'one':
                    out.append((c, x.a[0]))
                elif x.op == 'ite':
                    go(x, c)
                else:
                    raise Stuck('what is put into the result for one consumer')
            else:
                raise Stuck('what is put into the result for one consumer')
        go(p.a[2], TRUE)
        return p.a[1], p.a[0], out
    raise Stuck('how the result is built: %s' % show(t)[:80])


def spoken(s, t, coll, names, given=None):
    """t in terms of a consumer: its uuid, what is known about it, whether it is among the given ones"""
    base = source(coll)[1]

    def f(x):
        if x.op == 'elem' and source(x.a[-1])[1] is base:
            return {'keys': U, 'values': WHO}.get(source(x.a[-1])[0], x)
        if x.op == 'field' and (x.a[0] is WHO):
            return U if x.a[1] in names else WHO
        if x.op == 'mcall' and x.a[1] in ('clone', 'to_owned', 'to_string') and x.a[0] in (U, WHO):
            return x.a[0]
        if x.op == 'is' and x.a[0] == 'Ok' and x.a[1].op == 'mcall' and x.a[1].a[1] == 'binary_search' and x.a[1].a[0].op == 'sorted' and x.a[1].a[2] is U:
            return mk('among', x.a[1].a[0].a[0], U)
        if x.op == 'is' and x.a[0] == 'undefined' and x.a[1].op == 'elem' and x.a[1].a[-1].op == 'sym':
            return FALSE
        if x.op in ('==', '<', 'is', 'mcall') and given is not None:
            z = [y for y in x.a if isinstance(y, T)]
            n = [y for y in z if y.op in ('len', 'count') and y.a[-1] is given or y.op == 'mcall' and y.a[0] is given and y.a[1] == 'len']
            if x.op == 'mcall' and x.a[0] is given and x.a[1] == 'is_empty' or x.op == '==' and n and Int(0) in z:
                return mk('none', given)
            if x.op == '<' and n and x.a[1] in n and x.a[0] is Int(0):
                return Not(mk('none', given))
            if x.op == '<' and n and x.a[0] in n and x.a[1] is Int(1):
                return mk('none', given)
            if x.op == 'mcall' and x.a[0] is given and x.a[1] in ('binary_search', 'binary_search_by', 'binary_search_by_key', 'first', 'last', 'get') or x.op == 'is' and x.a[1].op == 'placed':
                return mk('placed', Str(show(x)))
        if x.op == 'exists' and x.a[1] is not None and x.a[0] is given and x.a[2].op != '==' and any(y.op == '<' and U in y.a for y in subterms(x.a[2])):
            # what is asked depends on the order of the uuids, in a list that has none
            return mk('placed', Str(show(x)))
        if x.op == 'exists' and x.a[2].op == '==':
            a, b = x.a[2].a
            if a is U and b.op == 'elem' and b.a[-1] is x.a[0] or b is U and a.op == 'elem' and a.a[-1] is x.a[0]:
                part = x.a[0]
                while part.op == 'mcall' and part.a[1] in ('take', 'skip', 'take_while', 'skip_while', 'slice', 'step_by'):
                    part = part.a[0]
                return mk('among', x.a[0], U) if part is x.a[0] or part is not given else mk('placed', Str(show(x)))
        if x.op == 'mcall' and x.a[1] in ('includes', 'contains') and len(x.a) > 2 and x.a[2] is U:
            return mk('among', x.a[0], U)
        if x.op in ('==', '<') and any(y.op == 'mcall' and y.a[1] in ('indexOf', 'lastIndexOf', 'findIndex') and len(y.a) > 2 and y.a[2] is U for y in x.a):
            y = [z for z in x.a if z.op == 'mcall'][0]
            o = [z for z in x.a if z is not y][0]
            among = mk('among', y.a[0], U)
            if x.op == '==' and o is Int(-1):
                return Not(among)
            if x.op == '<' and (x.a[0] is y and o is Int(0)):
                return Not(among)
            if x.op == '<' and (x.a[1] is y and o is Int(-1)):
                return among
            # it depends on where it stands among them
            return mk('placed', Str(show(x)))
        return x
    return rewrite(t, f, {})


def R07(ctx):
    from ..sat import sat
    from .producer import uuid_paths
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        cls, ms = filter_class(s)
        if cls is None:
            ctx.missing('the class that selects consumers (%s)' % L)
            continue
        # under which names the uuid is kept: with the consumer, and with what is known about it
        names = set()
        for e in s.I.events if L == 'rs' else s.connected_events():
            if e.kind == 'call' and e.name in ('insert', 'set') and e.recv is not None and len(e.args) == 2 and _same(e.recv, s.consumers):
                for q in uuid_paths(s, e.args[1], strip(norm(e.args[0]))):
                    names.add(q[-1])
        if not names:
            ctx.undecided('uuid', '%s: the field a consumer keeps its uuid in' % L)
            continue
        kept = None
        if L == 'ts':
            kept = copied(ctx, s, cls)
        for n in SELECT:
            fn = ms[n]
            key = '%s:%s' % (L, n)
            I = worlds.run(s.p, fn)
            ps = [mk('sym', (p.get('pat') or p).get('n')) for p in fn.node.get('params') or [] if not p.get('self')]
            try:
                coll, lvl, got = picks(norm(I.result)) if I.result is not None else (None, None, [])
            except Odd as x:
                ctx.bad('selects', key, '%s producer: Filter.%s may leave consumers out: %s' % (LNAME[L], n, x), '%s:%s' % (fn.file, fn.node.get('l')))
                continue
            except Stuck as x:
                ctx.undecided('selects', '%s: %s' % (key, x))
                continue
            kind, m = source(coll) if coll is not None else (None, None)
            if m is None or m.op != 'field':
                ctx.undecided('selects', '%s: what is walked: %s' % (key, show(coll)[:80] if coll is not None else '-'))
                continue
            conds, vals = FALSE, []
            for c, v in got:
                conds = Or(conds, spoken(s, norm(c), coll, names, ps[0] if ps else None))
                vals.append(U if v is None and kind == 'keys' else WHO if v is None and kind else coll if v is None else spoken(s, norm(v), coll, names, ps[0] if ps else None))
            if len(got) > 1 and sat(And(*[spoken(s, norm(c), coll, names, ps[0] if ps else None) for c, v in got])) is not False:
                ctx.bad('selects', key, '%s producer: Filter.%s may give a consumer more than once' % (LNAME[L], n), '%s:%s' % (fn.file, fn.node.get('l')))
                continue
            ctx.check(bool(vals) and all(v is U for v in vals), 'gives', key, '%s producer: Filter.%s gives %s instead of the uuids of consumers' % (LNAME[L], n, ', '.join(show(v)[:60] for v in vals) or 'nothing'), '%s:%s' % (fn.file, fn.node.get('l')))
            if n == 'all':
                want = TRUE
            elif n == 'except':
                want = Not(Eq(U, ps[0]))
            elif n == 'exclude':
                want = Not(mk('among', ps[0], U))
            else:
                calls = [x for x in subterms(conds) if x.op == 'call' and WHO in x.a[1:] or x.op in ('apply', 'mcall') and WHO in x.a]
                if len(calls) != 1 or not any(y is ps[0] or y == 'cb' or isinstance(y, str) and y == ps[0].a[0] for y in calls[0].a):
                    if conds is TRUE or not any(x is WHO for x in subterms(conds)):
                        ctx.bad('selects', key, '%s producer: Filter.filter does not ask the given function about a consumer' % LNAME[L], '%s:%s' % (fn.file, fn.node.get('l')))
                    else:
                        ctx.undecided('selects', '%s: how the given function is asked: %s' % (key, show(conds)[:80]))
                    continue
                want = calls[0]
            strange = [x for x in subterms(conds) if x.op in ('mcall', 'call', 'apply', 'exists') and x is not want]
            nobody = [x for x in subterms(conds) if x.op == 'none']
            facts = And(*[Or(Not(x), Not(mk('among', ps[0], U))) for x in nobody]) if nobody else TRUE
            a, b = sat(And(facts, conds, Not(want))), sat(And(facts, Not(conds), want))
            if (a is None or b is None or strange) and not (a is False and b is False):
                ctx.undecided('selects', '%s: consumers are taken if %s' % (key, show(conds)[:120]))
                continue
            ctx.check(a is False and b is False, 'selects', key, '%s producer: Filter.%s takes a consumer if %s, it has to if %s' % (LNAME[L], n, show(conds)[:120], show(want)[:80]), '%s:%s' % (fn.file, fn.node.get('l')))
        # user code gets filters over all consumers there are
        cnt = 0
        for e, what in user_calls(s):
            fs = [x for a in e.args for x in subterms(norm(a)) if x.op in ('slit', 'new') and x.a[0].split('<')[0] == cls]
            for x in {x for x in fs}:
                src = [v for k, v in x.a[1]] if x.op == 'slit' else list(x.a[1:])
                cnt += 1
                ctx.check(any(_same(norm(v), s.consumers) for v in src), 'current', '%s:%s' % (L, what), '%s producer: the filter given to %s selects from %s, not from the connected consumers' % (LNAME[L], what, ', '.join(show(v)[:60] for v in src)), e.where())
            stale = [x for a in e.args for x in parts(norm(a)) if x.op == 'field' and s.I.typeof(x).name.split('<')[0] == cls]
            if L == 'ts' and kept:
                ctx.check(not stale, 'current', '%s:%s:kept' % (L, what), 'TypeScript producer: the filter given to %s was made earlier: it selects from the consumers of that time' % what, e.where())
        ctx.count('filters given to user code (%s)' % LNAME[L], cnt)
        ctx.floor('filters given to user code (%s)' % L, cnt, 5)


def parts(t):
    """a value and the values of the records it consists of"""
    yield t
    if t.op == 'slit':
        for k, v in t.a[1]:
            yield from parts(v)
    elif t.op == 'new':
        for v in t.a[1:]:
            yield from parts(v)


def _same(a, b):
    from .producer import same_map
    while a.op in ('ins', 'del', 'put') or a.op == 'mut':
        a = a.a[0]
    return same_map(a, b)


def user_calls(s):
    """(call of user code, what for), each call once"""
    seen = set()
    out = []
    for e in all_user(s):
        if id(e) not in seen:
            seen.add(id(e))
            out.append((e, e.extra.file.rsplit('/out/', 1)[-1].rsplit('.', 1)[0]))
    return out


def all_user(s):
    from .producer import all_events
    evs = list(all_events(s))
    for n, calls in event_sinks(s).items():
        evs += [e for e, I in calls]
    return [e for e in evs if e.kind == 'call' and getattr(e.extra, 'file', None) in s.p.user]


def copied(ctx, s, cls):
    """TypeScript: the constructor of a filter copies every consumer under its uuid; whether it copies"""
    fn = s.p.prog.method(Ty(cls), 'constructor')
    if fn is None:
        ctx.undecided('copied', 'ts: constructor of %s' % cls)
        return True
    I = worlds.run(s.p, fn)
    ps = [mk('sym', (p.get('pat') or p).get('n')) for p in fn.node.get('params') or []]
    sets = [e for e in I.events if e.kind == 'call' and e.name == 'set' and e.loops and len(e.args) == 2]
    if not sets:
        plain = [e for e in I.events if e.kind == 'set' and e.args and any(norm(e.args[0]) is p for p in ps)]
        if not plain and not any(p.get('prop') for p in fn.node.get('params') or []):
            ctx.undecided('copied', 'ts: how a filter keeps the consumers')
            return True
        return False
    if not ctx.check(len(sets) == 1, 'copied', 'ts', 'TypeScript producer: a filter takes the consumers over at %d places' % len(sets), sets[0].where()):
        return True
    e = sets[0]
    k, v = norm(e.args[0]), norm(e.args[1])
    ok = k.op == 'elem' and source(k.a[-1]) == ('keys', ps[0]) or k.op == 'field' and any(x.op == 'elem' and source(x.a[-1])[1] is ps[0] for x in subterms(k))
    ctx.check(ok and any(x.op == 'elem' and source(x.a[-1])[1] is ps[0] for x in subterms(v)), 'copied-all', 'ts', 'TypeScript producer: a filter keeps %s under %s' % (show(v)[:60], show(k)[:60]), e.where())
    ctx.check(not e.pc and len(e.loops) == 1, 'copied-always', 'ts', 'TypeScript producer: a filter takes a consumer over only if %s' % show(And(*e.pc))[:100], e.where())
    return True


# ---------------------------------------------------------------- K01
def key_methods(s):
    """(kind, method, key parameter, overwrite parameter) of what user code and the generated code store keys with"""
    out = []
    kinds = {s.key: 'key', s.assigned: 'assigned key'}
    for f in {(f.file, f.node.get('l'), f.owner): f for f in s.p.prog.all_fns if f.owner and f.file not in s.p.user and f.name not in ('new', 'constructor')}.values():
        ps = [p for p in f.node.get('params') or [] if not p.get('self')]
        if len(ps) != 2 or s.first_param(f) not in kinds:
            continue
        ty = ps[1].get('ty') or (ps[1].get('pat') or {}).get('ty')
        if s.p.prog.parse_type(ty, f.mod).name not in ('bool', 'boolean'):
            continue
        names = [mk('sym', (p.get('pat') or p).get('n')) for p in ps]
        out.append((s.first_param(f), kinds[s.first_param(f)], f, names[0], names[1]))
    return out


def alternatives(t):
    if t.op == 'ite':
        for x in t.a[1:]:
            yield from alternatives(x)
    elif t.op == 'ctor' and t.a[0] == 'Some':
        yield from alternatives(t.a[1])
    else:
        yield t


def option(s, t, yes):
    def f(x):
        if x.op == 'is' and x.a[1] is t:
            return Bool(yes) if x.a[0] == 'Some' else Bool(not yes) if x.a[0] in ('None', 'undefined') else None
        return None
    return f


def K01(ctx):
    for L in ('rs', 'ts'):
        s = side(L)
        ctx.derived(s.p)
        found = {}
        told = []
        for path, kind, fn, kp, op in sorted(key_methods(s), key=lambda x: (x[0], x[2].file, x[2].node.get('l'))):
            I = worlds.run(s.p, fn)
            env = {p[1:]: v for p, v in I.end.env.items() if p[0] == '1#self' and len(p) > 1}
            if not env:
                told.append((path, kind, fn, kp, op, I))
                continue
            whole = [p for p, v in sorted(env.items()) if any(x is kp for x in alternatives(v))]
            key = '%s:%s' % (L, kind)
            loc = '%s:%s (%s)' % (fn.file, fn.node.get('l'), fn.name)
            if not ctx.check(len(whole) == 1, 'stored', key, '%s producer: the %s given to a consumer is stored in %s instead of in one place' % (LNAME[L], kind, ', '.join('.'.join(p) for p in whole) or 'no place'), loc):
                continue
            found.setdefault(path, []).append((fn, whole[0]))
            merged(ctx, s, I, path, kind, kp, op, whole[0], key, loc)
        for path, kind in ((s.key, 'key'), (s.assigned, 'assigned key')):
            ctx.check(len({w[-1] for f, w in found.get(path, [])}) == 1, 'place', '%s:%s' % (L, kind), '%s producer: the %s of a consumer is kept in %d places' % (LNAME[L], kind, len({w[-1] for f, w in found.get(path, [])})))
        w = [found[p][0][1][-1] for p in (s.key, s.assigned) if found.get(p)]
        ctx.check(len(set(w)) == len(w), 'apart', L, '%s producer: both keys of a consumer are kept in one place' % LNAME[L])
        if L == 'rs':
            channel(ctx, s, told, found)
        else:
            readers(ctx, s, found)
        owners(ctx, s, found)


def merged(ctx, s, I, path, kind, kp, op, slot, key, loc):
    """what is stored afterwards, in every case"""
    L = s.lang
    st = I.end
    old = mk('sym', 'self')
    for n in slot:
        old = mk('field', old, n)
    slot = tuple(slot)
    strct = [x for x in s.p.model.protocol.structs if dotted(s, x) == path]
    if len(strct) != 1:
        ctx.undecided('stored', '%s: fields of %s' % (key, path))
        return
    after = I.read(st, ('1#self',) + slot)
    n = 0
    for has in (False, True):
        for over in (False, True):
            base = both(option(s, old, has), lambda x: Bool(over) if x is op else None)
            what = '%s %s, %s' % ('there was a' if has else 'there was no', kind, 'overwriting asked for' if over else 'not overwriting')
            for f in strct[0].fields:
                given = mk('field', kp, f.name)
                was = mk('field', mk('proj', 'Some', 0, old) if L == 'rs' else old, f.name)
                for there in ((True, False) if f.optional else (True,)):
                    n += 1
                    # a field that is not optional is always given
                    w = World(L, s.msg, [], both(base, option(s, given, there)))
                    if L == 'rs':
                        now = value_of(w.of(after), f.name)
                    else:
                        now = w.of(I.read(st, ('1#self',) + slot + (f.name,)))
                    keep = has and not over and not there
                    want = was if keep else given
                    k = '%s:%s:%s%s%s' % (key, f.name, 'had' if has else 'new', ':overwrite' if over else '', '' if there else ':absent')
                    if now is None:
                        ctx.undecided('stored', '%s: %s' % (k, show(w.of(after))[:100]))
                        continue
                    ok = same_value(now, want, there)
                    if not ok and any(x.op in ('call', 'mcall', 'apply', 'mut') for x in subterms(now)):
                        ctx.undecided('stored', '%s: %s' % (k, show(now)[:100]))
                        continue
                    ctx.check(ok, 'stored-field', k, '%s producer: storing a %s (%s; field %s %s) leaves %s in this field instead of %s' % (
                        LNAME[L], kind, what, f.name, 'given' if there else 'not given', show(now)[:60], 'what was there' if keep else 'what was given'), loc)
    ctx.count('cases of stored keys (%s)' % LNAME[L], n)


def value_of(t, name):
    """field of the record inside of a present optional value"""
    if t.op != 'ctor' or t.a[0] != 'Some':
        return None
    return field_of(t.a[1], name)


def field_of(v, name):
    if v.op == 'ite':
        a, b = field_of(v.a[1], name), field_of(v.a[2], name)
        return None if a is None or b is None else a if a is b else mk('ite', v.a[0], a, b)
    if v.op == 'upd':
        d = dict(v.a[1])
        return d[name] if name in d else field_of(v.a[0], name)
    if v.op == 'slit':
        d = dict(v.a[1])
        return d.get(name)
    if v.op in ('sym', 'proj', 'field'):
        return mk('field', v, name)
    return None


def same_value(now, want, there):
    if now is want:
        return True
    # Some(x.unwrap()) of a value that is there
    if there and now.op == 'ctor' and now.a[0] == 'Some' and now.a[1].op == 'proj' and now.a[1].a[0] == 'Some' and now.a[1].a[2] is want:
        return True
    return not there and absent_value(now) and want.op == 'field' and want.a[0].op == 'sym'


def absent_value(t):
    return t.op == 'ctor' and t.a[0] in ('None', 'undefined')


def dotted(s, x):
    groups = {g.id: g for g in s.p.model.protocol.groups}
    q, at = [x.name], x.parent
    while at in groups:
        q.append(groups[at].name)
        at = groups[at].parent
    return '.'.join(reversed(q))


def readers(ctx, s, found):
    """TypeScript: what is asked for is what was stored"""
    for path, kind in ((s.key, 'key'), (s.assigned, 'assigned key')):
        for fn, slot in found.get(path, [])[:1]:
            n = 0
            for g in {(g.file, g.node.get('l')): g for g in s.p.prog.all_fns if g.owner == fn.owner and not (g.node.get('params') or [])}.values():
                ty = g.node.get('ret') or ''
                if not isinstance(ty, str) or path not in [x.strip()[len('Protocol.'):] for x in ty.split('|') if x.strip().startswith('Protocol.')]:
                    continue
                n += 1
                I = worlds.run(s.p, g)
                ctx.check(I.result is mk('field', mk('sym', 'self'), slot[-1]), 'read', 'ts:%s:%s' % (kind, g.name), 'TypeScript producer: asking for the %s of a consumer gives %s' % (kind, show(I.result)[:80] if I.result is not None else 'nothing'), '%s:%s' % (g.file, g.node.get('l')))
            ctx.check(n > 0, 'read', 'ts:%s' % kind, 'TypeScript producer: there is no way to ask for the %s of a consumer' % kind)


def channel(ctx, s, told, found):
    """Rust: user code asks the owner of the consumers to store a key; it does so for the consumer that was meant"""
    targets = {f.node.get('l'): (p, f) for p, l in found.items() for f, slot in l}
    fns = [f for p, l in found.items() for f, slot in l]
    I = Interp(s.p.prog, opaque=lambda f: f.file in s.p.user or any(f is g or (f.file, f.node.get('l'), f.name) == (g.file, g.node.get('l'), g.name) for g in fns))
    I.keep_dead = True
    I.run_fn(s.received)
    stores = [e for e in I.events if e.kind == 'call' and e.extra is not None and any((getattr(e.extra, 'file', None), getattr(e.extra, 'node', {}).get('l')) == (g.file, g.node.get('l')) for g in fns)]
    if not ctx.check(bool(stores), 'told', 'rs', 'Rust producer: nothing stores the keys user code gives to consumers'):
        return
    for path, kind, fn, kp, op, J in told:
        key = 'rs:%s' % kind
        loc = '%s:%s (%s)' % (fn.file, fn.node.get('l'), fn.name)
        sends = [e for e in J.events if e.kind == 'call' and e.name == 'send' and len(e.args) == 1]
        if not ctx.check(len(sends) == 1 and not sends[0].pc, 'told', key, 'Rust producer: giving a %s to a consumer asks for it %d times' % (kind, len(sends)) if len(sends) != 1 else 'Rust producer: giving a %s to a consumer does nothing unless %s' % (kind, show(And(*sends[0].pc))[:100]), loc):
            continue
        v = norm(sends[0].args[0])
        if v.op != 'ctor' or len(v.a) < 4:
            ctx.undecided('told', '%s: what is asked for: %s' % (key, show(v)[:80]))
            continue
        var, vals = v.a[0].split('::')[-1], v.a[1:]
        at = {}
        for i, x in enumerate(vals):
            if x is kp:
                at['key'] = i
            elif x is op:
                at['overwrite'] = i
            elif x.op == 'field' and show(x.a[0]) == 'self':
                at['uuid'] = i
        if not ctx.check(set(at) == {'key', 'overwrite', 'uuid'}, 'told-what', key, 'Rust producer: giving a %s to a consumer asks for %s: the consumer, the key and whether to overwrite are not all told' % (kind, show(v)[:80]), loc):
            continue
        good = [g for g, slot in found.get(path, [])]
        mine = []
        for e in stores:
            a = [norm(x) for x in e.args]
            src = [x for y in a for x in subterms(y) if x.op == 'proj' and x.a[0].split('::')[-1] == var]
            if src:
                mine.append((e, a, src[0].a[2]))
        mine = [m for m in mine if any((m[0].extra.file, m[0].extra.node.get('l')) == (g.file, g.node.get('l')) for g in good)] if mine else mine
        if not ctx.check(len(mine) == 1, 'done', key, 'Rust producer: a %s user code gives to a consumer is stored at %d places of the loop instead of one' % (kind, len(mine)), loc):
            continue
        e, a, X = mine[0]
        P = lambda i: [x for x in {y for z in list(a) + list(e.pc) + ([e.recv] if e.recv is not None else []) for y in subterms(norm(z))} if x.op == 'proj' and x.a[2] is X and x.a[0].split('::')[-1] == var and x.a[1] == i]
        args = a[-2:]
        ctx.check(strip(args[0]) in P(at['key']) and strip(args[1]) in P(at['overwrite']), 'done-what', key, 'Rust producer: for a %s user code gives to a consumer, %s is stored' % (kind, ', '.join(show(x)[-60:] for x in args)), e.where())
        r = norm(e.recv) if e.recv is not None else a[0]
        look = [x for x in subterms(r) if x.op == 'mcall' and x.a[1] == 'get' and _same(x.a[0], s.consumers)]
        ctx.check(bool(look) and all(strip(x.a[2]) in P(at['uuid']) for x in look), 'done-whose', key, 'Rust producer: a %s user code gives to a consumer is stored with %s' % (kind, show(r)[-100:]), e.where())
        u = P(at['uuid'])
        extra = []
        for c in e.pc:
            for x in ([c] if norm(c).op != 'and' else norm(c).a):
                x = norm(x)
                if x.op == 'is' and x.a[0].split('::')[-1] in (var, 'Some', 'Ok'):
                    continue
                extra.append(x)
        own = [x for x in extra if any(y in subterms(x) for y in u) or any(y is X for y in subterms(x))]
        own = [x for x in own if not (x.op == 'not' and x.a[0].op == 'is' and x.a[0].a[1] is X)]
        ctx.check(not own, 'done-always', key, 'Rust producer: a %s user code gives to a consumer is stored only if %s' % (kind, show(And(*own))[:140] if own else ''), e.where())
    have = {p for p, *_ in told}
    for path, kind in ((s.key, 'key'), (s.assigned, 'assigned key')):
        ctx.check(path in have, 'told', 'rs:%s:way' % kind, 'Rust producer: user code has no way to give a %s to a consumer' % kind)


def owners(ctx, s, found):
    """user code that handles a message of a consumer gets what is known about that consumer"""
    cls = {f.owner.split('<')[0] for l in found.values() for f, slot in l}
    n = 0
    for e, name in s.handlers(set(s.requests) | set(s.beacons)):
        got = [x for a in e.args for x in parts(norm(a)) if x.op in ('slit', 'new') and x.a[0].split('<')[0] in cls or x.op in ('field', 'mcall', 'proj') and s.I.typeof(strip(x)).name.split('<')[0] in cls]
        key = '%s:%s' % (s.lang, name)
        if not got:
            ctx.undecided('whose', '%s: what user code gets to know about the consumer' % key)
            continue
        for x in got:
            n += 1
            ctx.check(any(y is s.B for y in subterms(norm(x))), 'whose', key, '%s producer: user code that handles %s gets what is known about %s, not about the consumer that sent it' % (LNAME[s.lang], name, show(x)[-80:]), e.where())
    ctx.count('calls of user code told about a consumer (%s)' % LNAME[s.lang], n)
    ctx.floor('calls of user code told about a consumer (%s)' % s.lang, n, 5)
