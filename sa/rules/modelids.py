"""G04: ids of the protocol model come from one growing counter."""
import itertools
from .. import subject
from ..interp import Interp
from ..terms import *
from ..wire import lin
from .gencode import walk

KINDS = ('Struct', 'Enum', 'Group', 'Field')


def protocol_types(P):
    return {k: '::'.join(o.split('::')) for o, it in P.items.items() if it[0].get('k') == 'struct' and o.split('::')[-1] in KINDS and it[2].endswith(('protocol/structs.rs', 'protocol/enums.rs', 'protocol/groups.rs', 'protocol/fields.rs')) for k in [o]}


def fns(P):
    """functions of the generator, once each (main.rs and its copy of the modules)"""
    seen, out = set(), []
    for f in P.all_fns:
        k = (f.file, f.node.get('l'), f.name)
        if k not in seen and not f.node.get('test'):
            seen.add(k)
            out.append(f)
    return out


def linear(t):
    """(base, constant) of base + constant, or None"""
    c = 0
    while t.op in ('+', 'bin', '-', 'cast'):
        if t.op == 'cast':
            t = t.a[1]
            continue
        a = list(t.a)
        op = t.op
        if op == 'bin':
            op, a = a[0], a[1:]
        if op == '+':
            n = [x for x in a if x.op == 'int']
            r = [x for x in a if x.op != 'int']
            if len(r) != 1:
                return None
            c += sum(x.a[0] for x in n)
            t = r[0]
        elif op == '-' and len(a) == 2 and a[1].op == 'int':
            c -= a[1].a[0]
            t = a[0]
        else:
            return None
    if t.op == 'int':
        return None, c + t.a[0]
    return t, c


def decided(t, env):
    return subst(t, env) if env else t


def conditions(t, out):
    for x in subterms(t):
        if x.op == 'ite':
            atomise(x.a[0], out)


def atomise(c, out):
    if c.op in ('and', 'or', 'not'):
        for x in c.a:
            atomise(x, out)
    elif c not in (TRUE, FALSE) and c not in out:
        out.append(c)


def G04(ctx):
    P = subject.cli()
    types = set(protocol_types(P))
    all_fns = fns(P)
    stores = [f for f in all_fns if f.file.endswith('protocol/store.rs') and f.owner and f.owner.split('::')[-1] == 'Store']
    if not stores or len({t.split('::')[-1] for t in types}) < 4:
        return ctx.missing('the protocol store and its entities')
    inside = {(f.file, f.node.get('l')) for f in stores}
    is_store = lambda f: (f.file, f.node.get('l')) in inside
    called = set()
    for f in all_fns:
        if not is_store(f):
            for n in walk(f.node.get('body')):
                if n.get('k') == 'mcall':
                    called.add(n['n'])
    roots = [f for f in stores if f.node.get('self') and f.node.get('sm') and (f.node.get('pub') and f.name in called)]
    n = 0
    for f in roots:
        n += issue_order(ctx, P, f, types)
    ctx.count('ids issued by methods of the store', n)
    ctx.floor('ids issued by methods of the store', n, 5)
    ctx.count('methods of the store called from outside', len(roots))
    outside(ctx, P, all_fns, is_store, types)


def issue_order(ctx, P, f, types):
    I = Interp(P)
    v, st = I.run_fn(f)
    q = None
    seq0 = None
    for k, x in st.env.items():
        if len(k) == 2 and k[0].endswith('#self') and k[1] == 'sequence':
            q = x
    seq0 = mk('field', mk('sym', 'self'), 'sequence')
    if q is None:
        q = seq0
    issues = []
    for e in I.events:
        if e.kind == 'lit' and e.name in types:
            d = dict(e.val.a[1])
            if 'id' in d:
                issues.append((d['id'], e, 'new %s' % e.name.split('::')[-1]))
        elif e.kind == 'set' and (e.name or '').split('.')[-1] == 'id' and not (e.recv is not None and e.recv.op == 'slit'):
            issues.append((e.args[-1], e, 'id assigned'))
        elif e.kind == 'set' and (e.name or '').split('.')[-1] == 'sequence' and f.name != 'new':
            pass
    conds = []
    for t, e, _ in issues:
        conditions(t, conds)
        for c in e.pc:
            atomise(c, conds)
    conditions(q, conds)
    for u, li in I.loopinfo.items():
        pass
    rule = 'issue'
    n = 0
    if len(conds) > 9:
        if issues:
            ctx.undecided(rule, '%s: %d conditions' % (f.qual(), len(conds)))
        conds = []
        return 0
    for bits in itertools.product((True, False), repeat=len(conds)):
        env = {c: TRUE if b else FALSE for c, b in zip(conds, bits)}
        cur, cc = seq0, 0
        okay = True
        live = []
        for t, e, what in issues:
            if any(decided(c, env) is FALSE for c in e.pc):
                continue
            live.append((decided(t, env), e, what))
        fin = decided(q, env)
        for t, e, what in live + [(fin, None, 'counter')]:
            r = linear(t)
            if r is None or r[0] is None:
                if r is not None and e is not None:
                    ctx.bad(rule, '%s:%s' % (f.qual(), what), '%s: %s with the constant id %d' % (f.qual(), what, r[1]), e.loc)
                elif r is not None:
                    ctx.bad(rule, f.qual() + ':counter', '%s sets the id counter to %d' % (f.qual(), r[1]), f.loc())
                elif not contains(t, seq0):
                    ctx.bad(rule, '%s:%s' % (f.qual(), what), '%s: %s with %s, which is not taken from the id counter' % (f.qual(), what, show(t)[:60]), e.loc if e is not None else f.loc())
                else:
                    ctx.undecided(rule, '%s: %s %s' % (f.qual(), what, show(t)[:80]))
                okay = False
                break
            b, c = r
            for _ in range(4):
                if b is cur:
                    break
                nx = step(b, cur, cc, env)
                if nx is None:
                    break
                cur, cc = nx
            if b is not cur:
                if e is not None and not contains(b, seq0):
                    ctx.bad(rule, '%s:%s' % (f.qual(), what), '%s: %s with id %s, which is not taken from the id counter' % (f.qual(), what, show(b)[:60]), e.loc)
                else:
                    ctx.undecided(rule, '%s: %s based on %s' % (f.qual(), what, show(b)[:80]))
                okay = False
                break
            if e is None:
                ctx.check(c >= cc, rule, f.qual() + ':counter', '%s leaves the id counter below an id it has issued' % f.qual(), f.loc())
            else:
                n += 1
                if e.loops and not (b.op == 'lv' and b.a[0] in [l[3] for l in e.loops]):
                    ctx.bad(rule, '%s:%s:loop' % (f.qual(), what), '%s: %s with the same id in every turn of a loop' % (f.qual(), what), e.loc)
                ctx.check(c > cc, rule, '%s:%s' % (f.qual(), what), '%s: %s with an id that was already issued (the id counter was not advanced)' % (f.qual(), what), e.loc)
                cc = max(c, cc)
        # inside a loop every turn must leave the counter at or above the ids it issued
        if okay:
            for t, e, what in live:
                r = linear(t)
                if r and r[0] is not None and r[0].op == 'lv':
                    nx = I.loopinfo.get(r[0].a[0])
                    nv = None
                    if nx:
                        for k, p in nx['ph'].items():
                            if decided(p, env) is r[0]:
                                nv = nx['next'].get(k)
                    l2 = linear(decided(nv, env)) if nv is not None else None
                    if l2 is None or l2[0] is not r[0]:
                        ctx.undecided(rule, '%s: loop counter' % f.qual())
                    else:
                        ctx.check(l2[1] >= r[1], rule, '%s:%s:loop' % (f.qual(), what), '%s: turns of a loop issue the same id' % f.qual(), e.loc)
    # an entity that was put into the model does not stay in its slot
    for e in I.events:
        if e.kind == 'call' and e.name == 'push' and len(e.args) == 1 and not any(decided(c, {}) is FALSE for c in e.pc):
            a = e.args[0]
            while a.op == 'upd':
                a = a.a[0]
            if a.op == 'proj' and a.a[0] == 'Some' and a.a[2].op == 'field' and show(a.a[2].a[0]) == 'self':
                slot = a.a[2].a[1]
                x = None
                for k, y in st.env.items():
                    if len(k) == 2 and k[0].endswith('#self') and k[1] == slot:
                        x = y
                if x is None:
                    x = a.a[2]
                dec = x
                facts = {c: TRUE for c in e.pc}
                facts.update({c.a[0]: FALSE for c in e.pc if c.op == 'not'})
                dec = subst(dec, facts)
                kept = [y for y in alts(dec) if y is a.a[2] or y.op == 'ctor' and y.a[0] == 'Some' and base_of(y.a[1]) is a]
                ctx.check(not kept, 'kept', '%s:%s' % (f.qual(), slot), '%s puts %s into the model and keeps it open: it is added twice with one id' % (f.qual(), slot), e.loc)
    return n


def base_of(t):
    while t.op == 'upd':
        t = t.a[0]
    return t


def alts(t):
    if t.op == 'ite':
        return alts(t.a[1]) + alts(t.a[2])
    return [t]


def step(b, cur, cc, env):
    """the new position of the counter when an id is based on a loop value"""
    if b.op in ('lv', 'lout'):
        r = linear(decided(b.a[2], env))
        if r is not None and r[0] is cur and r[1] >= cc:
            return b, 0
        if b.op == 'lout' and cur.op == 'lv' and cur.a[0] == b.a[0]:
            r = linear(decided(b.a[3], env))
            if r is not None and r[0] is cur and r[1] >= cc:
                return b, 0
    return None


def outside(ctx, P, all_fns, is_store, types):
    """entities are made, and ids assigned, by the store only"""
    makers = {}
    for f in all_fns:
        for n in walk(f.node.get('body')):
            if n.get('k') == 'slit':
                p = n['p']
                o = f.owner if p == 'Self' else P.resolve(f.mod, p.split('::'))
                if o in types:
                    init = dict((a, b) for a, b in n['f']).get('id')
                    if is_store(f):
                        continue
                    prm = [x['pat'].get('n') for x in f.node['params']]
                    if init is not None and init.get('k') == 'path' and init['p'] in prm:
                        makers[f] = ('param', o)
                    elif init is not None and init.get('k') == 'lit':
                        makers[f] = ('const', o)
                    else:
                        ctx.bad('outside', f.qual(), '%s makes a %s with an id of its own' % (f.qual(), o.split('::')[-1]), f.loc())
            if n.get('k') == 'assign' and n['a'].get('k') == 'field' and n['a'].get('n') == 'id' and not is_store(f) and '/protocol/' in f.file and '/render/' not in f.file:
                ctx.bad('outside', f.qual() + ':id', '%s assigns an id' % f.qual(), f.loc())
            if n.get('k') == 'mcall' and n['n'] in ('push', 'insert', 'extend', 'append') and n['e'].get('k') == 'field' and n['e'].get('n') in ('structs', 'enums', 'groups') and not is_store(f) and '/protocol/' not in f.file and 'store' in str(n['e'].get('e')):
                ctx.bad('outside', f.qual() + ':push', '%s adds entities to the model' % f.qual(), f.loc())
    m = 0
    for f in all_fns:
        body = f.node.get('body')
        allowed = set()
        for n in walk(body):
            if n.get('k') == 'mcall' and n['n'] == 'add_service_struct':
                for a in n['a']:
                    for x in walk(a):
                        allowed.add(id(x))
        for n in walk(body):
            if n.get('k') != 'call' or n['f'].get('k') != 'path':
                continue
            segs = n['f']['p'].split('::')
            for g, (kind, o) in makers.items():
                if segs[-1] != g.name or len(segs) < 2:
                    continue
                r = f.owner if segs[-2] == 'Self' else P.resolve(f.mod, segs[:-1])
                if r != o and (r or '').split('::')[-2:] != o.split('::')[-2:]:
                    continue
                m += 1
                if kind == 'const':
                    ctx.check(id(n) in allowed, 'outside', '%s:%s' % (f.qual(), g.name), '%s makes a field without an id of its own outside a service structure' % f.qual(), f.loc())
                else:
                    ctx.check(is_store(f), 'outside', '%s:%s' % (f.qual(), g.name), '%s makes a %s with an id that does not come from the store' % (f.qual(), o.split('::')[-1]), f.loc())
    ctx.count('places that make an entity', m)
    ctx.floor('places that make an entity', m, 5)
