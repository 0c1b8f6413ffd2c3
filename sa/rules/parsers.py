"""V01: names of a workflow are declared by the protocol; V02: nothing is declared twice."""
import re
from .. import subject
from ..interp import Interp
from ..terms import *
from ..worlds import norm
from ..sat import sat, under, polar, leaves, assume
from .files import functions

LOOKUP = ('find_by_str_path', 'find_by_path')
NOTREF = {('Action', 'conclusion'), ('Action', 'current'), ('Config', 'self_key_response')}


def short(p):
    return p.split('::')[-1]


def entities(P):
    """types that read a part of the workflow file: they implement the entity parser"""
    out = {}
    for f in functions(P):
        if f.name == 'closed' and f.owner and '::workflow::' in f.owner:
            out[short(f.owner)] = f.owner
    return out


def method(P, owner, name):
    q = [f for f in functions(P) if f.name == name and f.owner and short(f.owner) == short(owner)]
    return q[0] if q else None


def struct(P, name):
    for k, (n, m, f) in P.items.items():
        if n.get('k') == 'struct' and n['n'] == name and '/workflow/' in f:
            return n
    return None


def references(P, name, base, facts):
    """(label, term, facts under which it is there) of every place of the entity that names a message"""
    n = struct(P, name)
    for fn, ty in (n['f'] if n else []):
        if (name, fn) in NOTREF or fn is None:
            continue
        t = mk('field', base, fn)
        ty = ty.replace(' ', '')
        lab = '%s.%s' % (name, fn)
        m = re.match(r'^(Option|Vec)<(?:.*::)?(\w+)>$', ty)
        if ty == 'String' and base.op != 'sym':
            yield lab, t, facts
        elif m and m.group(1) == 'Option':
            if m.group(2) == 'String':
                yield lab, mk('proj', 'Some', 0, t), facts + [('some', t)]
        elif m:
            lvl = sum(1 for k, _ in facts if k == 'elem')
            e = mk('elem', 0, t)
            if m.group(2) == 'String':
                yield lab, e, facts + [('elem', t)]
            elif struct(P, m.group(2)) is not None:
                yield from references(P, m.group(2), e, facts + [('elem', t)])


DEFAULTS = ('connected', 'disconnected')      # events every workflow has


def undeclared(X, facts, lab=''):
    """what is known when X is there and the protocol does not declare it"""
    lists = [t for k, t in facts if k == 'elem']
    opts = [t for k, t in facts if k == 'some']
    NONE = ctor('None')

    def f(x):
        if x.op == 'mcall' and x.a[1] == 'find_by_str_path' and len(x.a) == 4 and x.a[2] is Int(0) and strip(x.a[3]) is X:
            return NONE
        if x.op == 'mcall' and x.a[1] == 'find_by_path' and len(x.a) == 4 and x.a[2] is Int(0) and any(y is X for y in subterms(x.a[3])):
            return NONE
        if x.op == 'is' and x.a[1] in opts:
            return Bool(short(x.a[0]) == 'Some')
        if lab == 'Event.reference' and x.op == '==' and any(strip(y) is X for y in x.a) and any(y.op == 'str' and y.a[0] in DEFAULTS for y in x.a):
            return FALSE
        if x.op == '==' and any(y.op == 'len' and y.a[0] in lists for y in x.a) and Int(0) in x.a:
            return FALSE
        return None
    return f, lists


def strip(t):
    while t.op in ('ref', 'deref') and t.a:
        t = t.a[-1]
    return t


def witness(c, lists):
    """a condition every element meets is met by the one looked at"""
    def f(t, pos):
        if t.op == 'exists' and t.a[0] in lists:
            body = polar(t.a[2], f, pos)
            return body if not pos else mk('exists', t.a[0], t.a[1], body)
        if t.op == 'exists':
            return t
        return t
    return polar(c, f)


def possible(conds, X, facts, lab):
    f, lists = undeclared(X, facts, lab)
    c = And(*[norm(x) for x in conds])
    c = under(c, f)
    c = witness(c, lists)
    c = under(c, f)
    return sat(c)


def summary(P, fn, opaque):
    I = Interp(P, opaque=lambda f: f is not fn and f.name in opaque)
    v, st = I.run_fn(fn)
    return I, norm(v) if v is not None else None


def closes(P, owner, field, cl):
    """the events of a summary that make closed() true"""
    def f(e):
        if e.kind != 'set' or e.name != field:
            return False
        v = norm(e.args[0])
        return under(cl, lambda x: v if x.op == 'field' and x.a[1] == field else None) is not FALSE
    return f


def sets_field(fn, field):
    from .files import walk
    return any(n.get('k') == 'assign' and field in str(n)[:4000] for n in walk(fn.node)) if False else True


def propagates(I, v, e):
    """(True/False/None, where): a failed call must end the function, or the loop it is in, with an error"""
    t = norm(e.val)

    def one(v, q):
        if q.op == 'ite':
            return Ite(q.a[0], one(v, q.a[1]), one(v, q.a[2]))
        if q is t:
            return Bool(short(v) == 'Err')
        return Is(v, q)

    def f(x):
        # the alternatives of a value are looked at one by one
        if x.op == 'is' and (x.a[1] is t or x.a[1].op == 'ite' and t in subterms(x.a[1])):
            return one(x.a[0], x.a[1])
        if lazy:
            if x.op == 'is' and short(x.a[0]) in ('Ok', 'Err') and collected(x.a[1]):
                return Bool(short(x.a[0]) == 'Err')
            if x.op == 'exists' and x.a[0] is lazy['base'] and under(x.a[2], f) is TRUE:
                return TRUE
        return None

    def collected(q):
        # the results of all elements, taken together
        while q.op == 'mcall' and q.a[1].startswith('collect:Result'):
            q = q.a[0]
        return q.op == 'cat' and any(p.op == 'for' and p.a[1] is lazy['base'] and p.a[2].op == 'cat' and any(y.op == 'one' and is_err(under(y.a[0], f), t) for y in p.a[2].a[1]) for p in q.a[1])
    lazy = I.loopinfo.get(e.loops[-1][3]) if e.loops else None
    if not (lazy and lazy.get('via') in ('map', 'filter_map', 'flat_map', 'filter', 'any', 'all', 'find', 'find_map', 'try_for_each')):
        lazy = None
    pc = under(And(*[norm(c) for c in e.pc]), f)
    if sat(pc) is False:
        return True, None
    res = True
    if e.loops and not lazy:
        li = I.loopinfo.get(e.loops[-1][3])
        if li is None:
            return None, 'loop'
        for what, q in [('goes on', c) for c in li['conds']] + [('leaves the loop', [b]) for b in li['brk']]:
            c = And(pc, under(And(*[norm(x) for x in q]), f))
            s = sat(c)
            if s:
                return False, 'the loop %s' % what
            if s is None:
                res = None
        for c, val, _, lps in li['rets']:
            k = And(pc, under(And(*[norm(x) for x in c]), f))
            s = sat(k)
            if s and not is_err(under(norm(val), f)):
                return False, 'it returns %s' % show(norm(val))[:60]
            if s is None:
                res = None
        return res, None
    if v is None:
        return None, 'value'
    for conds, leaf in leaves(under(v, f)):
        c = And(pc, *[under(x, f) for x in conds])
        s = sat(c)
        if s is False:
            continue
        if s is None:
            res = None
        elif not is_err(leaf, t):
            if lazy and any(x.op in ('found', 'exists', 'mcall') and x is not t and t in subterms(x) for q in [leaf, *conds] for x in subterms(q)):
                return None, 'iterator'
            return False, 'it returns %s' % show(leaf)[:60]
    return res, None


def is_err(v, t=None):
    if v.op == 'ctor':
        return short(v.a[0]) == 'Err'
    if v.op == 'ite':
        return is_err(v.a[1], t) and is_err(v.a[2], t)
    return v is t or v.op == 'call' and v.a[0].endswith('exit')


def checked(ctx, P, name, owner):
    cf = method(P, owner, 'closed')
    I, cl = summary(P, cf, ())
    flds = {x.a[1] for x in subterms(cl) if x.op == 'field' and x.a[0].op == 'sym'}
    if len(flds) != 1:
        ctx.undecided('closed', '%s: what closed() means: %s' % (name, show(cl)[:80]))
        return
    field = flds.pop()
    fns = [f for f in functions(P) if f.owner and short(f.owner) == name and f.node.get('self')]
    runs = {}
    for f in fns:
        I, v = summary(P, f, LOOKUP + ('add_service_struct',) + tuple(g.name for g in fns if g is not f and False))
        runs[f.name] = (f, I, v)
    isclose = closes(P, owner, field, cl)
    # functions that close by themselves: those whose own text sets the field
    direct = []
    for f in fns:
        I2 = Interp(P, opaque=lambda g: g is not f)
        I2.run_fn(f)
        if any(isclose(e) for e in I2.events):
            direct.append(f)
    if not direct:
        ctx.missing('%s: the place it is closed at' % name)
        return
    refs = list(references(P, name, mk('sym', 'self'), []))
    ctx.count('kinds of references', len(refs))
    callers = {f.name: [g for g in fns if g is not f and any(e.kind == 'call' and e.name == f.name for e in events(P, g, f.name))] for f in fns}
    todo, seen, done = list(direct), set(), set()
    guard = []
    while todo:
        f = todo.pop()
        if f.name in seen:
            continue
        seen.add(f.name)
        F, I, v = runs[f.name]
        evs = [e for e in I.events if isclose(e)]
        fail = []
        for lab, X, facts in refs:
            if lab in done:
                continue
            for e in evs:
                p = possible(e.pc, X, facts, lab)
                if p is not False:
                    fail.append((lab, e, p))
        up = callers.get(f.name, [])
        bad = {lab for lab, e, p in fail}
        if f in direct and len(direct) == 1:
            done |= {lab for lab, X, facts in refs if lab not in bad}
            for lab in sorted(done):
                ctx.ok('declared', '%s:%s' % (name, lab))
        if fail and up and f.name != 'next':
            todo += up
            continue
        guard.append(f)
        reach = '%s.%s' % (name, f.name)
        for lab, X, facts in refs:
            k = '%s:%s' % (name, lab)
            if lab in done:
                continue
            if lab not in bad:
                ctx.ok('declared', k)
            elif all(p is None for l, e, p in fail if l == lab):
                ctx.undecided('declared', '%s in %s' % (k, reach))
            elif f.name == 'next' and f not in direct and any(e.kind in ('set', 'push') and touches(e, X) for e in I.events) and looks(P, f, direct):
                ctx.undecided('declared', '%s: checked where it is set, in %s' % (k, reach))
            else:
                ctx.bad('declared', k, '%s is accepted (%s sets %s) although the protocol does not declare %s' % (name, reach, field, lab), [e for l, e, p in fail if l == lab][0].where())
        # refused with an error
        for lab, X, facts in refs:
            if lab in bad or v is None:
                continue
            for conds, leaf in leaves(v):
                if is_err(leaf):
                    continue
                s = possible(conds, X, facts, lab)
                # only where the closing place would have been reached at all
                if s and f in direct and len(direct) == 1 and f.name != 'next':
                    ctx.bad('refused', '%s:%s' % (name, lab), '%s: %s is not declared, but %s returns %s' % (name, lab, reach, show(leaf)[:50]), f.loc())
                elif s is None:
                    ctx.undecided('refused', '%s:%s' % (name, lab))
                else:
                    ctx.ok('refused', '%s:%s' % (name, lab))
        # keys the configuration makes up are declared by it
        made(ctx, name, I, refs)
    # the error of a refused entity goes up
    for f in guard:
        for g in fns:
            if g is f or g.name in seen and g not in guard:
                continue
            I, v = summary(P, g, LOOKUP + (f.name,))
            for e in I.events:
                if e.kind == 'call' and e.name == f.name and e.recv is not None:
                    ctx.count('calls that close an entity')
                    r, why = propagates(I, v, e)
                    k = '%s.%s:%s' % (name, g.name, f.name)
                    if r is None:
                        ctx.undecided('passed on', k)
                    else:
                        ctx.check(r, 'passed on', k, '%s.%s: the error of %s is lost (%s)' % (name, g.name, f.name, why), e.where())
    # nothing changes after it was checked
    nx = method(P, owner, 'next')
    if nx is None:
        ctx.missing('%s.next' % name)
        return
    F, I, v = runs['next']
    names = {short(l) for l, X, fs in refs} | {t.a[1] for l, X, fs in refs for k, t in fs} | {l.split('.')[1] for l, _, _ in refs}
    last = [(i, e) for i, e in enumerate(I.events) if isclose(e)]
    for i, c in last:
        for e in I.events[i + 1:]:
            if e.kind in ('set', 'push') or e.kind == 'call' and e.name in ('push', 'insert', 'extend', 'append'):
                q = fields_of(e)
                if not (q & names):
                    continue
                s = sat(And(*[norm(x) for x in list(c.pc) + list(e.pc)]))
                if s and not same_guard(c, e):
                    continue
                ctx.check(s is not True, 'after', '%s:%s' % (name, sorted(q & names)[0]), '%s: %s changes after the names were checked' % (name, sorted(q & names)[0]), e.where())
    # starts open
    for f in functions(P):
        if f.name in ('new', 'open') and f.owner and short(f.owner) == name:
            I, v = summary(P, f, ())
            for x in subterms(v):
                if x.op == 'slit' and short(x.a[0]) == name:
                    d = dict(x.a[1])
                    t = under(cl, lambda y: d.get(field) if y.op == 'field' and y.a[1] == field else None)
                    ctx.check(t is FALSE, 'starts open', '%s.%s' % (name, f.name), '%s counts as complete before anything was read: %s' % (name, show(t)[:40]), f.loc())


def looks(P, fn, direct):
    """the function looks names up outside of the methods that close the entity"""
    I, v = summary(P, fn, LOOKUP + tuple(f.name for f in direct))
    return any(e.kind == 'call' and e.name.split('::')[-1] in LOOKUP for e in I.events)


def same_guard(c, e):
    return True


def fields_of(e):
    out = set()
    if e.kind == 'set':
        out.add(e.name)
    for t in ([e.recv] if e.recv is not None else []):
        out |= {x.a[1] for x in subterms(t) if x.op == 'field'}
    if e.kind == 'push':
        out |= {x.a[1] for a in e.args[:1] if a is not None and hasattr(a, 'op') for x in subterms(a) if x.op == 'field'}
    return out


def touches(e, X):
    return bool(fields_of(e) & {x.a[1] for x in subterms(X) if x.op == 'field'})


def events(P, g, name):
    I = Interp(P, opaque=lambda f: f is not g)
    I.run_fn(g)
    return I.events


def made(ctx, name, I, refs):
    names = {l.split('.')[1] for l, _, _ in refs}
    for i, e in enumerate(I.events):
        if e.kind != 'set' or e.name not in names or name != 'Config':
            continue
        v = norm(e.args[0])
        s = [x.a[0] for x in subterms(v) if x.op == 'str']
        if v.op == 'ctor' and short(v.a[0]) == 'Some' and len(s) == 1 and v.a[1].op == 'str':
            added = [x for x in I.events if x.kind == 'call' and x.name == 'add_service_struct' and x.args and x.args[0].op == 'str' and s[0].split('.')[-1] == x.args[0].a[0]
                     and sat(And(*[norm(c) for c in list(e.pc)], Not(And(*[norm(c) for c in x.pc if c in e.pc])))) is False]
            added = [x for x in added if all(c in e.pc or sat(And(*[norm(k) for k in e.pc], Not(norm(c)))) is False for c in x.pc)]
            ctx.check(bool(added), 'made up', '%s:%s' % (name, e.name), '%s: %s is set to %s, which is not added to the protocol' % (name, e.name, s[0]), e.where())
            ctx.count('names the configuration makes up')


def V01(ctx):
    P = subject.cli()
    es = entities(P)
    ctx.floor('kinds of entities of a workflow', len(es), 4)
    for name, owner in sorted(es.items()):
        ctx.count('kinds of entities')
        checked(ctx, P, name, owner)
    lookup(ctx, P)
    stored(ctx, P)


def no_else(P, fn, opaque=()):
    return summary(P, fn, opaque)


PLAIN = ('split', 'clone', 'to_string', 'to_owned', 'as_str', 'iter', 'collect')
TEXT = ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case', 'filter')


def lookup(ctx, P, name='find_by_str_path'):
    """a path is found only if every group of it and its last name are declared, each in the one before"""
    fns = [f for f in functions(P) if f.name == name and f.owner and short(f.owner) == 'Store']
    if not fns:
        ctx.missing('the lookup of a name in the protocol')
        return
    fn = fns[0]
    I, v = summary(P, fn, ())
    names, parents, groups = set(), set(), set()
    kinds = {'enums': 'name', 'structs': 'name', 'groups': 'group'}
    comps = []
    for t in subterms(v):
        if t.op != '==':
            continue
        for i in (0, 1):
            x, y = t.a[i], t.a[1 - i]
            if x.op == 'field' and x.a[0].op == 'elem':
                src = x.a[0].a[-1]
                if src.op == 'field' and src.a[1] in kinds and x.a[1] in ('name', 'parent'):
                    if any(q.op == 'mcall' and q.a[1] in TEXT for q in subterms(y)):
                        continue
                    comps.append((t, src.a[1], x.a[1], y))
    sp = [t for t in subterms(v) if t.op == 'mcall' and t.a[1] == 'split']
    if name == 'find_by_str_path':
        ctx.check(bool(sp) and all(t.a[2] in (Str('.'), mk('char', '.')) and t.a[0].op == 'sym' for t in sp), 'lookup', 'split', 'a path is not split at its dots: %s' % (show(sp[0])[:60] if sp else '-'), fn.loc())
    odd = [t for t in subterms(v) if t.op == 'mcall' and t.a[1] in TEXT and any(q.op == 'mcall' and q.a[1] == 'split' for q in subterms(t))]
    for what in ('enums', 'structs', 'groups'):
        for attr in ('name', 'parent'):
            if not any(k == what and a == attr for _, k, a, _ in comps):
                ctx.check(False, 'lookup', '%s.%s' % (what, attr), 'the %s of %s is not compared when a path is looked up' % (attr, what), fn.loc())
    # the element of the path, and whether it is the last
    def case(fall, last):
        def f(t):
            for c, k, a, y in comps:
                if t is c and (k, a) in fall:
                    return FALSE
            if t.op in ('==', '<') and any(q.op == 'idx' for q in subterms(t)) and any(q.op == 'len' for q in subterms(t)):
                return None
            return None
        return f

    def lastatom(t):
        return t.op in ('==', '<') and any(q.op == 'idx' for q in subterms(t)) and any(q.op == 'len' for q in subterms(t)) and not any(q.op == 'elem' for q in subterms(t.a[0]) if 'idx' not in q.op) or \
            t.op == '==' and any(q.op == 'idx' for q in subterms(t)) and any(q.op == 'len' for q in subterms(t))

    for what, attr in (('entity', 'name'), ('entity', 'parent'), ('groups', 'name'), ('groups', 'parent')):
        fall = {(k, attr) for k in (('enums', 'structs') if what == 'entity' else ('groups',))}
        g = case(fall, None)

        def f(t):
            r = g(t)
            if r is not None:
                return r
            if t.op == 'exists' and t.a[2] is FALSE:
                return FALSE
            if t.op == 'exists' and t.a[0].op not in ('field',) and whole(t.a[0]):
                b = t.a[2]
                # some element is the last; some is not (a path with a group)
                if what == 'entity' and lastatom(b) or what == 'groups' and b.op == 'not' and lastatom(b.a[0]):
                    return TRUE
                if what == 'groups' and b is TRUE:
                    return TRUE
            return None
        val = under(v, f)
        res = True
        for conds, leaf in leaves(val):
            if leaf.op == 'ctor' and short(leaf.a[0]) == 'None':
                continue
            s = sat(under(And(*conds), f))
            if s is None:
                res = None
            elif s:
                res = False
                break
        k = '%s.%s' % (what, attr)
        ctx.count('cases of the lookup')
        if res is None:
            ctx.undecided('lookup', k)
        else:
            ctx.check(res, 'lookup', k, 'a path is found although %s' % {
                ('entity', 'name'): 'no message has its name', ('entity', 'parent'): 'no message of that group has its name',
                ('groups', 'name'): 'no group has the name it gives', ('groups', 'parent'): 'no group inside of the group before has the name it gives'}[what, attr], fn.loc())
    # the group looked into is the one found for the name before
    pars = {y for _, k, a, y in comps if a == 'parent'}
    for y in pars:
        if y.op != 'lv':
            ctx.undecided('lookup', 'group looked into: %s' % show(y)[:60])
            continue
        li = I.loopinfo.get(y.a[0])
        q = [k for k, p in (li['ph'] if li else {}).items() if p is y]
        nx = norm(li['next'][q[0]]) if q and li['next'].get(q[0]) is not None else None
        init = li['init'].get(q[0]) if q else None
        ok = nx is not None and init is not None and init.op == 'sym'
        if ok:
            for conds, leaf in leaves(nx):
                good = leaf.op == 'field' and leaf.a[1] == 'id' and any(z.op == 'field' and z.a[1] == 'groups' for z in subterms(leaf)) or leaf is y
                ok = ok and good
        ctx.check(ok, 'lookup', 'group', 'the group a name is looked for in is not the one found before: %s' % (show(nx)[:80] if nx is not None else '-'), fn.loc())


def parser(P):
    q = [f for f in functions(P) if f.name == 'parse' and f.owner and f.owner.endswith('::workflow::Parser')]
    return q[0] if q else None


def store_methods(P):
    return [f for f in functions(P) if f.owner and f.owner.endswith('::workflow::store::Store')]


def stored(ctx, P):
    fn = parser(P)
    if fn is None:
        ctx.missing('the parser of workflows')
        return
    own = ('next', 'closed', 'extract', 'open', 'err', 'get_content') + tuple(f.name for f in store_methods(P))
    I, v = summary(P, fn, own)
    takes = [e for e in I.events if e.kind == 'call' and e.args and any(x.op == 'mcall' and x.a[1] == 'extract' for x in subterms(norm(e.args[0]))) and e.name != 'err']
    names = set()
    for e in takes:
        a = norm(e.args[0])
        names.add(e.name)
        ex = [x for x in subterms(a) if x.op == 'mcall' and x.a[1] == 'extract'][0]
        pc = under(And(*[norm(c) for c in e.pc]), lambda x: FALSE if x.op == 'mcall' and x.a[1] == 'closed' else None)
        ctx.count('kinds of entities stored')
        ctx.check(sat(pc) is False, 'stored', '%s:closed' % e.name, 'an entity is stored (%s) that was not checked' % e.name, e.where())
        r, why = propagates(I, v, e)
        if r is None:
            ctx.undecided('stored', e.name)
        else:
            ctx.check(r, 'stored', '%s:error' % e.name, 'an entity that is refused by %s does not end the parsing (%s)' % (e.name, why), e.where())
    ctx.floor('kinds of entities stored', len(names), 4)
    n = 0
    for e in I.events:
        if e.kind != 'call' or e.recv is None:
            continue
        if e.name == 'next' or e.name == 'validate' or e.name == 'get_content':
            n += 1
            r, why = propagates(I, v, e)
            k = '%s/%d' % (e.name, len(e.args))
            if r is None:
                ctx.undecided('passed on', 'parse:%s' % k)
            else:
                ctx.check(r, 'passed on', 'parse:%s' % k, 'an error of %s does not end the parsing (%s)' % (e.name, why), e.where())
    ctx.floor('steps of the parser that can fail', n, 3)
    # the file must not end inside of a declaration
    loops = [(u, li) for u, li in I.loopinfo.items() if li['kind'] == 'loop' or any(k[-1].endswith('opened') for k in li['init'])]
    for u, li in loops:
        opened = [p for k, p in li['ph'].items() if li['init'].get(k) is not None and li['init'][k].op == 'ctor' and short(li['init'][k].a[0]) == 'None' and len(k) == 1]
        if not opened:
            ctx.undecided('cut off', 'the entity that is open')
            continue
        toks = {x for e in I.events for c in e.pc for x in subterms(norm(c)) if x.op == 'is' and short(x.a[0]) == 'End'}

        def f(x):
            if x in toks:
                return TRUE
            if x.op == 'is' and short(x.a[0]) == 'Some' and x.a[1] in opened:
                return TRUE
            for t in toks:
                if x.op == 'is' and x.a[1] is t.a[1] and x is not t:
                    return FALSE
            return None
        bad = None
        for what, q in [('goes on', c) for c in li['conds']] + [('stops reading', [b]) for b in li['brk']]:
            s = sat(under(And(*[norm(x) for x in q]), f))
            if s:
                bad = what
        for c, val, _, lps in li['rets']:
            if sat(under(And(*[norm(x) for x in c]), f)) and not is_err(under(norm(val), f)):
                bad = 'returns'
        if toks:
            ctx.check(bad is None, 'cut off', 'end', 'the end of the file inside of a declaration is not an error: the parser %s, and the declaration is not checked' % bad, fn.loc())
        else:
            ctx.undecided('cut off', 'the end of the file')
    # nothing else puts entities into the store
    for g in functions(P):
        if g.owner and ('::workflow::' in g.owner) and g.owner.endswith('Parser') and g.name != 'next':
            J = Interp(P, opaque=lambda h: h is not g)
            J.run_fn(g)
            for e in J.events:
                q = fields_of(e) if e.kind in ('push', 'set') or e.kind == 'call' and e.name in ('push', 'insert', 'extend', 'append') else set()
                if 'store' in q and q & {'events', 'requests', 'beacons', 'config'}:
                    ctx.bad('stored', '%s:directly' % g.name, '%s puts an entity into the store without its checks' % g.name, e.where())


def V02(ctx):
    P = subject.cli()
    ms = store_methods(P)
    adders = [f for f in ms if f.node.get('self') and f.node.get('params') and (f.node.get('ret') or '').replace(' ', '').startswith('Result<()')]
    found = {}
    for fn in adders:
        I, v = summary(P, fn, ())
        for e in I.events:
            fld = None
            if e.kind == 'call' and e.name in ('push', 'insert', 'append', 'extend') or e.kind == 'push':
                t = e.recv if e.recv is not None else (e.args[0] if e.args and hasattr(e.args[0], 'op') else None)
                q = fields_of(e) & {'events', 'requests', 'beacons'}
                fld = q.pop() if q else None
            elif e.kind == 'set' and e.name in ('config', 'events', 'requests', 'beacons'):
                fld = e.name
            if fld:
                found.setdefault(fld, []).append((fn, I, v, e))
    for fld in ('config', 'events', 'requests', 'beacons'):
        if fld not in found:
            ctx.missing('the place %s are stored at' % fld)
    for fld, lst in sorted(found.items()):
        for fn, I, v, e in lst:
            ctx.count('places entities are stored at')
            key = '%s:%s' % (fn.name, fld)
            if fld == 'config':
                fx = lambda x: Bool(short(x.a[0]) == 'Some') if x.op == 'is' and x.a[1].op == 'field' and x.a[1].a[1] == 'config' else None
                judge(ctx, fn, I, v, e, fx, key, 'a second configuration', None)
                continue
            # what the new entity and a stored one are known by
            attr = {'events': 'reference', 'requests': 'request', 'beacons': 'reference'}[fld]

            def same(x, attr=attr, fld=fld):
                def of(t):
                    while t.op == 'proj' and t.a[0] == 'Some' or t.op in ('ref', 'deref'):
                        t = t.a[-1]
                    return t
                if x.op == 'is' and short(x.a[0]) == 'Some' and of(x.a[1]).op == 'field' and of(x.a[1]).a[1] == attr:
                    return TRUE
                if x.op == '==':
                    l, r = of(x.a[0]), of(x.a[1])
                    if l.op == 'field' and r.op == 'field' and l.a[1] == attr and r.a[1] == attr and l.a[0] is not r.a[0] and any(y.op == 'field' and y.a[1] == fld or y.op == 'lv' and fld in str(y.a[1]) for y in subterms(x)):
                        return TRUE
                if x.op == 'exists' and x.a[2] is TRUE and whole(x.a[0]):
                    return TRUE
                return None
            judge(ctx, fn, I, v, e, same, key, 'a second entry of %s for the same message' % fld, fld)
    ctx.floor('places entities are stored at', sum(len(x) for x in found.values()), 4)
    conflict(ctx, P, ms)
    # a refused entity ends the parsing
    fn = parser(P)
    if fn is None:
        ctx.missing('the parser of workflows')
        return
    own = ('next', 'closed', 'extract', 'open', 'err', 'get_content') + tuple(f.name for f in ms)
    I, v = summary(P, fn, own)
    n = 0
    for e in I.events:
        if e.kind == 'call' and e.name in {f.name for f in adders} and e.args and any(x.op == 'mcall' and x.a[1] == 'extract' for x in subterms(norm(e.args[0]))):
            n += 1
            r, why = propagates(I, v, e)
            if r is None:
                ctx.undecided('passed on', e.name)
            else:
                ctx.check(r, 'passed on', e.name, 'an entity that is refused by %s does not end the parsing (%s)' % (e.name, why), e.where())
    ctx.floor('kinds of entities stored', n, 4)
    for g in functions(P):
        if g.owner and ('::workflow::' in g.owner) and g.owner.endswith('Parser') and g.name != 'next':
            J = Interp(P, opaque=lambda h: h is not g)
            J.run_fn(g)
            for e in J.events:
                q = fields_of(e) if e.kind in ('push', 'set') or e.kind == 'call' and e.name in ('push', 'insert', 'extend', 'append') else set()
                if 'store' in q and q & {'events', 'requests', 'beacons', 'config'}:
                    ctx.bad('stored', '%s:directly' % g.name, '%s puts an entity into the store without its checks' % g.name, e.where())


def whole(t):
    """a list that is gone through from one end to the other"""
    while t.op in ('rev', 'sorted', 'enumerate') and t.a:
        t = t.a[0]
    return not (t.op in ('take', 'skip', 'index', 'slice', 'takewhile', 'skipwhile', 'partialc', 'cut') or t.op == 'mcall' and t.a[1] in ('step_by', 'chunks', 'windows', 'nth', 'last', 'first'))


def conflict(ctx, P, ms):
    """a message that is both a beacon and a request is refused by what the parser calls at the end"""
    pr = parser(P)
    if pr is None:
        return
    I, v = summary(P, pr, ('next', 'closed', 'extract', 'open', 'err', 'get_content', 'set_config', 'add_event', 'add_request', 'add_beacon') + tuple(f.name for f in ms if f.node.get('self') == 'ref' or f.name == 'validate'))
    called = {e.name for e in I.events if e.kind == 'call'}
    good = None
    for fn in ms:
        if fn.name not in called or not fn.node.get('self') or fn.node.get('params'):
            continue
        J, w = summary(P, fn, ())
        if w is None:
            continue

        def f(x):
            if x.op == '==':
                q = [{y.a[1] for y in subterms(z) if y.op == 'field'} for z in x.a]
                for a, b in (q, q[::-1]):
                    if 'beacons' in a and 'reference' in a and 'requests' in b and 'request' in b:
                        return TRUE
            if x.op == 'is' and x.a[1].op == 'field' and x.a[1].a[1] == 'request':
                return Bool(short(x.a[0]) == 'Some')
            if x.op == 'exists' and x.a[2] is TRUE and whole(x.a[0]):
                return TRUE
            if x.op == 'exists' and x.a[2] is FALSE:
                return FALSE
            if x.op == '==' and any(y.op == 'len' and y.a[0].op == 'field' and y.a[0].a[1] in ('beacons', 'requests') for y in x.a) and Int(0) in x.a:
                return FALSE
            return None
        ok = True
        n = 0
        for conds, leaf in leaves(under(w, f)):
            s = sat(under(And(*conds), f))
            n += s is not False
            if s is not False and not is_err(leaf):
                ok = False
        if ok and n:
            good = fn
    ctx.count('rules over two kinds of entities')
    ctx.check(good is not None, 'conflict', 'beacons:requests', 'a message that is both a beacon and a request is accepted', pr.loc())


def judge(ctx, fn, I, v, e, fx, key, what, fld):
    pc = under(And(*[norm(c) for c in e.pc]), fx)
    s = sat(pc)
    if s is None:
        ctx.undecided('twice', key)
    else:
        ctx.check(not s, 'twice', key, '%s: %s is stored' % (fn.qual(), what), e.where())
    # and the caller gets to know
    if e.loops:
        li = I.loopinfo.get(e.loops[-1][3])
        bad = None
        pre = under(And(*[norm(c) for c in (li['pre'] if li else [])]), fx)
        if li is None:
            ctx.undecided('refused', key)
            return
        for w, q in [('goes on', c) for c in li['conds']] + [('ends', [b]) for b in li['brk']]:
            if sat(And(pre, under(And(*[norm(x) for x in q]), fx))):
                bad = w
        ctx.check(bad is None, 'refused', key, '%s: %s is not reported, the loop %s' % (fn.qual(), what, bad), fn.loc())
        return
    for conds, leaf in leaves(under(v, fx)):
        if not is_err(leaf):
            s = sat(under(And(*conds), fx))
            if s is None:
                ctx.undecided('refused', key)
            elif s:
                ctx.bad('refused', key, '%s: %s is not reported' % (fn.qual(), what), fn.loc())
                return
    ctx.ok('refused', key)
