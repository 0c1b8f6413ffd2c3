"""P01: a protocol that refers to an unknown type, or declares a field twice, is refused; P02: the parsers end."""
from .. import subject
from ..interp import Interp
from ..terms import *
from ..worlds import norm
from ..sat import sat, under, leaves
from .files import functions
from .parsers import short, summary, is_err, whole, fields_of, propagates, lookup

FIND = ('find_by_path', 'find_by_str_path')
BUILTIN = 'get_entity'


def in_protocol(f):
    return '::protocol::' in (f.owner or '') and '::render' not in (f.owner or '') and '::workflow::' not in (f.owner or '')


def store_type(P):
    for k, (n, m, f) in P.items.items():
        if n.get('k') == 'struct' and n['n'] == 'Store' and '/protocol/' in f:
            return n
    return None


def store_methods(P):
    return [f for f in functions(P) if in_protocol(f) and short(f.owner) == 'Store' and f.node.get('self')]


def the_parser(P):
    q = [f for f in functions(P) if f.name == 'parse' and f.owner and f.owner.endswith('::protocol::Parser')]
    return q[0] if q else None


def acceptors(P):
    """the methods that resolve the type of a field or a variant: they look a path up and keep the id"""
    out = []
    st = store_methods(P)
    for f in functions(P):
        if not in_protocol(f) or f in st or not f.node.get('self') or short(f.owner) == 'Parser':
            continue
        I = Interp(P, opaque=lambda g: g is not f and (g in st or g.name == BUILTIN))
        v, s = I.run_fn(f)
        if any(e.kind == 'call' and e.name.split('::')[-1] in FIND for e in I.events) and any(e.kind == 'set' and 'ref_type_id' in str(e.name) for e in I.events):
            out.append((f, I, s))
    # those that only forward are not the place itself
    own = []
    for f, I, s in out:
        J = Interp(P, opaque=lambda g: g is not f)
        J.run_fn(f)
        if not any(e.kind == 'call' and e.name.split('::')[-1] in {g.name for g, _, _ in out if g is not f} and g_owner(e, f) for e in J.events):
            own.append((f, I, s))
    return own


def g_owner(e, f):
    return True


def refused(ctx, P, acc):
    for f, I, s in acc:
        key = f.qual()
        path = None
        for e in I.events:
            if e.kind == 'call' and e.name.split('::')[-1] in FIND and len(e.args) > 1:
                a = norm(e.args[1])
                while a.op in ('ref', 'deref'):
                    a = a.a[-1]
                if a.op == 'field':
                    path = a
        if path is None:
            ctx.undecided('refused', '%s: the path that is looked up' % key)
            continue
        first = mk('index', path, Int(0))

        def case(one):
            def g(x):
                if x.op == 'mcall' and x.a[1] in FIND and len(x.a) == 4 and any(y is path for y in subterms(x.a[3])) and not any(y.op == 'index' for y in subterms(x.a[3])):
                    return ctor('None')
                if x.op == '==' and any(y.op == 'len' and y.a[0] is path for y in x.a):
                    n = [y for y in x.a if y.op == 'int']
                    if n and n[0].a[0] == 1:
                        return Bool(one)
                    if n and n[0].a[0] == 0:
                        return FALSE
                if x.op == '<' and any(y.op == 'len' and y.a[0] is path for y in x.a):
                    n = [(i, y.a[0]) for i, y in enumerate(x.a) if y.op == 'int']
                    if n and n[0][0] == 0:            # n < len
                        return FALSE if one and n[0][1] >= 1 else TRUE if n[0][1] < (1 if one else 2) else None
                    if n and n[0][0] == 1:            # len < n
                        return TRUE if one and n[0][1] > 1 else FALSE if n[0][1] <= (1 if one else 2) else None
                if one and x.op == 'call' and x.a[0].split('::')[-1] == BUILTIN and single(x.a[1], path, first):
                    return ctor('None')
                return None
            return g
        for what, one in (('a name that is neither built in nor declared', True), ('a path that is not declared', False)):
            g = case(one)
            end = under(And(*[norm(c) for c in s.pc]), g)
            r = sat(end)
            k = '%s:%s' % (key, 'name' if one else 'path')
            ctx.count('cases of a type')
            if s.dead:
                r = False
            if r is None:
                ctx.undecided('refused', k)
            else:
                ctx.check(not r, 'refused', k, '%s goes on with %s: %s' % (key, what, show(end)[:100]), f.loc())
        # what it refers to is what was found
        found = [e for e in I.events if e.kind == 'call' and e.name.split('::')[-1] in FIND]
        for e in I.events:
            if e.kind != 'set' or e.name != 'ref_type_id':
                continue
            v = norm(e.args[0])
            okk = v.op == 'ctor' and short(v.a[0]) == 'Some'
            if okk:
                for conds, leaf in leaves(spread(v.a[1])):
                    okk = okk and last_id(leaf, found, e, conds)
            if okk is None:
                ctx.undecided('resolved', key)
            else:
                ctx.check(bool(okk), 'resolved', key, '%s: the type it refers to is not the one that was found: %s' % (key, show(v)[:120]), e.where())


def single(a, path, first):
    """the only part of a path of one part"""
    a = norm(a)
    while a.op in ('ref', 'deref'):
        a = a.a[-1]
    return a is first or any(y is path for y in subterms(a))


def spread(t):
    """alternatives are moved to the outside"""
    if t.op == 'ite':
        return Ite(t.a[0], spread(t.a[1]), spread(t.a[2]))
    for x in subterms(t):
        if x.op == 'ite':
            return spread(Ite(x.a[0], under(t, lambda y: x.a[1] if y is x else None), under(t, lambda y: x.a[2] if y is x else None)))
    return t


def last_id(leaf, found, e, conds):
    fs = [norm(c.val) for c in found]
    hit = [c for c in fs if any(y is c for y in subterms(leaf))]
    if not hit:
        return False
    # the id of the last part: the second of the pair at the end of the list
    t = leaf
    if t.op in ('field', 'proj', 'tget', 'index') or True:
        s = show(t)
    ix = [y for y in subterms(leaf) if y.op == 'index']
    if ix:
        i = ix[0].a[1]
        if any(y.op == 'len' for y in subterms(i)) and Int(1) in list(subterms(i)):
            return True
        return False if i.op == 'int' else None
    if any(y.op == 'mcall' and y.a[1] in ('last', 'pop') or y.op == 'last' for y in subterms(leaf)):
        return True
    return None


def builtin(ctx, P):
    q = [f for f in functions(P) if f.name == BUILTIN and 'PrimitiveTypes' in f.qual() + (f.owner or '') + f.file + str(f.mod if hasattr(f, 'mod') else '')]
    q = q or [f for f in functions(P) if f.name == BUILTIN and f.file.endswith('protocol/types.rs')]
    if not q:
        ctx.missing('the table of built-in types')
        return
    fn = q[0]
    I, v = summary(P, fn, ())
    names = set()

    def g(x):
        if x.op == '==' and any(y.op == 'str' for y in x.a) and any(y.op == 'sym' for y in x.a):
            names.update(y.a[0] for y in x.a if y.op == 'str')
            return FALSE
        return None
    rest = under(v, g)
    ctx.count('built-in types', len(names))
    ctx.check(rest.op == 'ctor' and short(rest.a[0]) == 'None', 'builtin', 'other', 'a name that is no built-in type is taken for one: %s' % show(rest)[:60], fn.loc())
    KNOWN = {'bool', 'char', 'i8', 'i16', 'i32', 'i64', 'isize', 'u8', 'u16', 'u32', 'u64', 'usize', 'f32', 'f64', 'str'}
    ctx.check(names <= KNOWN, 'builtin', 'names', 'names that are no built-in types: %s' % sorted(names - KNOWN), fn.loc())
    for n in sorted(names & KNOWN):
        w = under(v, lambda x: Bool(Str(n) in x.a) if x.op == '==' and any(y.op == 'str' for y in x.a) and any(y.op == 'sym' for y in x.a) else None)
        good = w.op == 'ctor' and short(w.a[0]) == 'Some' and short(w.a[1].a[0]) == 'E' + n if w.op == 'ctor' and len(w.a) > 1 and w.a[1].op == 'ctor' else False
        ctx.check(good, 'builtin', n, 'the built-in type %s is read as %s' % (n, show(w)[:40]), fn.loc())


def twice(ctx, P):
    lists = {x[0] for p, (n, m, f) in P.items.items() if n.get('k') == 'struct' and n['n'] == 'Struct' and '/protocol/' in f
             for x in n['f'] if x[1].replace(' ', '') == 'Vec<Field>'}
    if not lists:
        ctx.missing('the list of the fields of a structure')
        return

    def g(x):
        if x.op == '==':
            names = [y for y in x.a if y.op == 'field' and y.a[1] == 'name']
            if len(names) == 2 and any(z.op == 'elem' for z in subterms(x)):
                return TRUE
        if x.op == 'exists' and x.a[2] is TRUE and whole(x.a[0]):
            return TRUE
        return None
    sites = {}
    for f in functions(P):
        if not in_protocol(f) or not f.node.get('self') or '/render' in f.file:
            continue
        I, v = summary(P, f, ())
        for e in I.events:
            if e.kind == 'call' and e.name in ('push', 'insert', 'append', 'extend') and e.recv is not None and top_field(norm(e.recv)) in lists:
                r = sat(under(And(*[norm(c) for c in e.pc]), g))
                sites.setdefault(e.where(), []).append((f, r, e))
    for w, roots in sorted(sites.items()):
        # what leads to the place from outside of the model is what counts
        out = [x for x in roots if short(x[0].owner) == 'Store'] or roots
        name = [x for x in roots if short(x[0].owner) != 'Store'] or roots
        for f, r, e in out:
            if r is None:
                ctx.undecided('twice', '%s of %s' % (name[0][0].qual(), f.qual()))
            else:
                ctx.check(not r, 'twice', '%s of %s' % (name[0][0].qual(), f.qual()), '%s: a second field of the same name is added' % f.qual(), w)
    ctx.count('places fields are added at', len(sites))
    if not sites:
        ctx.missing('the place fields are added at')


def top_field(t):
    q = [t]
    while q:
        x = q.pop(0)
        if x.op == 'field':
            return x.a[1]
        q += [y for y in x.a if isinstance(y, T)]
    return None


class Machine:
    """what the methods of the store do to what is open: (struct, enum, field, variant)"""
    def __init__(self, P, acc):
        self.P = P
        self.acc = [f for f, _, _ in acc]
        n = store_type(P)
        self.slot = {}
        for fn, ty in n['f']:
            ty = ty.replace(' ', '')
            for k in ('Struct', 'Enum', 'Field'):
                if ty in ('Option<%s>' % k, 'Option<Box<%s>>' % k):
                    self.slot[k] = fn
        self.runs = {}
        self.memo = {}
        self.unsure = []

    def run(self, name):
        if name not in self.runs:
            q = [f for f in store_methods(self.P) if f.name == name]
            if not q:
                self.runs[name] = None
            else:
                I = Interp(self.P, opaque=lambda f: f in self.acc or f.name == 'get_path_by_parent')
                v, st = I.run_fn(q[0])
                self.runs[name] = (q[0], I, norm(v) if v is not None else None, st)
        return self.runs[name]

    def facts(self, s):
        st, en, fd, it = s

        def slot(t):
            return t.op == 'field' and t.a[0].op == 'sym' and t.a[0].a[0] == 'self' and [k for k, v in self.slot.items() if v == t.a[1]]

        def g(x):
            if x.op == 'is' and short(x.a[0]) in ('Some', 'None'):
                k = slot(x.a[1])
                some = None
                if k:
                    some = {'Struct': st, 'Enum': en, 'Field': fd != '-'}[k[0]]
                elif x.a[1].op == 'field' and x.a[1].a[1] == 'current' and any(slot(y) == ['Enum'] for y in subterms(x.a[1])) and x.a[1].a[0].op == 'proj':
                    some = it != '-'
                if some is not None:
                    return Bool(some == (short(x.a[0]) == 'Some'))
            return None
        return g

    def pred(self, name, s):
        r = self.run(name)
        if r is None or r[2] is None:
            return None
        v = under(r[2], self.facts(s))
        return v if v in (TRUE, FALSE) else None

    def step(self, name, s):
        """({next states}, [stored without its type having been resolved])"""
        if (name, s) in self.memo:
            return self.memo[name, s]
        r = self.run(name)
        if r is None:
            return {s}, []
        fn, I, v, st = r
        g = self.facts(s)
        out, bad = set(), []
        if not st.dead:
            end = under(And(*[norm(c) for c in st.pc]), g)
            if sat(end) is not False:
                cur = {(s[2], s[3])}
                for e in I.events:
                    eff = self.effect(e)
                    if eff is None:
                        continue
                    pc = under(And(*[norm(c) for c in e.pc]), g)
                    if sat(And(end, pc)) is False:
                        continue
                    sure = sat(And(end, Not(pc))) is False
                    nxt = set()
                    for f_, i_ in cur:
                        w, val = eff
                        if val == 'store':
                            if (f_ if w == 'f' else i_) == 'raw':
                                bad.append((fn, e, w))
                            val = '-'
                        nxt.add((val, i_) if w == 'f' else (f_, val))
                    cur = nxt if sure else cur | nxt
                pres = {}
                for k, fld in self.slot.items():
                    t = st.env.get(('1#self', fld))
                    if t is None:
                        pres[k] = None
                    else:
                        b = under(Is('Some', norm(t)), g)
                        pres[k] = True if b is TRUE else False if b is FALSE else 'both'
                def opts(k, old):
                    p = pres.get(k)
                    return [old] if p is None else [True, False] if p == 'both' else [p]
                for a in opts('Struct', s[0]):
                    for b in opts('Enum', s[1]):
                        for c in opts('Field', s[2] != '-'):
                            for f_, i_ in cur:
                                out.add((a, b, (f_ if f_ != '-' else 'raw') if c else '-', i_ if b else '-'))
        self.memo[name, s] = out, bad
        return out, bad

    def effect(self, e):
        if e.kind == 'lit':
            n = short(e.name)
            if n == 'Field':
                return 'f', 'raw'
            if n == 'EnumItem':
                d = dict(e.val.a[1]) if e.val is not None and e.val.op == 'slit' else {}
                t = d.get('types')
                return 'i', 'ok' if t is not None and t.op == 'ctor' and short(t.a[0]) == 'Some' else 'raw'
            return None
        if e.kind == 'call' and any(e.name.split('::')[-1] == f.name for f in self.acc) and e.recv is not None:
            return self.which(e.recv), 'ok'
        if e.kind == 'call' and e.name in ('push', 'insert', 'extend', 'append') and e.recv is not None:
            t = top_field(norm(e.recv))
            if t == 'type_path':
                return self.which(e.recv), 'raw'
            if t == 'fields':
                return 'f', 'store'
            if t == 'variants':
                return 'i', 'store'
        if e.kind == 'set' and e.name == 'type_path' and e.recv is not None:
            return self.which(e.recv), 'raw'
        return None

    def which(self, t):
        fs = {x.a[1] for x in subterms(norm(t)) if x.op == 'field'}
        return 'i' if self.slot.get('Enum') in fs and ('current' in fs or self.slot.get('Field') not in fs) else 'f'


def machine(ctx, P, acc):
    fn = the_parser(P)
    if fn is None:
        ctx.missing('the parser of protocols')
        return
    ms = store_methods(P)
    M = Machine(P, acc)
    if len(M.slot) < 3:
        ctx.missing('what is open while a protocol is read')
        return
    I = Interp(P, opaque=lambda f: f is not fn and (in_protocol(f) and short(f.owner) == 'Store' or f.name in ('next', 'get_content', 'get', 'get_entity')))
    v, st = I.run_fn(fn)
    v = norm(v)
    loops = [(u, li) for u, li in I.loopinfo.items() if any(short(e.name or '') == 'next' and e.loops and e.loops[-1][3] == u for e in I.events if e.kind == 'call')]
    if len(loops) != 1:
        ctx.undecided('machine', 'the loop of the parser')
        return
    u, li = loops[0]
    SK = [k for k in li['init'] if len(k) == 1 and is_store(norm(li['init'][k]))]
    EK = [k for k in li['init'] if len(k) == 1 and norm(li['init'][k]).op in ('list', 'cat') and items(norm(li['init'][k])) and all(x.op == 'ctor' for x in items(norm(li['init'][k])))]
    XK = [k for k in li['init'] if len(k) == 1 and norm(li['init'][k]).op in ('list', 'cat') and items(norm(li['init'][k])) == ()]
    if len(SK) != 1 or len(EK) != 1:
        ctx.undecided('machine', 'the state of the parser')
        return
    SK, EK = SK[0], EK[0]
    STO, EXP = norm(li['ph'][SK]), norm(li['ph'][EK])
    nsto, nexp = norm(li['next'].get(SK, STO)), norm(li['next'].get(EK, EXP))
    cont = Or(*[And(*[norm(x) for x in c]) for c in li['conds']])
    tok = None
    for x in subterms(nsto):
        if x.op == 'is' and x.a[1].op == 'proj' and any(y.op == 'mcall' and y.a[1] == 'next' for y in subterms(x.a[1])) and short(x.a[0]) in ('Word', 'Semicolon', 'End'):
            tok = x.a[1]
    if tok is None:
        ctx.undecided('machine', 'the token')
        return
    kinds = []
    for k, (n, m, f) in P.items.items():
        if n.get('k') == 'enum' and n['n'] == 'ENext' and '/protocol/' in f:
            kinds = [x['n'] if isinstance(x, dict) else x[0] for x in n.get('v', n.get('variants', []))]
    if len(kinds) < 5:
        ctx.missing('the kinds of tokens of a protocol')
        return

    pushes = [e for e in I.events if e.kind == 'call' and e.name in ('push', 'append', 'extend') and e.loops and e.loops[-1][3] == u and e.recv is not None
              and any(y.op == 'lv' and y.a[0] == u and any(norm(li['ph'][k]) is y for k in XK) for y in subterms(norm(e.recv)))]

    def facts(kind, exp, s):
        def state(t):
            if t is STO:
                return s
            if t.op == 'mut':
                z = state(t.a[0])
                if z is None:
                    return None
                nx, _ = M.step(t.a[1], z)
                return next(iter(nx)) if len(nx) == 1 else None
            return None

        def g(x):
            if x.op == 'is' and x.a[1] is tok:
                return Bool(short(x.a[0]) == kind)
            if x.op == 'is' and x.a[1].op == 'mcall' and x.a[1].a[1] == 'next':
                return Bool(short(x.a[0]) == 'Ok')
            if x.op == 'exists' and x.a[0] is EXP:
                el = mk('elem', x.a[1], EXP)
                return Or(*[norm(under(x.a[2], lambda y: it if y is el else None)) for it in exp])
            if x.op == 'mcall' and len(x.a) >= 2 and x.a[1] == 'contains' and x.a[0] is EXP:
                return Bool(any(y is x.a[2] for y in exp))
            if x.op == 'mcall' and len(x.a) == 2:
                z = state(x.a[0])
                if z is not None:
                    return M.pred(x.a[1], z)
            return None
        return g

    init = (tuple(items(norm(li['init'][EK]))), (False, False, '-', '-'))
    seen = {init: ()}
    todo = [init]
    bads = {}
    lost = {}
    steps = 0
    cut = None
    while todo:
        exp, s = todo.pop(0)
        trail = seen[exp, s]
        for kind in kinds:
            g = facts(kind, exp, s)
            c = under(cont, g)
            # a token that stops the reading leaves an error behind
            for b in li['brk']:
                bc = under(And(norm(b)), g) if not isinstance(b, (list, tuple)) else under(And(*[norm(x) for x in b]), g)
                if sat(bc) is False:
                    continue
                told = any(sat(And(bc, Not(under(And(*[norm(x) for x in e.pc if x not in li['pre']]), g)))) is False for e in pushes)
                if not told and kind == 'End':
                    told = not (s[0] or s[1])
                if not told:
                    lost.setdefault(kind, trail + (kind,))
            if sat(c) is False:
                continue
            A = [(And(*q), leaf) for q, leaf in leaves(under(nsto, g))]
            B = [(And(*q), leaf) for q, leaf in leaves(under(nexp, g))]
            for ca, la in A:
                ca = And(c, ca)
                if sat(ca) is False:
                    continue
                for cb, lb in B:
                    if sat(And(ca, cb)) is False:
                        continue
                    steps += 1
                    e2 = exp if lb is EXP else items(lb)
                    names = chain(la, STO)
                    if e2 is None or names is None or any(x.op != 'ctor' for x in e2):
                        ctx.undecided('machine', 'after %s: %s' % (kind, show(la if names is None else lb)[:60]))
                        continue
                    cur = {s}
                    for nm in names:
                        nx = set()
                        for z in cur:
                            o, bd = M.step(nm, z)
                            nx |= o
                            for fn_, e, w in bd:
                                bads.setdefault((fn_.name, w), (trail + (kind,), e))
                        cur = nx
                    for z in cur:
                        n = (tuple(e2), z)
                        if n not in seen:
                            seen[n] = trail + (kind,)
                            todo.append(n)
                            if len(seen) > 3000:
                                ctx.undecided('machine', 'too many states')
                                return
    ctx.count('states of the parser', len(seen))
    ctx.count('steps of the parser', steps)
    ctx.floor('states of the parser', len(seen), 8)
    ctx.floor('stores of fields and variants', sum(1 for m in ms for e in (M.run(m.name)[1].events if M.run(m.name) else ()) if (M.effect(e) or ('', ''))[1] == 'store'), 2)
    for w, lab in (('f', 'field'), ('i', 'variant')):
        hit = [(k, t) for k, t in bads.items() if k[1] == w]
        if hit:
            k, (trail, e) = hit[0]
            ctx.bad('resolved before', lab, 'a %s is added although its type was not looked up (%s, after %s)' % (lab, k[0], ' '.join(trail)), e.where())
        else:
            ctx.ok('resolved before', lab)
    for kind in kinds:
        if kind in lost:
            ctx.bad('stopped', kind, 'the reading stops at %s without an error (after %s)' % (kind, ' '.join(lost[kind])), fn.loc())
        else:
            ctx.ok('stopped', kind)
    # errors make the parser fail
    errs = [norm(li['ph'][k]) for k in XK] + [mk('iter', u)]

    def h(x):
        if x.op == '==' and any(y.op == 'len' and any(z in errs for z in subterms(y)) for y in x.a) and Int(0) in x.a:
            return FALSE
        if x.op == '<' and x.a[0] is Int(0) and x.a[1].op == 'len' and any(z in errs for z in subterms(x.a[1])):
            return TRUE
        return None
    last = Or(*[norm(b) if not isinstance(b, (list, tuple)) else And(*[norm(x) for x in b]) for b in li['brk']])
    for conds, leaf in leaves(under(v, h)):
        r = sat(under(And(last, *conds), h))
        if r is None:
            ctx.undecided('stopped', 'result')
        elif r:
            ctx.check(is_err(leaf), 'stopped', 'result', 'the parser succeeds although there were errors: %s' % show(leaf)[:60], fn.loc())
    # refused words end it
    for e in I.events:
        if e.kind == 'call' and short(e.name) in ('next', 'get_content', 'get') and e.val is not None and not (e.name == 'get' and e.recv is not None):
            r, why = propagates(I, v, e)
            k = short(e.name)
            if r is None:
                ctx.undecided('passed on', k)
            else:
                ctx.check(r, 'passed on', k, 'an error of %s does not end the parser (%s)' % (k, why), e.where())


def is_store(t):
    return t.op == 'call' and '::Store::' in str(t.a[0]) or t.op == 'slit' and short(str(t.a[0])) == 'Store'


def items(t):
    """the elements of a literal list"""
    if t.op == 'list':
        return tuple(t.a)
    if t.op == 'cat' and t.a[0] == 'v':
        out = []
        for x in (t.a[1] if isinstance(t.a[1], tuple) else t.a[1:]):
            if not hasattr(x, 'op') or x.op != 'one':
                return None
            out.append(x.a[0])
        return tuple(out)
    return None


def chain(t, base):
    out = []
    while t is not base:
        if t.op != 'mut':
            return None
        out.append(t.a[1])
        t = t.a[0]
    return out[::-1]


def P01(ctx):
    P = subject.cli()
    acc = acceptors(P)
    ctx.count('places a type is resolved at', len(acc))
    ctx.floor('places a type is resolved at', len(acc), 2)
    refused(ctx, P, acc)
    builtin(ctx, P)
    lookup(ctx, P, 'find_by_path')
    twice(ctx, P)
    machine(ctx, P, acc)
