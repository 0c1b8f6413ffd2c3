"""P03: the model of a protocol says what its text says."""
from .. import subject
from ..interp import Interp, Loop
from ..terms import *
from ..worlds import norm
from ..sat import sat, under, leaves
from .files import functions
from .parsers import short, whole
from .reading import lin
from .protparse import in_protocol, store_type, store_methods, the_parser, items, chain, is_store

ENTITY = {'group': 'EGroup', 'struct': 'EStruct', 'enum': 'EEnum'}


class Tok:
    def __init__(self, kind, word=None, nxt=None):
        self.kind, self.word, self.nxt = kind, word, nxt


def W(word, nxt=None):
    return Tok('Word', Str(word) if word in ENTITY else mk('word', word), nxt)


OPEN, CLOSE, SEMI, REP, OPT, DOT = [Tok(k) for k in ('OpenStruct', 'CloseStruct', 'Semicolon', 'Repeated', 'Optional', 'PathSpliter')]


class Unknown(Exception):
    pass


class Refused(Exception):
    pass


class Exact(Interp):
    """lists of which every element is known are worked on element by element"""
    def m_position(self, r, a, st, n, rp):
        l = items(r)
        if not a or l is None:
            return Interp.m_position(self, r, a, st, n, rp)
        v = ctor('None')
        for i, c in reversed([(i, norm(self.apply(a[0], [x], st, n))) for i, x in enumerate(l)]):
            v = self.ite(c, ctor('Some', Int(i)), v) if c not in (TRUE, FALSE) else ctor('Some', Int(i)) if c is TRUE else v
        return v

    def m_find(self, r, a, st, n, rp):
        l = items(r)
        if not a or l is None or a[0].op not in ('closure', 'fnref'):
            return Interp.m_find(self, r, a, st, n, rp)
        v = ctor('None')
        for x, c in reversed([(x, norm(self.apply(a[0], [x], st, n))) for x in l]):
            v = self.ite(c, ctor('Some', x), v) if c not in (TRUE, FALSE) else ctor('Some', x) if c is TRUE else v
        return v

    def e_while(self, n, st):
        return self.rounds(n, st, True, Interp.e_while)

    def e_loop(self, n, st):
        return self.rounds(n, st, False, Interp.e_loop)

    def rounds(self, n, st, cond, other):
        """round after round, as long as it is known whether there is another one"""
        was, nr, ne, nu = st.fork(), len(self.frame.rets), len(self.events), len(self.unknown)
        lp = Loop(self.fresh(), 0, mk('list'), n.get('label'), len(st.pc))
        lp.kind = 'unrolled'
        self.frame.loops.append(lp)
        done = False
        for i in range(16):
            if cond:
                c = norm(st.simp(self.eval(n['c'], st)))
                if st.dead or c is FALSE:
                    done = True
                    break
                if c is not TRUE:
                    break
            lp.conts = []
            self.block(n['b'], st)
            for s in lp.conts:
                if st.dead:
                    st.env, st.pc, st.dead = s.env, s.pc, False
                else:
                    j = self.join_env(And(*[c for c in s.pc if c not in st.pc]), s, st)
                    st.env, st.pc = j.env, [x for x in st.pc if x in s.pc]
            if st.dead:
                done = True
                break
        self.frame.loops.pop()
        if done:
            self.join_breaks(st, lp)
            return UNIT
        st.env, st.pc, st.dead = was.env, was.pc, was.dead
        del self.frame.rets[nr:]
        del self.events[ne:]
        del self.unknown[nu:]
        return other(self, n, st)

    def for_over(self, coll, n, st, body):
        if coll.op == 'enumerate' and items(norm(coll.a[0])) is not None:
            return self.unroll([(mk('tuple', Int(i), x), None) for i, x in enumerate(items(norm(coll.a[0])))], n, st, body)
        return Interp.for_over(self, coll, n, st, body)

    def one_of(self, r, i):
        l = items(r)
        return None if l is None else ctor('Some', l[i]) if -len(l) <= i < len(l) else ctor('None')

    def m_first(self, r, a, st, n, rp): return None if a else self.one_of(r, 0)
    def m_last(self, r, a, st, n, rp): return None if a else self.one_of(r, -1)
    def m_get(self, r, a, st, n, rp): return self.one_of(r, norm(a[0]).a[0]) if len(a) == 1 and norm(a[0]).op == 'int' and items(r) is not None else None

    def e_index(self, n, st):
        b, i = self.eval(n['e'], st), self.eval(n['i'], st)
        return UNIT if st.dead else self.mk_index(b, i)

    def mk_index(self, b, i):
        i = norm(i)
        l = items(b)
        if l is not None and i.op == 'int' and 0 <= i.a[0] < len(l):
            return l[i.a[0]]
        return Interp.mk_index(self, b, i)

    def less(self, r, a, st, rp, k):
        l = items(r)
        if l is None or rp is None or not -len(l) <= k < len(l):
            return None
        k %= len(l)
        self.write(st, rp, lst(*(l[:k] + l[k + 1:])), None)
        return l[k]

    def m_pop(self, r, a, st, n, rp):
        if not a and items(r) == ():
            return ctor('None')
        x = None if a else self.less(r, a, st, rp, -1)
        return ctor('Some', x) if x is not None else Interp.m_pop(self, r, a, st, n, rp)

    def m_remove(self, r, a, st, n, rp):
        x = self.less(r, a, st, rp, norm(a[0]).a[0]) if len(a) == 1 and norm(a[0]).op == 'int' else None
        return x if x is not None else Interp.m_remove(self, r, a, st, n, rp)

    def m_reverse(self, r, a, st, n, rp):
        l = items(r)
        if l is None or rp is None or a:
            return Interp.m_reverse(self, r, a, st, n, rp)
        self.write(st, rp, lst(*reversed(l)), None)
        return UNIT

    def m_rev(self, r, a, st, n, rp):
        l = items(r)
        return Interp.m_rev(self, r, a, st, n, rp) if l is None or a else lst(*reversed(l))

    def m_retain(self, r, a, st, n, rp):
        l = items(r)
        if l is not None and rp is not None and len(a) == 1:
            k = [norm(self.apply(a[0], [x], st, n)) for x in l]
            if all(x in (TRUE, FALSE) for x in k):
                self.write(st, rp, lst(*[x for x, y in zip(l, k) if y is TRUE]), None)
                return UNIT
        f = getattr(Interp, 'm_retain', None)
        return f(self, r, a, st, n, rp) if f else None

    def m_swap_remove(self, r, a, st, n, rp):
        l = items(r)
        k = norm(a[0]) if len(a) == 1 else None
        if l is None or rp is None or k.op != 'int' or k.a[0] >= len(l):
            return None
        i = k.a[0]
        self.write(st, rp, lst(*(l[:-1] if i == len(l) - 1 else l[:i] + (l[-1],) + l[i + 1:-1])), None)
        return l[i]

    def m_truncate(self, r, a, st, n, rp):
        l = items(r)
        if l is None or rp is None or len(a) != 1 or norm(a[0]).op != 'int':
            return None
        self.write(st, rp, lst(*l[:norm(a[0]).a[0]]), None)
        return UNIT

    def m_insert(self, r, a, st, n, rp):
        l = items(r)
        if l is None or rp is None or len(a) != 2:
            return Interp.m_insert(self, r, a, st, n, rp)

        def at(i):
            i = norm(i)
            if i.op == 'ite':
                return Ite(i.a[0], at(i.a[1]), at(i.a[2]))
            return lst(*(l[:i.a[0]] + (a[1],) + l[i.a[0]:])) if i.op == 'int' and i.a[0] <= len(l) else mk('ins', r, i, a[1])
        self.write(st, rp, norm(at(a[0])), None)
        return UNIT


class Reader:
    """the loop of the protocol parser: how a token moves what is expected and the model"""
    def __init__(self, P):
        self.P = P
        self.fn = fn = the_parser(P)
        if fn is None:
            raise Unknown('the parser of protocols')
        self.I = I = Interp(P, opaque=lambda f: f is not fn and (in_protocol(f) and short(f.owner) == 'Store' or f.name in ('next', 'get_content', 'get', 'get_entity')))
        v, st = I.run_fn(fn)
        loops = [(u, li) for u, li in I.loopinfo.items() if any(short(e.name or '') == 'next' and e.loops and e.loops[-1][3] == u for e in I.events if e.kind == 'call')]
        if len(loops) != 1:
            raise Unknown('the loop of the parser')
        self.u, self.li = u, li = loops[0]
        SK = [k for k in li['init'] if len(k) == 1 and is_store(norm(li['init'][k]))]
        EK = [k for k in li['init'] if len(k) == 1 and norm(li['init'][k]).op in ('list', 'cat') and items(norm(li['init'][k])) and all(x.op == 'ctor' for x in items(norm(li['init'][k])))]
        XK = [k for k in li['init'] if len(k) == 1 and norm(li['init'][k]).op in ('list', 'cat') and items(norm(li['init'][k])) == ()]
        if len(SK) != 1 or len(EK) != 1:
            raise Unknown('the state of the parser')
        SK, EK = SK[0], EK[0]
        self.STO, self.EXP = norm(li['ph'][SK]), norm(li['ph'][EK])
        self.nsto, self.nexp = norm(li['next'].get(SK, self.STO)), norm(li['next'].get(EK, self.EXP))
        self.cont = Or(*[And(*[norm(x) for x in c]) for c in li['conds']])
        self.start = tuple(items(norm(li['init'][EK])))
        self.tok = None
        for x in subterms(self.nsto):
            if x.op == 'is' and x.a[1].op == 'proj' and any(y.op == 'mcall' and y.a[1] == 'next' for y in subterms(x.a[1])) and short(x.a[0]) in ('Word', 'Semicolon', 'End'):
                self.tok = x.a[1]
        if self.tok is None:
            raise Unknown('the token')
        self.pushes = [e for e in I.events if e.kind == 'call' and e.name in ('push', 'append', 'extend') and e.loops and e.loops[-1][3] == u and e.recv is not None
                       and any(y.op == 'lv' and y.a[0] == u and any(norm(li['ph'][k]) is y for k in XK) for y in subterms(norm(e.recv)))]
        self.methods = {f.name: f for f in store_methods(P)}
        self.decl = store_type(P)
        self.memo = {}

    # the payload of a word: what is a text, what is the character after it
    def payload(self, t):
        """'word' / 'next' / None: is t a part of the payload of the current token"""
        path = []
        while t is not self.tok:
            if t.op == 'tget' or t.op == 'field' and isinstance(t.a[1], (int, str)):
                path.append(t.a[1])
                t = t.a[0]
            elif t.op == 'proj' and short(str(t.a[0])) == 'Word':
                path.append(('w', t.a[1]))
                t = t.a[2]
            elif t.op in ('ref', 'deref') or t.op == 'mcall' and len(t.a) == 2 and t.a[1] in ('to_string', 'clone', 'to_owned', 'as_str', 'into'):
                t = t.a[-1] if t.op != 'mcall' else t.a[0]
            else:
                return None
        path = path[::-1]
        if path == [('w', 0), '0'] or path == [('w', 0), 0]:
            return 'word'
        if path in ([('w', 0), '2'], [('w', 0), 2]):
            return 'next'
        if path == [('w', 1)] or path == [('w', 2)]:
            return {1: 'offset', 2: 'next'}[path[0][1]]
        return None

    def facts(self, tok, exp, rec):
        def place(x):
            if self.payload(x) == 'word':
                return tok.word
            if self.payload(x) == 'next' and tok.kind == 'Word':
                return ctor('Some', mk('char', tok.nxt)) if tok.nxt else ctor('None')
            return None

        def g(x):
            if x.op == 'proj' and x.a[2].op == 'ctor' and short(str(x.a[0])) == short(x.a[2].a[0]) and len(x.a[2].a) > x.a[1] + 1:
                return x.a[2].a[x.a[1] + 1]
            if x.op == 'is' and x.a[1].op == 'ctor':
                return Bool(short(str(x.a[0])) == short(x.a[1].a[0]))
            if x.op == '==' and all(y.op in ('char', 'str') for y in x.a):
                return Bool(x.a[0].a[0] == x.a[1].a[0])
            if x.op == 'is' and x.a[1] is self.tok:
                return Bool(short(x.a[0]) == tok.kind)
            if x.op == 'is' and x.a[1].op == 'mcall' and x.a[1].a[1] == 'next':
                return Bool(short(x.a[0]) == 'Ok')
            if x.op in ('tget', 'field', 'proj'):
                r = place(x)
                if r is not None:
                    return r
            if x.op == 'is' and self.payload(x.a[1]) == 'next':
                return Bool((tok.nxt is not None) == (short(x.a[0]) == 'Some'))
            if x.op == 'proj' and self.payload(x.a[-1]) == 'next' and tok.nxt:
                return mk('char', tok.nxt)
            if x.op == '==' and tok.nxt and any(self.after(y) for y in x.a):
                o = [y for y in x.a if not self.after(y)]
                if len(o) == 1 and o[0].op in ('char', 'str'):
                    return Bool(o[0].a[0] == tok.nxt)
            if tok.word is not None and x.op == 'call' and short(x.a[0]) == 'get_entity' and len(x.a) == 2 and (self.payload(x.a[1]) == 'word' or x.a[1] is tok.word):
                w = tok.word
                return ctor('Some', ctor(ENTITY[w.a[0]])) if w.op == 'str' else ctor('None')
            if tok.word is not None and x.op == '==' and any(self.payload(y) == 'word' or y is tok.word for y in x.a) and any(y.op == 'str' for y in x.a):
                s = [y for y in x.a if y.op == 'str']
                if len(s) == 1 and tok.word.op == 'word' and s[0].a[0] in ENTITY:
                    return FALSE
            if x.op == 'exists' and x.a[0] is self.EXP:
                el = mk('elem', x.a[1], self.EXP)
                return Or(*[norm(under(x.a[2], lambda y: it if y is el else None)) for it in exp])
            if x.op == 'exists' and items(x.a[0]) is not None:
                el = mk('elem', x.a[1], x.a[0])
                return Or(*[norm(under(x.a[2], lambda y: it if y is el else None)) for it in items(x.a[0])])
            if x.op == 'mcall' and len(x.a) >= 2 and x.a[1] == 'contains' and x.a[0] is self.EXP:
                return Bool(any(y is x.a[2] for y in exp))
            if x.op == 'mcall' and len(x.a) == 2 and x.a[1] in self.methods:
                z = self.state(x.a[0], rec, tok)
                if z is not None:
                    v = self.call(x.a[1], z, ())[0]
                    return v if v in (TRUE, FALSE) else None
            return None
        return g

    def after(self, y):
        return self.payload(y) == 'next' or y.op == 'proj' and self.payload(y.a[-1]) == 'next'

    def state(self, t, rec, tok):
        if t is self.STO:
            return rec
        if t.op == 'mut':
            z = self.state(t.a[0], rec, tok)
            return None if z is None else self.call(t.a[1], z, [self.arg(a, tok) for a in t.a[3:]])[1]
        return None

    def arg(self, a, tok):
        r = norm(under(a, lambda x: tok.word if self.payload(x) == 'word' else None)) if tok.word is not None else a
        while r.op in ('ref', 'deref'):
            r = r.a[-1]
        return r

    def call(self, name, rec, args):
        """(value, record afterwards) of a method of the model"""
        k = (name, rec, tuple(args))
        if k in self.memo:
            return self.memo[k]
        f = self.methods.get(name)
        if f is None:
            raise Unknown('%s of the model' % name)
        I = Exact(self.P, opaque=lambda g: g is not f and g.name in ('find_by_path', 'get_entity', 'get_path_by_parent'))
        v, st = I.run_fn(f, args=list(args), selfv=rec)
        pc = norm(And(*[norm(c) for c in st.pc]))
        if st.dead or pc is FALSE:
            why = [e for e in I.events if e.kind == 'panic']
            raise Refused('%s%s' % (name, ' (%s)' % show(norm(why[0].args[0]))[:70] if why and why[0].args else ''))
        out = rec
        d = dict(rec.a[1])
        for p, x in st.env.items():
            if p[0].endswith('#self') and len(p) == 2:
                d[p[1]] = norm(I.read(st, p))
        out = mk('slit', rec.a[0], tuple((n, d[n]) for n, _ in rec.a[1]))
        out = calm(out)
        self.memo[k] = (calm(norm(v)) if v is not None else None, out, I)
        return self.memo[k]

    def step(self, tok, exp, rec):
        g = self.facts(tok, exp, rec)
        c = norm(under(self.cont, g))
        if c is FALSE or sat(c) is False:
            raise Refused('the parser does not go on')
        if c is not TRUE and sat(Not(c)) is not False:
            raise Unknown('whether the parser goes on: %s' % show(c)[:80])
        for e in self.pushes:
            pc = norm(under(And(*[norm(x) for x in e.pc if x not in self.li['pre']]), g))
            if sat(pc) is not False:
                raise Refused('an error is noted') if pc is TRUE else Unknown('whether an error is noted')
        ns, ne = norm(under(self.nsto, g)), norm(under(self.nexp, g))
        e2 = exp if ne is self.EXP else items(ne)
        if e2 is None or any(x.op != 'ctor' for x in e2):
            raise Unknown('what is expected next: %s' % show(ne)[:80])
        z = self.state(ns, rec, tok)
        if z is None:
            raise Unknown('the model after it: %s' % show(ns)[:80])
        return tuple(e2), z

    def run(self, toks, exp, rec):
        for i, t in enumerate(toks):
            try:
                exp, rec = self.step(t, exp, rec)
            except Refused as r:
                raise Refused('at %s: %s' % (spell(toks[:i + 1]), r))
        return exp, rec

    def record(self, **kw):
        fs = []
        for n, ty in self.decl['f']:
            fs.append((n, kw.get(n, mk('sym', 'S.' + n))))
        return mk('slit', store_methods(self.P)[0].owner, tuple(fs))


def calm(t):
    """what a lookup works on does not matter for what it is asked"""
    def f(x):
        if x.op == 'mcall' and x.a[0].op == 'slit' and x.a[1] in ('find_by_path', 'get_path_by_parent'):
            return mk('mcall', mk('sym', 'MODEL'), *x.a[1:])
        return None
    return under(t, f)


def spell(toks):
    t = {'OpenStruct': '{', 'CloseStruct': '}', 'Semicolon': ';', 'Repeated': '[]', 'Optional': '?', 'PathSpliter': '.'}
    return ' '.join(t.get(x.kind) or x.word.a[0] for x in toks)


def part(t, n):
    """the field n of a value that is a record, or of a changed one"""
    t = norm(t)
    if t.op in ('slit', 'upd'):
        d = dict(t.a[1])
        if n in d:
            return norm(d[n])
        return part(t.a[0], n) if t.op == 'upd' else None
    if t.op == 'ite':
        return norm(Ite(t.a[0], part(t.a[1], n), part(t.a[2], n)))
    return mk('field', t, n)


def added(new, old):
    """what was put at the end of a list"""
    new = norm(new)
    if new is old:
        return ()
    if new.op != 'cat':
        return None
    xs = list(new.a[1] if isinstance(new.a[1], tuple) else new.a[1:])
    o = items(old)
    if o is not None:
        n = items(new)
        return None if n is None or n[:len(o)] != o else n[len(o):]
    if not xs or xs[0] is not old:
        return None
    out = []
    for x in xs[1:]:
        if x.op != 'one':
            return None
        out.append(x.a[0])
    return tuple(out)


def form(n, name, rep, opt):
    """n: how many words the type has (a variant may have none)"""
    def toks(t, f):
        ty = [W(t + 'gh'[k], '.') for k in range(n - 1)]
        out = [y for x in ty for y in (x, DOT)] + ([W(t, '[' if rep else None)] if n else []) + ([REP] if rep else [])
        return out + [W(f, '?' if opt else ';')] + ([OPT] if opt else []) + [SEMI]
    lab = ''.join('%s.' % 'GH'[k] for k in range(n - 1)) + ('T' if n else '') + ('[] ' if rep else ' ' if n else '') + name + ('?' if opt else '')
    return lab, toks, n, rep, opt


CORE = [(1, False, False), (1, True, False), (1, False, True), (1, True, True), (2, False, False), (3, True, False)]
FIELDS = [form(n, 'f', r, o) for n, r, o in CORE + [(n, r, o) for n in (2, 3) for r in (False, True) for o in (False, True) if (n, r, o) not in CORE]]
VCORE = [(0, False), (1, False), (1, True), (2, False), (3, False)]
VARIANTS = [form(n, 'V', r, False) for n, r in VCORE + [(2, True), (3, True)]]


def paired(i, j, core):
    return i < core and j < core or i == j or i == 0 or j == 0


class Slots:
    """which parts of the model are what, by their types"""
    def __init__(self, R):
        self.opt, self.lst, self.rest = {}, {}, []
        for n, ty in R.decl['f']:
            ty = ty.replace(' ', '')
            for k in ('Struct', 'Enum', 'Field', 'Group'):
                if ty in ('Option<%s>' % k, 'Option<Box<%s>>' % k):
                    self.opt[k] = n
                if ty == 'Vec<%s>' % k:
                    self.lst[k] = n
            if ty == 'Vec<usize>':
                self.opt['path'] = n
            if ty == 'usize':
                self.opt['seq'] = n
        if len(self.opt) != 6 or len(self.lst) != 3:
            raise Unknown('the parts of the model')


def lst(*xs):
    return mk('cat', 'v', tuple(mk('one', x) for x in xs))


def base(R, S, G, nested=None):
    """the model between two declarations: at the top, or inside of a group"""
    N = ctor('None')
    other = again(G, 5, 'A', 0)
    kw = {S.opt[k]: N for k in ('Struct', 'Enum', 'Field', 'Group')}
    kw[S.opt['seq']] = Int(1000)
    kw[S.opt['path']] = lst()
    kw[S.lst['Group']] = lst(other)
    if nested is not None:
        outer, own = again(G, 7, 'O', 0), again(G, 9, 'G', 7 if nested else 0)
        kw[S.lst['Group']] = lst(outer, other) if nested else lst(other)
        kw[S.opt['Group']] = ctor('Some', own)
        kw[S.opt['path']] = lst(*([Int(7)] if nested else []), Int(9))
    return R.record(**kw)


def again(G, i, name, parent):
    """some group with an id of its own"""
    d = {'id': Int(i), 'name': mk('word', name), 'parent': Int(parent)}
    return mk('slit', G.a[0], tuple((n, d.get(n, mk('sym', '%s.%s' % (name, n)))) for n, _ in G.a[1]))


def inside(t):
    t = norm(t)
    return t.a[1] if t.op == 'ctor' and short(t.a[0]) == 'Some' and len(t.a) == 2 else None


class Case:
    """one declaration: the model before, the tokens, the model after"""
    def __init__(self, ctx, R, S, lab, own, rec, exp, toks):
        self.ctx, self.R, self.S, self.lab, self.own, self.toks = ctx, R, S, lab, own, toks
        self.before = rec
        self.ok = False
        ctx.count('declarations')
        try:
            self.exp, self.after = R.run(toks, exp, rec)
            self.ok = True
            ctx.ok('accepted', lab)
        except Refused as r:
            ctx.bad('accepted', lab, '`%s` is refused %s' % (spell(toks), r), R.fn.loc())
        except Unknown as r:
            ctx.undecided('accepted', '%s: %s' % (lab, r))

    def get(self, n):
        return part(self.after, n)

    def was(self, n):
        return part(self.before, n)

    def verdict(self, rule, cond, msg):
        if cond is None:
            self.ctx.undecided(rule, self.lab)
        else:
            self.ctx.check(cond, rule, self.lab, '`%s`: %s' % (spell(self.toks), msg), self.R.fn.loc())

    def same(self, rule, *slots):
        for k in slots:
            n = self.S.opt.get(k) or self.S.lst.get(k) or k
            a, b = self.get(n), self.was(n)
            self.ctx.check(a is b, rule, '%s:%s' % (self.lab, k.lower()), '`%s` changes %s: %s' % (spell(self.toks), n, show(a)[:80]), self.R.fn.loc())

    def closed(self, *slots):
        for k in slots:
            a = self.get(self.S.opt[k])
            if a.op != 'ctor':
                self.ctx.undecided('closed', '%s:%s' % (self.lab, k))
            else:
                self.ctx.check(short(a.a[0]) == 'None', 'closed', '%s:%s' % (self.lab, k.lower()), '`%s` leaves a %s open' % (spell(self.toks), k.lower()), self.R.fn.loc())

    def one(self, lists, k):
        """the one thing that was put at the end of a list"""
        n = self.S.lst.get(k, k)
        a = added(self.get(n), self.was(n))
        if a is None:
            self.ctx.undecided('kept', '%s:%s' % (self.lab, n))
            return None
        self.ctx.check(len(a) == 1, 'kept', self.lab, '`%s` puts %d entries into the %s of the model' % (spell(self.toks), len(a), n), self.R.fn.loc())
        return a[0] if len(a) == 1 else None


def own_id(own):
    return Int(0) if own is None else part(own, 'id')


def is_path(t, R, own):
    """the names of the groups around: what the model answers for the group it is in"""
    t = norm(t)
    if t.op == 'mcall' and len(t.a) == 3:
        return t.a[2] is own_id(own)
    if own is None and t.op == 'cat' and items(t) == ():
        return True
    return None


def bound(c, own, what, i):
    """the group around knows the new entity"""
    if own is None:
        g = c.get(c.S.opt['Group'])
        c.verdict('group', g.op == 'ctor' and short(g.a[0]) == 'None' if g.op == 'ctor' else None, 'a group is open afterwards')
        return
    g = inside(c.get(c.S.opt['Group']))
    if g is None:
        c.verdict('group', False if norm(c.get(c.S.opt['Group'])).op == 'ctor' else None, 'the group around is not open any more')
        return
    member(c, g, own, what, i)


def member(c, g, own, what, i):
    for n in ('structs', 'enums', 'groups'):
        a = added(part(g, n), part(own, n))
        if a is None:
            c.ctx.undecided('group', '%s:%s' % (c.lab, n))
        else:
            c.ctx.check(a == ((i,) if n == what else ()), 'group', '%s:%s' % (c.lab, n), '`%s`: the %s of the group around gain %s' % (spell(c.toks), n, [show(x)[:30] for x in a]), c.R.fn.loc())
    for n in ('name', 'parent', 'id'):
        c.ctx.check(part(g, n) is part(own, n), 'group', '%s:%s' % (c.lab, n), '`%s` changes the %s of the group around' % (spell(c.toks), n), c.R.fn.loc())


def fresh(c, x, taken):
    i = part(x, 'id')
    if i is None or i.op != 'int':
        c.verdict('id', None, '')
        return i
    s = c.get(c.S.opt['seq'])
    if s.op != 'int':
        c.verdict('id', None, '')
    else:
        c.verdict('id', 1000 < i.a[0] <= s.a[0] and i.a[0] not in taken, 'an entry has the id %s, which is not its own' % show(i))
    taken.add(i.a[0])
    return i


def type_of(c, x, parts, own, slot):
    """how the type of a field or a variant is decided: built in or looked up"""
    t = [mk('word', p) for p in parts]

    def entity(yes):
        def g(y):
            if y.op == 'index' and items(y.a[0]) is not None and y.a[1].op == 'int' and y.a[1].a[0] < len(items(y.a[0])):
                return items(y.a[0])[y.a[1].a[0]]
            if y.op == 'call' and short(y.a[0]) == 'get_entity' and len(y.a) == 2:
                return ctor('Some', mk('sym', 'BUILTIN')) if yes else ctor('None')
            if y.op == 'is' and y.a[1].op == 'ctor':
                return Bool(short(str(y.a[0])) == short(y.a[1].a[0]))
            if y.op == 'proj' and y.a[2].op == 'ctor' and short(str(y.a[0])) == short(y.a[2].a[0]) and len(y.a[2].a) > 1:
                return y.a[2].a[1]
            return None
        return g
    asked = [y for v in (part(x, 'kind'), part(x, 'types'), part(x, 'ref_type_id')) if v is not None for y in subterms(v)]
    names = [y for y in asked if y.op == 'call' and short(y.a[0]) == 'get_entity' and len(y.a) == 2]
    if len(parts) == 1:
        if not names:
            c.verdict('type', None, '')
        else:
            a = [norm(under(y.a[1], entity(False))) for y in names]
            c.verdict('type', all(strip(y) is t[0] for y in a), 'another word is looked for among the built-in types: %s' % show(a[0])[:60])
        r = norm(under(part(x, 'ref_type_id'), entity(True)))
        c.verdict('type', r.op == 'ctor' and short(r.a[0]) == 'None' if r.op == 'ctor' else None, 'a built-in type refers to an entity')
        k = part(x, slot)
        k = norm(under(k, entity(True))) if k is not None else None
        if slot == 'kind':
            c.verdict('type', None if k is None else strip(k) is t[0], 'its built-in type is kept as %s' % show(k)[:60])
        else:
            c.verdict('type', None if k is None or k.op != 'ctor' else k is ctor('Some', mk('sym', 'BUILTIN')), 'its built-in type is kept as %s' % show(k)[:60])
    r = norm(under(part(x, 'ref_type_id'), entity(False)))
    looks = [y for y in subterms(r) if y.op == 'mcall' and y.a[1] == 'find_by_path' and len(y.a) == 4]
    if not looks:
        c.verdict('type', False if r.op == 'ctor' and short(r.a[0]) == 'None' else None, 'its declared type is not kept')
        return
    c.verdict('type', all(items(strip(y.a[3])) == tuple(t) for y in looks), 'another type is looked up: %s' % show(looks[0].a[3])[:80])
    c.verdict('type', all(y.a[2] in (own_id(own), Int(0)) for y in looks), 'its type is looked up in another group: %s' % show(looks[0].a[2])[:60])
    c.verdict('type', own is None or any(y.a[2] is own_id(own) for y in looks), 'its type is not looked up in the group around')


def named(n, t):
    return [t + x for x in 'gh'[:n - 1]] + [t]


def strip(t):
    t = norm(t)
    while t.op in ('ref', 'deref') or t.op == 'mcall' and len(t.a) == 2 and t.a[1] in ('to_string', 'clone', 'to_owned', 'as_str', 'into'):
        t = t.a[0] if t.op == 'mcall' else t.a[-1]
    return t


def flag(c, x, n, want):
    v = part(x, n)
    c.verdict(n, None if v is None else (v is Bool(want)) if v in (TRUE, FALSE) else None, 'it is %s' % ('not ' + n if want else n))


def structures(ctx, R, S, places):
    for lab, own, rec, exps in places:
        for i, a in enumerate(FIELDS):
            for j, b in enumerate(FIELDS):
                if not paired(i, j, len(CORE)):
                    continue
                for t in ('t2', 't1'):
                    if lab == places[-1][0] and i != j or t == 't1' and a[2] + b[2] not in (2, 4):
                        continue
                    toks = [W('struct'), W('N'), OPEN] + a[1]('t1', 'f1') + b[1](t, 'f2') + [CLOSE]
                    c = Case(ctx, R, S, '%s: struct { %s; %s; }%s' % (lab, a[0], b[0], ' of the same type' if t == 't1' else ''), own, rec, exps[(i + j) % len(exps)][1], toks)
                    if c.ok:
                        struct_of(c, own, [(a, 't1', 'f1'), (b, t, 'f2')])
        for elab, exp in exps:
            c = Case(ctx, R, S, '%s, %s: struct { }' % (lab, elab), own, rec, exp, [W('struct'), W('N'), OPEN, CLOSE])
            if c.ok:
                struct_of(c, own, [])


def struct_of(c, own, fields):
    c.closed('Struct', 'Enum', 'Field')
    c.same('else', 'Group' if own is None else 'path', 'path')
    for k in ('Enum', 'Group'):
        c.same('else', c.S.lst[k])
    x = c.one('structs', 'Struct')
    if x is None:
        return
    taken = set()
    i = fresh(c, x, taken)
    c.verdict('name', strip(part(x, 'name')) is mk('word', 'N'), 'it is kept as %s' % show(part(x, 'name'))[:50])
    c.verdict('parent', part(x, 'parent') is own_id(own), 'the group it is in is %s' % show(part(x, 'parent'))[:50])
    c.verdict('path', is_path(part(x, 'path'), c.R, own), 'the path to it is the one of another group')
    bound(c, own, 'structs', i)
    fs = items(part(x, 'fields'))
    if fs is None:
        c.verdict('fields', None, '')
        return
    names = [strip(part(f, 'name')) for f in fs]
    c.verdict('fields', names == [mk('word', f) for _, _, f in fields], 'its fields are %s' % [show(n)[:30] for n in names])
    if len(fs) != len(fields):
        return
    for f, (form, t, n) in zip(fs, fields):
        fresh(c, f, taken)
        flag(c, f, 'repeated', form[3])
        flag(c, f, 'optional', form[4])
        c.verdict('fields', part(f, 'parent') is i, 'a field belongs to %s' % show(part(f, 'parent'))[:40])
        type_of(c, f, named(form[2], t), own, 'kind')


def enums(ctx, R, S, places):
    for lab, own, rec, exps in places:
        for i, a in enumerate(VARIANTS):
            for j, b in enumerate(VARIANTS):
                if not paired(i, j, len(VCORE)):
                    continue
                for t in ('t2', 't1'):
                    if lab == places[-1][0] and i != j or t == 't1' and a[2] + b[2] not in (2, 4):
                        continue
                    toks = [W('enum'), W('N'), OPEN] + a[1]('t1', 'v1') + b[1](t, 'v2') + [CLOSE]
                    c = Case(ctx, R, S, '%s: enum { %s; %s; }%s' % (lab, a[0], b[0], ' of the same type' if t == 't1' else ''), own, rec, exps[(i + j) % len(exps)][1], toks)
                    if c.ok:
                        enum_of(c, own, [(a, 't1', 'v1'), (b, t, 'v2')])
        for elab, exp in exps:
            c = Case(ctx, R, S, '%s, %s: enum { }' % (lab, elab), own, rec, exp, [W('enum'), W('N'), OPEN, CLOSE])
            if c.ok:
                enum_of(c, own, [])


def enum_of(c, own, variants):
    c.closed('Struct', 'Enum', 'Field')
    c.same('else', 'path')
    for k in ('Struct', 'Group'):
        c.same('else', c.S.lst[k])
    x = c.one('enums', 'Enum')
    if x is None:
        return
    i = fresh(c, x, set())
    c.verdict('name', strip(part(x, 'name')) is mk('word', 'N'), 'it is kept as %s' % show(part(x, 'name'))[:50])
    c.verdict('parent', part(x, 'parent') is own_id(own), 'the group it is in is %s' % show(part(x, 'parent'))[:50])
    c.verdict('path', is_path(part(x, 'path'), c.R, own), 'the path to it is the one of another group')
    bound(c, own, 'enums', i)
    vs = items(part(x, 'variants'))
    if vs is None:
        c.verdict('variants', None, '')
        return
    names = [strip(part(f, 'name')) for f in vs]
    c.verdict('variants', names == [mk('word', f) for _, _, f in variants], 'its variants are %s' % [show(n)[:30] for n in names])
    if len(vs) != len(variants):
        return
    for v, (form, t, n) in zip(vs, variants):
        flag(c, v, 'repeated', form[3])
        if form[2] == 0:
            r = part(v, 'ref_type_id')
            c.verdict('variants', r.op == 'ctor' and short(r.a[0]) == 'None' if r.op == 'ctor' else None, 'a variant without a type refers to one')
        else:
            type_of(c, v, named(form[2], t), own, 'types')


def groups(ctx, R, S, places):
    for lab, own, rec, exps in places:
        for elab, exp in exps:
            c = Case(ctx, R, S, '%s, %s: group {' % (lab, elab), own, rec, exp, [W('group'), W('N'), OPEN])
            if not c.ok:
                continue
            c.closed('Struct', 'Enum', 'Field')
            for k in ('Struct', 'Enum'):
                c.same('else', c.S.lst[k])
            x = inside(c.get(S.opt['Group']))
            if x is None:
                c.verdict('kept', None, '')
                continue
            i = fresh(c, x, set())
            c.verdict('name', strip(part(x, 'name')) is mk('word', 'N'), 'it is kept as %s' % show(part(x, 'name'))[:50])
            c.verdict('parent', part(x, 'parent') is own_id(own), 'the group it is in is %s' % show(part(x, 'parent'))[:50])
            for n in ('structs', 'enums', 'groups'):
                c.verdict('group', items(part(x, n)) == () if items(part(x, n)) is not None else None, 'it starts with %s' % n)
            p = items(c.get(S.opt['path']))
            q = items(c.was(S.opt['path']))
            c.verdict('path', None if p is None else p == q + (i,), 'the groups that are open are %s' % [show(y)[:20] for y in p or ()])
            n = S.lst['Group']
            a = added(c.get(n), c.was(n))
            if own is None:
                c.verdict('kept', None if a is None else a == (), 'there are other groups in the model')
            elif a is None:
                c.verdict('kept', None, '')
            else:
                c.verdict('kept', len(a) == 1, 'the group around is kept %d times' % len(a))
                if len(a) == 1:
                    member(c, a[0], own, 'groups', i)
        if own is None:
            continue
        for elab, exp in exps:
            c = Case(ctx, R, S, '%s, %s: }' % (lab, elab), own, rec, exp, [CLOSE])
            if not c.ok:
                continue
            c.closed('Struct', 'Enum', 'Field')
            for k in ('Struct', 'Enum'):
                c.same('else', c.S.lst[k])
            q, p = items(c.was(S.opt['path'])), items(c.get(S.opt['path']))
            c.verdict('path', None if p is None else p == q[:-1], 'the groups that are open are %s' % [show(y)[:20] for y in p or ()])
            n = S.lst['Group']
            g, l, b = c.get(S.opt['Group']), items(c.get(n)), items(c.was(n))
            outer = [x for x in b if part(x, 'id') is (q[-2] if len(q) > 1 else None)]
            c.verdict('parent', None if g.op != 'ctor' else g is (ctor('Some', outer[0]) if outer else ctor('None')), 'the group that is open afterwards is %s' % show(g)[:60])
            if g.op == 'ctor':
                k = [y for y in l if y is not own] if l is not None else None
                c.verdict('kept', None if l is None else l.count(own) == 1 and k == [y for y in b if y not in outer], 'the groups kept are %s' % [show(part(y, 'name'))[:30] for y in l or ()])


def paths(ctx, P):
    """the path of an entity: the names of the groups around it, the outermost first"""
    n = 0
    for f in store_methods(P):
        I = Interp(P)
        v, st = I.run_fn(f)
        v = norm(v)
        for e in I.events:
            if e.kind != 'call' or e.name not in ('push', 'insert', 'push_front') or not e.loops or not e.args or not str(e.loc[1]).endswith(f.name):
                continue
            x = norm(e.args[-1])
            if x.op != 'field' or x.a[1] != 'name' or x.a[0].op != 'elem':
                continue
            u = e.loops[-1][3]
            li = I.loopinfo.get(u)
            ups = [k for k in li['next'] if norm(li['next'][k]).op == 'field' and norm(li['next'][k]).a[1] == 'parent'] if li else []
            if not li or not ups or li['kind'] == 'for':
                continue
            n += 1
            key = f.qual()
            up = ups[0]
            ctx.check(norm(li['next'][up]) is mk('field', x.a[0], 'parent'), 'path', '%s:next' % key, 'the group after %s is %s' % (show(x)[:40], show(norm(li['next'][up]))[:60]), e.where())
            ph = norm(li['ph'][up])
            el = x.a[0]
            by = None
            for p in e.pc:
                for y in subterms(norm(p)):
                    if y.op == 'exists' and y.a[0] is el.a[-1]:
                        by = y.a[2].op == '==' and set(y.a[2].a) == {mk('field', el, 'id'), ph} or bool(by)
            if by is None:
                ctx.undecided('path', '%s:group' % key)
            else:
                ctx.check(by, 'path', '%s:group' % key, 'the group whose name is taken is not the parent', e.where())
            first = e.name == 'push_front' or e.name == 'insert' and norm(e.args[0]) is Int(0)
            it = mk('iter', u)

            def revs(t, k=0):
                if t is it:
                    return {k % 2}
                out = set()
                for y in (t.a if isinstance(t, T) else t):
                    if isinstance(y, T):
                        if it is y or any(z is it for z in subterms(y)):
                            out |= revs(y, k + (t.op == 'rev') if isinstance(t, T) else k)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T) and any(w is it for w in subterms(z)):
                                out |= revs(z, k + (t.op == 'rev'))
                return out
            r = revs(v)
            if not r:
                ctx.undecided('path', '%s:order' % key)
            else:
                ctx.check(r == ({0} if first else {1}), 'path', '%s:order' % key, 'the names of the groups are not in the order from the outermost to the innermost', e.where())
    ctx.count('walks up the groups', n)
    ctx.floor('walks up the groups', n, 1)


CHARS = [('letter', 'a'), ('digit', '7'), ('underline', '_'), ('blank', ' '), ('newline', '\n'), (';', ';'), ('{', '{'), ('}', '}'), ('?', '?'), ('.', '.'), ('[', '['), (']', ']')]
KIND = {';': 'Semicolon', '{': 'OpenStruct', '}': 'CloseStruct', '?': 'Optional', '.': 'PathSpliter', ']': 'Repeated'}


def words(ctx, P, R):
    """a word is the letters that stand there; what ends it is read next"""
    q = [f for f in functions(P) if f.name == 'next' and f.owner and f.owner.endswith('::protocol::Parser')]
    if not q:
        ctx.missing('the reading of the next token')
        return
    fn = q[0]
    I = Interp(P)
    v, st = I.run_fn(fn)
    loops = list(I.loopinfo.items())
    if len(loops) != 1 or loops[0][1]['kind'] != 'for':
        ctx.undecided('word', 'the loop over the characters')
        return
    u, li = loops[0]
    SK = [k for k in li['init'] if norm(li['init'][k]) is Str('')]
    CK = [k for k in li['init'] if norm(li['init'][k]) is Int(0)]
    el = [x for c in li['conds'] for y in c for x in subterms(norm(y)) if x.op == 'elem']
    if len(SK) != 1 or not el:
        ctx.undecided('word', 'the text of the word')
        return
    STR, ch = norm(li['ph'][SK[0]]), el[0]
    nxt = norm(li['next'].get(SK[0], STR))
    cnt = norm(li['ph'][CK[0]]) if len(CK) == 1 else None
    if cnt is not None:
        ctx.check(ahead(li['next'][CK[0]], cnt) == 1, 'word', 'count', 'a character does not move the reading position by one', fn.loc())

    def facts(c, empty):
        def g(x):
            if x is ch:
                return mk('char', c)
            if x.op == '==' and any(y.op == 'len' and y.a[0] is STR for y in x.a) and Int(0) in x.a:
                return Bool(empty)
            if x.op == '<' and x.a[0] is Int(0) and x.a[1].op == 'len' and x.a[1].a[0] is STR:
                return Bool(not empty)
            if x.op == '==' and all(y.op in ('char', 'str') for y in x.a):
                return Bool(x.a[0].a[0] == x.a[1].a[0])
            if x.op in ('is', 'proj') and x.a[-1].op == 'mcall' and x.a[-1].a[1] in ('next', 'first') and any(y is STR for y in subterms(x.a[-1].a[0])):
                # a word has no brackets in it
                return Bool(short(x.a[0]) == ('None' if empty else 'Some')) if x.op == 'is' else mk('char', 'a')
            if x.op == 'mcall' and len(x.a) == 2 and x.a[0].op == 'char':
                m, d = x.a[1], x.a[0].a[0]
                t = {'is_ascii': True, 'is_ascii_digit': d.isdigit(), 'is_numeric': d.isdigit(), 'is_ascii_whitespace': d.isspace(), 'is_whitespace': d.isspace(),
                     'is_ascii_alphanumeric': d.isalnum(), 'is_alphanumeric': d.isalnum(), 'is_ascii_alphabetic': d.isalpha(), 'is_alphabetic': d.isalpha(), 'is_ascii_punctuation': not d.isalnum() and not d.isspace()}.get(m)
                return None if t is None else Bool(t)
            if x.op == 'exists' and items(x.a[0]) is not None:
                e = mk('elem', x.a[1], x.a[0])
                return Or(*[norm(under(x.a[2], lambda y: it if y is e else None)) for it in items(x.a[0])])
            return None
        return g

    cont = Or(*[And(*[norm(x) for x in c]) for c in li['conds']])
    for lab, c in CHARS:
        for empty in (True, False):
            k = '%s %s' % (lab, 'first' if empty else 'in a word')
            g = facts(c, empty)
            goes = norm(under(cont, g))
            ctx.count('characters')
            text = None
            if goes is TRUE or goes is not FALSE and sat(Not(goes)) is False:
                n = norm(under(nxt, g))
                text = 'skip' if n is STR or n.op == 'cat' and flat(n) == [STR] else 'append' if n.op == 'cat' and any(y is STR for y in subterms(n)) and len(flat(n)) == 2 and flat(n)[1] is mk('char', c) else 'other'
            elif goes is not FALSE and sat(goes) is not False:
                ctx.undecided('word', k)
                continue
            res = None
            if text is None:
                for pc, val in returns(li):
                    w = norm(under(pc, g))
                    if w is FALSE or sat(w) is False:
                        continue
                    if w is not TRUE and sat(Not(w)) is not False:
                        res = 'unsure'
                        break
                    val = norm(under(norm(val), g))
                    if is_ok(val):
                        t = val.a[1]
                        res = (short(t.a[0]), t)
                    else:
                        res = ('error', None)
                    break
            if text == 'other' or res in (None, 'unsure') and text is None:
                ctx.undecided('word', k)
                continue
            want = expected(lab, c, empty)
            got = text or (res[0])
            ctx.check(got == want, 'word', k, 'the character %r %s is read as %s, not as %s' % (c, 'at the start of a token' if empty else 'inside of a word', got, want), fn.loc())
            if got == 'Word' == want:
                t = res[1]
                pay = t.a[1].a if t.a[1].op == 'tuple' else t.a[1:]
                ctx.check(any(y is STR for y in pay), 'word', k + ':text', 'the text of the word is %s' % show(pay[0])[:60], fn.loc())
                off = [y for y in pay if cnt is not None and any(z is cnt for z in subterms(y))]
                if off:
                    o = norm(off[0])
                    keep = ahead(o, cnt) == 0
                    ctx.check(keep or c.isspace(), 'word', k + ':rest', 'the character that ends a word is not read as the next token', fn.loc())
                if not c.isspace():
                    seen = [y for y in pay if y.op == 'ctor' and short(y.a[0]) in ('Some', 'None')]
                    if seen:
                        ctx.check(seen[0] is ctor('Some', mk('char', c)), 'word', k + ':end', 'what ends a word is told as %s' % show(seen[0])[:40], fn.loc())
            elif got in KIND.values() and got == want and cnt is not None:
                o = norm(res[1].a[1])
                ctx.check(ahead(o, cnt) == 1, 'word', k + ':rest', 'the reading goes on %s characters after the start of the token' % show(o)[:40], fn.loc())


def ahead(t, cnt):
    """how far a position is from the one at the start of the step"""
    t = norm(t)
    if t is cnt:
        return 0
    if t.op == 'bin' and t.a[0] in ('+', '-') and t.a[2].op == 'int':
        n = ahead(t.a[1], cnt)
        return None if n is None else n + t.a[2].a[0] * (1 if t.a[0] == '+' else -1)
    return None


def expected(lab, c, empty):
    if lab in ('letter', 'underline'):
        return 'append'
    if lab == 'digit':
        return 'error' if empty else 'append'
    if c.isspace():
        return 'skip' if empty else 'Word'
    if c == '[':
        return 'skip' if empty else 'Word'
    if c == ']':
        return 'Repeated' if empty else 'error'
    return KIND[c] if empty else 'Word'


def flat(t):
    out = []
    for x in (t.a[1] if isinstance(t.a[1], tuple) else t.a[1:]):
        if not isinstance(x, T):
            out.append(x)
        elif x.op == 'cat':
            out += flat(x)
        elif x is not Str(''):
            out.append(x)
    return out


def is_ok(v):
    return v.op == 'ctor' and short(v.a[0]) == 'Ok'


def returns(li):
    for pc, val, _, _ in li['rets']:
        yield And(*[norm(x) for x in pc]), val


def begins(ctx, P, R, S):
    """the model is empty at the start"""
    f = [g for g in functions(P) if g.name == 'new' and g.owner == store_methods(P)[0].owner]
    if not f:
        ctx.undecided('start', 'the empty model')
        return
    I = Interp(P)
    v, st = I.run_fn(f[0])
    v = norm(v)
    for k in ('Struct', 'Enum', 'Group'):
        l = part(v, S.lst[k])
        ctx.check(l is not None and items(l) == (), 'start', k.lower(), 'the model starts with %s' % show(l)[:40], f[0].loc())
    for k in ('Struct', 'Enum', 'Group', 'Field'):
        l = part(v, S.opt[k])
        ctx.check(l is not None and l.op == 'ctor' and short(l.a[0]) == 'None', 'start', 'open ' + k.lower(), 'the model starts with an open %s' % k.lower(), f[0].loc())


def a_group(P):
    """some group"""
    for k, (n, m, f) in P.items.items():
        if n.get('k') == 'struct' and n['n'] == 'Group' and '/protocol/' in f:
            return mk('slit', k, tuple((x, mk('sym', 'G.' + x)) for x, _ in n['f']))
    raise Unknown('what a group is')


def P03(ctx):
    P = subject.cli()
    try:
        R = Reader(P)
        S = Slots(R)
        G = a_group(P)
    except Unknown as u:
        ctx.undecided('reader', str(u))
        return
    root, grp, nest = base(R, S, G), base(R, S, G, False), base(R, S, G, True)
    own = [inside(part(x, S.opt['Group'])) for x in (root, grp, nest)]

    def to(toks, rec, exp):
        try:
            return R.run(toks, exp, rec)[0]
        except (Refused, Unknown):
            return None
    after = {}
    at = {'at the start': R.start}
    s = to([W('struct'), W('N'), OPEN, CLOSE], root, R.start)
    e = to([W('enum'), W('N'), OPEN, CLOSE], root, R.start)
    g1 = to([W('group'), W('N'), OPEN], root, R.start)
    g2 = to([CLOSE], grp, g1) if g1 else None
    later = [(n, x) for n, x in (('after a struct', s), ('after an enum', e), ('after a group', g2)) if x]
    tops = [('at the start', R.start)] + later
    ins = ([('at the start of it', g1)] if g1 else []) + later
    if len(tops) < 4 or not g1:
        ctx.bad('accepted', 'entities', 'a struct, an enum or a group with nothing in it is refused', R.fn.loc())
    places = [('top', None, root, tops), ('group', own[1], grp, ins), ('inner group', own[2], nest, ins)]
    structures(ctx, R, S, places)
    enums(ctx, R, S, places)
    groups(ctx, R, S, places)
    begins(ctx, P, R, S)
    paths(ctx, P)
    words(ctx, P, R)
    ctx.floor('declarations', ctx.scope.get('declarations', 0) if hasattr(ctx, 'scope') else 0, 60)
