"""String grammars of the generator and their instances.

Interp summarises a generator function as a term built from literals, holes, alternatives and repetitions: the
grammar of everything it can emit, for every model. `Gram` keeps these summaries and derives from them the text
emitted for a schematic model, i.e. one whose lists hold one member per case the grammar tells apart and whose names
and ids are fresh tokens. The derived text is parsed and analysed like any other source; nothing is compiled or run.
"""
import functools
from .interp import Interp
from .program import UNKNOWN
from .terms import *


class Stuck(Exception):
    pass


class Obj(object):
    """A schematic record."""

    def __init__(self, ty, **f):
        self.ty = ty
        self.f = dict(f)

    def __repr__(self):
        return '<%s %s>' % (self.ty, self.f.get('name', ''))

    def __getattr__(self, n):
        try:
            return self.__dict__['f'][n]
        except KeyError:
            raise AttributeError(n)


class Ct(object):
    def __init__(self, name, *a):
        self.name, self.a = name, a

    def __repr__(self):
        return '%s%r' % (self.name, self.a)

    def __eq__(self, o):
        return isinstance(o, Ct) and o.name == self.name and o.a == self.a

    def __hash__(self):
        return hash(self.name)


def Some(x): return Ct('Some', x)
None_ = Ct('None')
Undef = Ct('undefined')


class Gram(object):
    def __init__(self, prog, opaque=None, hooks=None):
        self.p = prog
        self.opaque = opaque or (lambda fn: False)
        self.cache = {}
        self.keeps = set()      # opaque functions that leave what they are given as it was
        self.calls = {}         # name -> python handler(args) for opaque functions
        self.hooks = hooks or {}

    def fn(self, qual, file=None):
        c = [f for f in self.p.all_fns if f.qual() == qual and (file is None or file in f.file)]
        uniq = {(f.file, f.node.get('l')): f for f in c}
        if len(uniq) != 1:
            return None
        return list(uniq.values())[0]

    def summary(self, fn):
        if fn not in self.cache:
            I = Interp(self.p, opaque=lambda f, root=fn: f is not root and self.opaque(f))
            I.hooks.update(self.hooks)
            I.keep_dead = True
            v, st = I.run_fn(fn)
            ps = [prm['pat'].get('n') or 'p%d' % i for i, prm in enumerate(fn.node['params'])]
            self.cache[fn] = (I, ps, v)
        return self.cache[fn]

    def call(self, fn, selfv, args, depth=0):
        if depth > 40:
            raise Stuck('recursion')
        I, ps, v = self.summary(fn)
        env = {mk('sym', 'self'): selfv}
        for n, a in zip(ps, args):
            env[mk('sym', n)] = a
        return Inst(self, I, fn, depth).ev(v, env)

    def events(self, fn, kind=None, name=None):
        I, ps, v = self.summary(fn)
        return [e for e in I.events if (kind is None or e.kind == kind) and (name is None or e.name == name)]


@functools.lru_cache(None)
def free(t):
    return tuple(x for x in subterms(t) if x.op in ('elem', 'idx', 'lv', 'sym', 'iter', 'some'))


class Inst(object):
    def __init__(self, g, I, fn, depth):
        self.g, self.I, self.f, self.depth = g, I, fn, depth
        self.steps = 0
        self.memo = {}

    def ev(self, t, env):
        self.steps += 1
        if self.steps > 3000000:
            raise Stuck('budget')
        if t in env:
            return env[t]
        key = None
        if t.op in ('for', 'lout', 'cat', 'mcall'):
            vs = free(t)
            b = [(v, env[v]) for v in vs if v in env]
            key = (t, tuple((v, x if isinstance(x, (str, int)) else id(x)) for v, x in b))
            if key in self.memo:
                return self.memo[key][0]
        m = getattr(self, 'o_' + {'==': 'eq', '<': 'lt', 'not': 'not_', 'and': 'and_', 'or': 'or_', 'is': 'is_', 'for': 'for_', 'int': 'const', 'str': 'const', 'bool': 'const', 'char': 'const'}.get(t.op, t.op), None)
        if m is None:
            raise Stuck('%s: %s' % (t.op, show(t)[:120]))
        r = m(t, env)
        if isinstance(r, str):
            if key is not None:
                self.memo[key] = (r, b)     # b keeps what id() spoke of alive
        return r

    def o_const(self, t, env):
        return t.a[0]

    def o_never(self, t, env):
        raise Stuck('the generator stops here')

    def o_unit(self, t, env):
        return ()

    def o_sym(self, t, env):
        it = self.g.p.items.get(t.a[0])
        raise Stuck('free symbol %s' % t.a[0])

    def o_ctor(self, t, env):
        return Ct(t.a[0].split('::')[-1], *[self.ev(x, env) for x in t.a[1:]])

    def o_tuple(self, t, env):
        return tuple(self.ev(x, env) for x in t.a)

    def o_list(self, t, env):
        return [self.ev(x, env) for x in t.a]

    def o_field(self, t, env):
        b = self.ev(t.a[0], env)
        if isinstance(b, Obj):
            if t.a[1] in b.f:
                return b.f[t.a[1]]
            raise Stuck('no field %s in %s' % (t.a[1], b.ty))
        if isinstance(b, tuple) and str(t.a[1]).isdigit():
            return b[int(t.a[1])]
        raise Stuck('field %s of %r' % (t.a[1], type(b)))

    def o_proj(self, t, env):
        b = self.ev(t.a[2], env)
        if t.a[0] in ('Ok', 'Err', 'Some', 'None'):
            b = collected(b, t.a[0])
        if isinstance(b, Ct) and b.name == t.a[0]:
            return b.a[t.a[1]]
        raise Stuck('proj %s of %r' % (t.a[0], b))

    def o_is_(self, t, env):
        b = self.ev(t.a[1], env)
        if t.a[0] in ('Ok', 'Err', 'Some', 'None'):
            b = collected(b, t.a[0])
        if isinstance(b, Ct):
            return b.name == t.a[0]
        if t.a[0] in FAM:
            return False
        if isinstance(b, Obj) and b.ty == t.a[0]:
            return True
        raise Stuck('is %s of %r' % (t.a[0], b))

    def o_not_(self, t, env):
        return not self.truth(t.a[0], dict(env))

    def truth(self, c, env):
        """Value of a condition; what a true `exists` found is bound in env."""
        if c.op == 'and':
            # a part that has no value where another one fails does not matter
            gap = None
            for x in c.a:
                try:
                    if not self.truth(x, env):
                        return False
                except Stuck as s:
                    gap = gap or s
            if gap:
                raise gap
            return True
        if c.op == 'or':
            gap = None
            for x in c.a:
                e = dict(env)
                try:
                    if self.truth(x, e):
                        return True
                except Stuck as s:
                    gap = gap or s
            if gap:
                raise gap
            return False
        if c.op == 'not':
            if c.a[0].op == 'exists':
                return not self.truth(c.a[0], env)
            return not self.truth(c.a[0], dict(env))
        if c.op == 'exists':
            coll, lvl, cond = c.a
            if mk('elem', lvl, coll) in env:
                # a search for the member found before
                e = dict(env)
                if self.truth(cond, e):
                    env.update(e)
                    return True
            items = self.items(coll, env)
            for i, x in enumerate(items):
                e = dict(env)
                e[mk('elem', lvl, coll)] = x
                e[mk('idx', lvl, coll)] = i
                if self.truth(cond, e):
                    env.update(e)
                    return True
            return False
        v = self.ev(c, env)
        if not isinstance(v, bool):
            raise Stuck('condition %r' % (v,))
        return v

    def o_and_(self, t, env): return self.truth(t, env)
    def o_or_(self, t, env): return self.truth(t, env)
    def o_exists(self, t, env): return self.truth(t, env)

    def o_eq(self, t, env):
        a, b = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(a, Ct) != isinstance(b, Ct):
            raise Stuck('compare %r %r' % (a, b))
        return a == b

    def o_lt(self, t, env):
        return self.ev(t.a[0], env) < self.ev(t.a[1], env)

    def o_ite(self, t, env):
        e = dict(env)
        if self.truth(t.a[0], e):
            return self.ev(t.a[1], e)
        if t.a[0].op == 'not':
            pass
        return self.ev(t.a[2], e if t.a[0].op in ('not', 'and', 'or') and False else dict(env))

    def o_len(self, t, env):
        v = self.ev(t.a[0], env)
        return len(v)

    def o_cast(self, t, env):
        return self.ev(t.a[1], env)

    def o_bin(self, t, env):
        a, b = self.ev(t.a[1], env), self.ev(t.a[2], env)
        if isinstance(a, str) or isinstance(b, str):
            if t.a[0] == '+':
                return self.text(a) + self.text(b)
        f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b}.get(t.a[0])
        if f is None:
            raise Stuck('bin ' + t.a[0])
        return f()

    def o_repeat(self, t, env):
        return self.ev(t.a[0], env) * self.ev(t.a[1], env)

    def text(self, v):
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, (str, int)):
            return str(v)
        if isinstance(v, list) and all(isinstance(x, str) for x in v):
            return ''.join(v)       # characters or parts collected into a text
        raise Stuck('text of %r' % (v,))

    def o_cat(self, t, env):
        if t.a[0] == 's':
            return ''.join(self.stext(p, env) for p in t.a[1])
        out = []
        for p in t.a[1]:
            out.extend(self.vpart(p, env))
        return out

    def stext(self, p, env):
        if p.op == 'for':
            return ''.join(self.rounds(p, env, lambda b, e: self.stext(b, e)))
        return self.text(self.ev(p, env))

    def vpart(self, p, env):
        if p.op == 'one':
            return [self.ev(p.a[0], env)]
        if p.op == 'for':
            out = []
            for r in self.rounds(p, env, lambda b, e: self.vpart(b, e)):
                out.extend(r)
            return out
        if p.op == 'ite':
            e = dict(env)
            return self.vpart(p.a[1] if self.truth(p.a[0], e) else p.a[2], e)
        if p.op == 'cat':
            return self.o_cat(p, env)
        v = self.ev(p, env)
        if isinstance(v, (list, tuple)):
            return list(v)
        raise Stuck('vector part %r' % (v,))

    def o_for_(self, t, env):
        k = t.a[2]
        if seqk(k) == 's':
            return self.stext(t, env)
        return self.vpart(t, env)

    def rounds(self, t, env, f):
        lvl, coll, body, brk = t.a[:4]
        uids = {x.a[0] for x in subterms(body) if x.op == 'lv' and x not in env}
        lis = [self.I.loopinfo[u] for u in uids if u in self.I.loopinfo and self.I.loopinfo[u]['base'] is coll and self.I.loopinfo[u]['level'] == lvl and (coll.op != 'iter' or coll.a[0] != u)]
        states = [self.demand(li, body, env) for li in lis]

        def rnd(e):
            for li, s in zip(lis, states):
                for k, v in s.items():
                    e[li['ph'][k]] = v
            r = f(body, e)
            states[:] = [{k: (self.ev(li['next'][k], e) if li['next'].get(k) is not None else s[k]) for k in s} for li, s in zip(lis, states)]
            return r
        if coll.op == 'iter':
            out = self.while_rounds(coll.a[0], env, rnd)[0]
        else:
            out = []
            for i, x in enumerate(self.items(coll, env)):
                e = dict(env)
                e[mk('elem', lvl, coll)] = x
                e[mk('idx', lvl, coll)] = i
                for li, s in zip(lis, states):
                    for k, v in s.items():
                        e[li['ph'][k]] = v
                if self.truth(brk, dict(e)) if isinstance(brk, T) and brk.op != 'revacc' else False:
                    break
                out.append(rnd(e))
        if len(t.a) > 4:
            out.reverse()
        return out

    def demand(self, li, body, env):
        """Initial values of the carried variables body depends on."""
        need, todo = set(), [body]
        while todo:
            b = todo.pop()
            for x in subterms(b):
                for k, p in li['ph'].items():
                    if x is p and k not in need:
                        need.add(k)
                        if li['next'].get(k) is not None:
                            todo.append(li['next'][k])
        return {k: self.ev(li['init'][k], env) for k in need}

    def while_rounds(self, uid, env, f):
        li = self.I.loopinfo.get(uid)
        if li is None:
            raise Stuck('loop %s' % uid)
        state = {k: self.ev(v, env) for k, v in li['init'].items()}
        out = []
        for _ in range(200):
            e = dict(env)
            for k, v in state.items():
                e[li['ph'][k]] = v
            # leaves the loop?
            if li['brk'] and any(self.truth(c, dict(e)) for c in li['brk']):
                return out, state, e
            if li['exitpc'] is not None and all(self.truth(c, dict(e)) for c in li['exitpc']):
                return out, state, e
            ok = True
            for c in li['nextpc']:
                if not self.truth(c, e):
                    ok = False
                    break
            if not ok:
                return out, state, e
            out.append(f(e))
            ns = {}
            for k in state:
                n = li['next'].get(k)
                if n is None:
                    raise Stuck('loop state')
                ns[k] = self.ev(n, e) if n is not li['ph'][k] else state[k]
            state = ns
        raise Stuck('loop does not settle')

    def o_lout(self, t, env):
        uid, name = t.a[0], t.a[1]
        base = t.a[4]
        li = self.I.loopinfo.get(uid)
        if li is None:
            raise Stuck('loop %s' % uid)
        k = [k for k in li['ph'] if '.'.join(k) == name]
        if not k:
            raise Stuck('loop var %s' % name)
        if base.op == 'iter':
            _, state, e = self.while_rounds(uid, env, lambda e: None)
            return state[k[0]]
        lvl = li['level']
        state = self.demand(li, li['ph'][k[0]], env)
        for i, x in enumerate(self.items(base, env)):
            e = dict(env)
            for q, v in state.items():
                e[li['ph'][q]] = v
            e[mk('elem', lvl, base)] = x
            e[mk('idx', lvl, base)] = i
            if li['brk'] and any(self.truth(c, dict(e)) for c in li['brk']):
                break
            state = {q: (self.ev(li['next'][q], e) if li['next'].get(q) is not None else state[q]) for q in state}
        return state[k[0]]

    def items(self, coll, env):
        o = coll.op
        if coll in env:
            v = env[coll]
        elif o == 'rev':
            v = list(reversed(self.items(coll.a[0], env)))
        elif o == 'skip':
            v = self.items(coll.a[0], env)[self.ev(coll.a[1], env):]
        elif o == 'take':
            v = self.items(coll.a[0], env)[:self.ev(coll.a[1], env)]
        elif o == 'enumerate':
            v = list(enumerate(self.items(coll.a[0], env)))
        elif o == 'chain':
            v = self.items(coll.a[0], env) + self.items(coll.a[1], env)
        elif o == 'range':
            v = list(range(self.ev(coll.a[0], env), self.ev(coll.a[1], env) + (1 if coll.a[2] else 0)))
        else:
            v = self.ev(coll, env)
        if isinstance(v, Ct):
            return [] if v.name == 'None' else list(v.a)
        if isinstance(v, dict):
            return list(v.items())
        if not isinstance(v, (list, tuple)):
            raise Stuck('not a collection: %r' % (v,))
        return list(v)

    def o_rev(self, t, env): return self.items(t, env)
    o_skip = o_take = o_enumerate = o_chain = o_range = o_rev

    def o_joined(self, t, env):
        sep = self.ev(t.a[1], env)
        return sep.join(self.text(x) for x in self.items(t.a[0], env))

    def o_index(self, t, env):
        b, i = self.ev(t.a[0], env), t.a[1]
        if i.op == 'range':
            lo = 0 if i.a[0].op == 'nolo' else self.ev(i.a[0], env)
            hi = len(b) if i.a[1].op == 'nohi' else self.ev(i.a[1], env) + (1 if i.a[2] else 0)
            return b[lo:hi]
        i = self.ev(i, env)
        if isinstance(b, (list, str)) and not 0 <= i < len(b):
            raise Stuck('index %r' % (i,))
        return b[i]

    def o_popped(self, t, env): return list(self.ev(t.a[0], env))[:-1]
    def o_sorted(self, t, env): return sorted(self.ev(t.a[0], env))
    def o_spread(self, t, env): return self.ev(t.a[0], env)
    def o_flt(self, t, env): return t.a[0]
    def o_zip(self, t, env): return list(zip(self.items(t.a[0], env), self.items(t.a[1], env)))
    def o_chars(self, t, env): return list(self.ev(t.a[0], env))
    def o_lines(self, t, env): return self.ev(t.a[0], env).splitlines()
    def o_rep(self, t, env): return [self.ev(t.a[0], env)] * self.ev(t.a[1], env)
    def o_mut(self, t, env):
        v = self.ev(t.a[0], env)
        if t.a[1] == 'next' and isinstance(v, (list, str)):
            return list(v)[1:]
        if isinstance(v, list) and t.a[1] in ('truncate', 'dedup', 'drain', 'reverse', 'sort', 'sort_unstable', 'swap_remove'):
            args = [x for x in t.a[2:] if isinstance(x, T) and x.op != 'uid']
            if t.a[1] == 'truncate':
                return v[:self.ev(args[0], env)]
            if t.a[1] == 'reverse':
                return v[::-1]
            if t.a[1].startswith('sort') and all(isinstance(x, str) for x in v):
                return sorted(v)
            if t.a[1] == 'dedup':
                return [x for i, x in enumerate(v) if not i or v[i - 1] != x]
            if t.a[1] == 'drain' and args and args[0].op == 'range':
                lo, hi = [self.ev(x, env) if isinstance(x, T) else x for x in args[0].a[:2]]
                return v[:lo or 0] + (v[hi:] if hi is not None else [])
        if str(t.a[1]).split('::')[-1] in self.g.keeps:
            return v
        raise Stuck('mut %s' % t.a[1])

    def o_keys(self, t, env): return list(self.ev(t.a[0], env).keys())
    def o_values(self, t, env): return list(self.ev(t.a[0], env).values())
    def o_emptymap(self, t, env): return {}

    def o_del(self, t, env):
        d, k = self.ev(t.a[0], env), self.ev(t.a[1], env)
        if isinstance(d, list) and isinstance(k, int) and 0 <= k < len(d):
            return d[:k] + d[k + 1:]
        if isinstance(d, dict):
            return {x: y for x, y in d.items() if x != k}
        raise Stuck('del')

    def o_drained(self, t, env):
        v, r = self.ev(t.a[0], env), t.a[1]
        if isinstance(v, list) and r.op == 'range' and all(isinstance(x, T) for x in r.a[:2]):
            lo, hi = self.ev(r.a[0], env), self.ev(r.a[1], env)
            if isinstance(lo, int) and isinstance(hi, int):
                return v[:lo] + v[hi + (1 if len(r.a) > 2 and r.a[2] is True else 0):]
        raise Stuck('drained')

    def o_ins(self, t, env):
        d = self.ev(t.a[0], env)
        if isinstance(d, list):
            d = list(d)
            d[self.ev(t.a[1], env)] = self.ev(t.a[2], env)
            return d
        d = dict(d)
        d[self.ev(t.a[1], env)] = self.ev(t.a[2], env)
        return d

    def o_upd(self, t, env):
        b = self.ev(t.a[0], env)
        if not isinstance(b, Obj):
            raise Stuck('update of %r' % (b,))
        o = Obj(b.ty, **b.f)
        for n, v in t.a[1]:
            o.f[n if not isinstance(n, T) else n.a[0]] = self.ev(v, env)
        return o

    def o_un(self, t, env):
        v = self.ev(t.a[1], env)
        if t.a[0] == '-':
            return -v
        raise Stuck('unary ' + str(t.a[0]))

    def o_dbg(self, t, env):
        v = self.ev(t.a[0], env)
        return '"%s"' % v if isinstance(v, str) else self.text(v)

    def o_slit(self, t, env):
        # struct literal: (type, ((name, value)...))
        fs = {}
        for kv in t.a[1]:
            fs[kv[0] if not isinstance(kv[0], T) else kv[0].a[0]] = self.ev(kv[1], env)
        return Obj(str(t.a[0]).split('::')[-1], **fs)

    def o_found(self, t, env):
        r, lvl, q = t.a
        for i, x in enumerate(self.items(r, env)):
            e = dict(env)
            e[mk('elem', lvl, r)] = x
            e[mk('idx', lvl, r)] = i
            if self.truth(q, e):
                return x
        raise Stuck('found')

    def o_call(self, t, env):
        name = t.a[0]
        h = self.g.calls.get(name) or self.g.calls.get(name.split('::')[-1])
        if h:
            return h(*[self.ev(x, env) for x in t.a[1:]])
        fn = self.g.p.fns.get(name)
        if fn is None:
            c = [f for f in self.g.p.all_fns if f.qual() == name.split('::')[-1]]
            c = list({(f.file, f.node.get('l')): f for f in c}.values())
            fn = c[0] if len(c) == 1 else None
        if fn is None and name in ('std::cmp::min', 'std::cmp::max', 'cmp::min', 'cmp::max', 'core::cmp::min', 'core::cmp::max'):
            return (min if name.endswith('min') else max)(*[self.ev(x, env) for x in t.a[1:]])
        if fn is None:
            raise Stuck('call %s' % name)
        return self.g.call(fn, None, [self.ev(x, env) for x in t.a[1:]], self.depth + 1)

    STR = {'to_lowercase': lambda s: s.lower(), 'to_uppercase': lambda s: s.upper(), 'trim': lambda s: s.strip(),
           'contains': lambda s, x: x in s, 'starts_with': lambda s, x: s.startswith(x), 'ends_with': lambda s, x: s.endswith(x),
           'replace': lambda s, a, b: s.replace(a, b), 'split': lambda s, x: s.split(x), 'to_owned': lambda s: s, 'into': lambda s: s,
           'trim_end': lambda s: s.rstrip(), 'trim_start': lambda s: s.lstrip(), 'is_empty': lambda s: not s, 'len': lambda s: len(s),
           'trim_matches': lambda s, x: s.strip(x), 'trim_end_matches': lambda s, x: s[:-len(x)] if s.endswith(x) else s,
           'strip_suffix': lambda s, x: Some(s[:-len(x)]) if s.endswith(x) else None_, 'strip_prefix': lambda s, x: Some(s[len(x):]) if s.startswith(x) else None_,
           'next': lambda s: Some(s[0]) if s else None_, 'as_str': lambda s: s, 'chars': list,
           'repeat': lambda s, n: s * n, 'as_bytes': lambda s: s, 'to_string': lambda s: s, 'as_ref': lambda s: s, 'clone': lambda s: s,
           'to_ascii_lowercase': lambda s: s.lower(), 'to_ascii_uppercase': lambda s: s.upper(), 'eq': lambda s, x: s == x, 'ne': lambda s, x: s != x,
           'eq_ignore_ascii_case': lambda s, x: s.lower() == x.lower(), 'replacen': lambda s, a, b, n: s.replace(a, b, n), 'rsplit': lambda s, x: s.split(x)[::-1],
           'splitn': lambda s, n, x: s.split(x, n - 1), 'rsplitn': lambda s, n, x: s.rsplit(x, n - 1)[::-1], 'split_whitespace': lambda s: s.split(), 'lines': lambda s: s.splitlines(),
           'find': lambda s, x: Some(s.find(x)) if x in s else None_, 'rfind': lambda s, x: Some(s.rfind(x)) if x in s else None_,
           'split_once': lambda s, x: Some(tuple(s.split(x, 1))) if x in s else None_, 'rsplit_once': lambda s, x: Some(tuple(s.rsplit(x, 1))) if x in s else None_,
           'trim_start_matches': lambda s, x: lstrip(s, x), 'nth': lambda s, i: Some(s[i]) if i < len(s) else None_, 'last': lambda s: Some(s[-1]) if s else None_,
           'char_indices': lambda s: list(enumerate(s)), 'bytes': list, 'count': len, 'is_ascii_uppercase': lambda s: 'A' <= s <= 'Z', 'is_ascii_lowercase': lambda s: 'a' <= s <= 'z',
           'is_uppercase': lambda s: s.isupper(), 'is_lowercase': lambda s: s.islower(), 'is_alphanumeric': lambda s: s.isalnum(), 'is_ascii_digit': lambda s: '0' <= s <= '9', 'is_numeric': lambda s: s.isnumeric()}
    INT = {'min': min, 'max': max, 'pow': pow, 'abs': abs, 'saturating_sub': lambda a, b: max(a - b, 0), 'wrapping_add': lambda a, b: a + b, 'saturating_add': lambda a, b: a + b, 'to_string': str,
           'checked_sub': lambda a, b: Some(a - b) if a >= b else None_, 'checked_add': lambda a, b: Some(a + b), 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'abs_diff': lambda a, b: abs(a - b),
           'rem_euclid': lambda a, b: a % b}
    BOOL = {'then_some': lambda b, v: Some(v) if b else None_}
    SEQ = {'len': len, 'is_empty': lambda v: not v, 'to_vec': list, 'first': lambda v: Some(v[0]) if v else None_, 'last': lambda v: Some(v[-1]) if v else None_,
           'get': lambda v, i: Some(v[i]) if isinstance(i, int) and 0 <= i < len(v) else None_, 'contains': lambda v, x: x in v,
           'concat': lambda v: ''.join(v), 'join': lambda v, s: s.join(v), 'iter': list, 'into_iter': list, 'clone': list, 'count': len, 'next': lambda v: Some(v[0]) if v else None_, 'as_str': lambda v: ''.join(v), 'pop': lambda v: Some(v[-1]) if v else None_,
           'rev': lambda v: list(reversed(v)), 'skip': lambda v, n: v[n:], 'take': lambda v, n: v[:n], 'step_by': lambda v, n: v[::n], 'nth': lambda v, i: Some(v[i]) if i < len(v) else None_,
           'split_first': lambda v: Some((v[0], v[1:])) if v else None_, 'split_last': lambda v: Some((v[-1], v[:-1])) if v else None_, 'as_slice': list, 'to_owned': list,
           'min': lambda v: Some(min(v)) if v else None_, 'max': lambda v: Some(max(v)) if v else None_, 'sum': sum, 'windows': lambda v, n: [v[i:i + n] for i in range(len(v) - n + 1)],
           'chunks': lambda v, n: [v[i:i + n] for i in range(0, len(v), n)], 'starts_with': lambda v, x: v[:len(x)] == x, 'ends_with': lambda v, x: not x or v[-len(x):] == x,
           'split_at': lambda v, n: (v[:n], v[n:]), 'dedup': lambda v: [x for i, x in enumerate(v) if not i or v[i - 1] != x], 'enumerate': lambda v: list(enumerate(v)), 'collect': list}
    MAP = {'get': lambda d, k: Some(d[k]) if k in d else None_, 'contains_key': lambda d, k: k in d, 'len': len, 'is_empty': lambda d: not d}

    def o_mcall(self, t, env):
        r, name = t.a[0], t.a[1]
        args = [x for x in t.a[2:] if not (isinstance(x, T) and x.op == 'uid')]
        h = self.g.calls.get(name)
        if h:
            return h(*([self.ev(r, env)] + [self.ev(x, env) for x in args]))
        ty = self.I.typeof(r)
        fn = self.g.p.method(ty, name) if ty != UNKNOWN else None
        if fn is None and r.op == 'sym' and r.a[0] == 'self' and self.f.owner:
            from .program import Ty
            fn = self.g.p.method(Ty(self.f.owner), name)
        if fn is not None:
            return self.g.call(fn, self.ev(r, env), [self.ev(x, env) for x in args], self.depth + 1)
        v = self.ev(r, env)
        if isinstance(v, str) and name in self.STR:
            return self.STR[name](v, *[self.ev(x, env) for x in args])
        if isinstance(v, bool) and name in self.BOOL:
            return self.BOOL[name](v, *[self.ev(x, env) for x in args])
        if isinstance(v, int) and not isinstance(v, bool) and name in self.INT:
            return self.INT[name](v, *[self.ev(x, env) for x in args])
        if isinstance(v, (list, tuple)) and name.startswith(('collect:Result', 'collect:Option')) and all(isinstance(x, Ct) for x in v):
            return collected(list(v), 'Ok' if name.startswith('collect:R') else 'Some')
        if isinstance(v, list) and name in self.STR and name not in self.SEQ and v and all(isinstance(x, str) for x in v):
            return self.STR[name](''.join(v), *[self.ev(x, env) for x in args])
        if isinstance(v, (list, tuple)) and name in self.SEQ:
            return self.SEQ[name](v, *[self.ev(x, env) for x in args])
        if isinstance(v, dict) and name in self.MAP:
            return self.MAP[name](v, *[self.ev(x, env) for x in args])
        if isinstance(v, Obj):
            c = [f for f in self.g.p.by_method.get(name, []) if (f.owner or '').split('::')[-1] == v.ty]
            if len(c) == 1:
                return self.g.call(c[0], v, [self.ev(x, env) for x in args], self.depth + 1)
        raise Stuck('method %s of %s' % (name, show(r)[:60]))


def collected(v, want='Ok'):
    """several outcomes collected into one"""
    if not isinstance(v, list) or not all(isinstance(x, Ct) and x.name in ('Ok', 'Err', 'Some', 'None') for x in v):
        return v
    bad = [x for x in v if x.name in ('Err', 'None')]
    if bad:
        return bad[0]
    if not v:
        return Ct('Ok' if want in ('Ok', 'Err') else 'Some', [])
    return Ct(v[0].name, [x.a[0] for x in v])


def lstrip(s, x):
    while x and s.startswith(x):
        s = s[len(x):]
    return s


def seqk(t):
    for x in parts_of(t):
        if x.op == 'one':
            return 'v'
        if x.op == 'for':
            return seqk(x.a[2])
        if x.op == 'ite':
            a = seqk(x.a[1])
            return a if a == 'v' else seqk(x.a[2])
    return 's' if t.op == 'str' or (t.op == 'cat' and t.a[0] == 's') else ('v' if t.op == 'cat' else 's')
