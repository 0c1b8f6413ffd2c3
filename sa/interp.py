"""Abstract interpreter.

Values are interned terms (sa.terms).  Branches are joined into guarded choices (`ite`), loops are summarised once
(accumulators become `for` parts of a sequence, searches become `exists`), calls of functions of the analysed program
are inlined, everything else stays an uninterpreted term.  Every call that is not inlined, every write of a field and
every diverging exit is recorded as an event together with the facts (path condition) that must hold there.
Nothing of the analysed program is executed and no path is handed to a solver.
"""
import os, re, sys
from .terms import *
from .program import *

sys.setrecursionlimit(20000)


class Event:
    __slots__ = ('kind', 'name', 'recv', 'args', 'val', 'pc', 'loops', 'loc', 'stack', 'seq', 'node', 'extra')

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def __repr__(self):
        return '<%s %s %s(%s) if %s @%s>' % (self.kind, show(self.recv) if self.recv else '', self.name,
                                             ', '.join(show(x) for x in self.args or ()), show(And(*self.pc)) if self.pc else 'true', self.where())

    def where(self):
        f, fn, l = self.loc
        return '%s:%s (%s)' % (f, l, fn)


class St:
    __slots__ = ('env', 'pc', 'dead')

    def __init__(self, env=None, pc=None):
        self.env = env if env is not None else {}
        self.pc = pc if pc is not None else []
        self.dead = False

    def fork(self, cond=None):
        s = St(dict(self.env), list(self.pc))
        if cond is not None:
            s.add(cond)
        return s

    def add(self, cond):
        cond = truth(cond)
        if cond is TRUE:
            return
        for c in (cond.a if cond.op == 'and' else (cond,)):
            c = self.simp(c)
            if c is FALSE:
                self.dead = True
                return
            if c is TRUE:
                continue
            for d in (c.a if c.op == 'and' else (c,)):
                if d not in self.pc:
                    self.pc.append(d)
        # unit propagation on recorded disjunctions (nothing is removed: the start of pc belongs to the callers)
        changed = True
        while changed:
            changed = False
            for i, c in enumerate(self.pc):
                if c.op == 'or':
                    r = self.simp_or(c, i)
                    if r is c or r is TRUE:
                        continue
                    if r is FALSE:
                        self.dead = True
                        return
                    for d in (r.a if r.op == 'and' else (r,)):
                        if d not in self.pc:
                            self.pc.append(d)
                            changed = True
                    if changed:
                        break

    def simp_or(self, c, skip):
        out = []
        for x in c.a:
            y = x
            if x.op == 'and':
                y = And(*[self.known(z, skip) for z in x.a])
            else:
                y = self.known(x, skip)
            if y is TRUE:
                return TRUE
            if y is FALSE:
                continue
            out.append(y)
        return Or(*out)

    def known(self, c, skip=-1):
        n = Not(c)
        for i, p in enumerate(self.pc):
            if i == skip:
                continue
            if p is c:
                return TRUE
            if p is n:
                return FALSE
            v = implied(p, c)
            if v is not None:
                return v
        return c

    def simp(self, c):
        if c.op == 'and':
            return And(*[self.simp(x) for x in c.a])
        if c.op == 'or':
            return Or(*[self.simp(x) for x in c.a])
        if c.op == 'not' and c.a[0].op == 'ite':
            return Not(self.simp(c.a[0]))
        if c.op == 'ite':
            k = self.simp(c.a[0])
            if k is TRUE:
                return self.simp(c.a[1])
            if k is FALSE:
                return self.simp(c.a[2])
            return Ite(k, c.a[1], c.a[2])
        return self.known(c)


def implied(p, c):
    """p is a known fact; truth value of c it settles, or None."""
    # x == const  decides  x == other const
    if p.op == '==' and p.a[1].op in CONST:
        q, neg = (c.a[0], True) if c.op == 'not' else (c, False)
        if q.op == '==' and q.a[0] is p.a[0] and q.a[1].op in CONST and q.a[1] is not p.a[1]:
            return TRUE if neg else FALSE
        if q.op == '<' and (q.a[0] is p.a[0] or q.a[1] is p.a[0]) and p.a[1].op == 'int':
            r = Lt(p.a[1] if q.a[0] is p.a[0] else q.a[0], p.a[1] if q.a[1] is p.a[0] else q.a[1])
            if r.op == 'bool':
                return Not(r) if neg else r
    # x is A decides x is B (different variants); Ok/Some are two-valued and normalised
    if p.op == 'is' and p.a[0] not in ('Some', 'Ok', 'Error', 'undefined'):
        q, neg = (c.a[0], True) if c.op == 'not' else (c, False)
        if q.op == 'is' and q.a[1] is p.a[1] and q.a[0] != p.a[0] and q.a[0] not in ('Error', 'undefined'):
            return TRUE if neg else FALSE
    return None


class Loop:
    def __init__(self, uid, level, coll, label, base_pc):
        self.uid, self.level, self.coll, self.label = uid, level, coll, label
        self.base = base_pc
        self.breaks = []     # (St, value)
        self.conts = []
        self.rets = []
        self.kind = 'for'
        self.cond = None


class Frame:
    def __init__(self, fid, fn, base_pc, base_loops):
        self.fid, self.fn = fid, fn
        self.base = base_pc
        self.rets = []       # (pc tuple rel, value, env)
        self.loops = []
        self.base_loops = base_loops
        self.selfty = None
        self.retst = []


class Limit(Exception):
    pass


STRIP = {'clone', 'to_string', 'to_owned', 'as_str', 'as_ref', 'as_mut', 'as_slice', 'as_deref', 'as_deref_mut', 'into', 'borrow',
         'borrow_mut', 'iter', 'iter_mut', 'into_iter', 'cloned', 'copied', 'to_vec', 'into_boxed_str', 'as_bytes_mut', 'by_ref',
         'as_path', 'to_path_buf', 'into_string', 'into_owned', 'valueOf', 'as_mut_slice', 'boxed', 'fuse'}
IMPURE = re.compile(r'^(next|recv|pop|read|poll|shift|now|random|generate|gen|accept|get_u|wait|await_|step|(unbounded_)?channel$)')
# methods of library types that change what they are called on and have no model of their own
STD_MUT_RS = set("retain_mut dedup dedup_by dedup_by_key truncate swap sort_unstable_by sort_unstable_by_key sort_by_cached_key rotate_left rotate_right fill resize resize_with splice swap_remove push_front push_back pop_front pop_back insert_str replace_range make_ascii_lowercase make_ascii_uppercase select_nth_unstable retain split_off".split())
STD_MUT_TS = set("splice shift unshift fill copyWithin".split())


def korder(k):
    return len(k), tuple(str(x) for x in k)


class Interp:
    def __init__(self, prog, opaque=None, max_depth=60, inline=None, budget=400000):
        self.p = prog
        self.lang = prog.lang
        self.opaque = opaque or (lambda fn: False)
        self.inline_ok = inline
        self.events = []
        self.frames = []
        self.types = {}
        self.vartypes = {}
        self.uid = 0
        self.closures = {}
        self.loopinfo = {}
        self.max_depth = max_depth
        self.unknown = []
        self.budget = budget
        self.steps = 0
        self.record = True
        self.loopstack = []
        self.written = None
        self.hooks = {}
        self.clctx = []
        self.rec_limit = 1
        self.callhook = None
        self.inlined = set()
        self.reads = {}             # field term -> loops it was read in
        self.keep_dead = False      # grammars: keep the condition that finds a member when the other branch aborts

    # ---------------------------------------------------------------- utils
    def fresh(self):
        self.uid += 1
        return self.uid

    def sym(self, name, ty=None):
        t = mk('sym', name)
        if ty:
            self.types[t] = ty
        return t

    @property
    def frame(self):
        return self.frames[-1]

    def loc(self, node):
        f = self.frames[-1].fn if self.frames else None
        return (os.path.relpath(f.file, front.REPO) if f and f.file.startswith('/') else (f.file if f else '?'), f.qual() if f else '?', node.get('l', 0) if node else 0)

    def event(self, kind, st, node, name=None, recv=None, args=(), val=None, extra=None):
        if not self.record:
            return None
        e = Event(kind=kind, name=name, recv=recv, args=tuple(args), val=val, pc=tuple(st.pc),
                  loops=tuple((l.kind, l.coll, l.cond, l.uid, l.level) for l in self.loopstack), loc=self.loc(node),
                  stack=tuple(f.fn.qual() for f in self.frames if f.fn), seq=len(self.events), node=node, extra=extra or (tuple(self.clctx) or None))
        self.events.append(e)
        return e

    # ---------------------------------------------------------------- env
    def var(self, name):
        return ('%d#%s' % (self.frame.fid, name),)

    def deref_path(self, st, path):
        for _ in range(50):
            hit = False
            for i in range(len(path), 0, -1):
                v = st.env.get(path[:i])
                if v is not None and v.op == 'alias':
                    path = v.a[0] + path[i:]
                    hit = True
                    break
            if not hit:
                return path
        return path

    def read(self, st, path):
        path = self.deref_path(st, path)
        for i in range(len(path), 0, -1):
            v = st.env.get(path[:i])
            if v is not None:
                v = self.overlay(st, path[:i], v) if i == len(path) else v
                for f in path[i:]:
                    v = self.project(v, f)
                self.noted(v, st)
                return v
        return None

    def noted(self, v, st=None):
        if self.record and v.op in ('field', 'lv'):
            self.reads.setdefault(v, set()).add((self.loopstack[-1].uid if self.loopstack else 0, tuple(l.uid for l in self.loopstack), len(self.events), tuple(st.pc) if st is not None else None))

    def overlay(self, st, path, v):
        n = len(path)
        sub = [(k, x) for k, x in st.env.items() if len(k) > n and k[:n] == path]
        if not sub:
            return v
        sub.sort(key=lambda kv: kv[0])
        for k, x in sub:
            if x.op == 'alias':
                continue
            v = self.with_field(v, k[n:], x)
        return v

    def with_field(self, v, fs, x):
        f = fs[0]
        if len(fs) > 1:
            x = self.with_field(self.project(v, f), fs[1:], x)
        if self.project(v, f) is x:
            return v
        if f[:1] == '?':
            name, rest = f[1:].rsplit('.', 1)
            i, n = [int(q) for q in rest.split('/')]
            return mk('ctor', v.a[0] if v.op == 'ctor' else name, *[x if j == i else self.proj(name, j, v) for j in range(n)])
        if v.op == 'slit':
            return mk('slit', v.a[0], tuple((n, (x if n == f else y)) for n, y in v.a[1]) + (() if any(n == f for n, _ in v.a[1]) else ((f, x),)))
        if v.op == 'upd':
            d = dict(v.a[1])
            d[f] = x
            return mk('upd', v.a[0], tuple(sorted(d.items())))
        return mk('upd', v, ((f, x),))

    def project(self, v, f):
        if f[:1] == '?':
            name, rest = f[1:].rsplit('.', 1)
            return self.proj(name, int(rest.split('/')[0]), v)
        if v.op == 'slit':
            for n, y in v.a[1]:
                if n == f:
                    return y
        if v.op == 'upd':
            for n, y in v.a[1]:
                if n == f:
                    return y
            return self.project(v.a[0], f)
        if v.op == 'tuple' and f.isdigit() and int(f) < len(v.a):
            return v.a[int(f)]
        if v.op == 'ctor' and f.isdigit() and int(f) + 1 < len(v.a) and v.a[0] not in ('Some', 'Ok', 'Err'):
            return v.a[int(f) + 1]
        if v.op == 'ite':
            a, b = self.project(v.a[1], f), self.project(v.a[2], f)
            return Ite(v.a[0], a, b)
        if v.op == 'elem' and v.a[1].op == 'entries':
            pass
        if f == 'length' or f == 'byteLength':
            return self.mk_len(v)
        h = self.hooks.get('field')
        if h:
            x = h(self, v, f)
            if x is not None:
                return x
        return mk('field', v, f)

    def write(self, st, path, val, node=None):
        given = path
        path = self.deref_path(st, path)
        if self.lang == 'ts' and len(given) > 1:
            # a variable keeps what it was given when the field it came from gets another value
            for k in [k for k, v in st.env.items() if v.op == 'alias' and v.a[0] == path and k != given]:
                st.env[k] = self.read(st, path)
        inner = [i for i, f in enumerate(path) if f[:1] == '?']
        if inner:
            # what is inside of a variant is kept with the whole
            b = self.read(st, path[:inner[0]])
            if b is None:
                return path
            w = self.with_field(b, path[inner[0]:], val)
            for k in [k for k in st.env if len(k) > inner[0] and k[:inner[0]] == path[:inner[0]]]:
                del st.env[k]
            st.env[path[:inner[0]]] = w
            rest = path[inner[-1] + 1:]
            if rest and node is not None:
                self.event('set', st, node, name='.'.join(rest), args=(val,), recv=mk('sym', path[inner[0] - 1].split('#')[-1]))
            return path
        for k in [k for k in st.env if len(k) > len(path) and k[:len(path)] == path]:
            del st.env[k]
        st.env[path] = val
        if len(path) > 1 and node is not None:
            self.event('set', st, node, name='.'.join(path[1:]), args=(val,), recv=mk('sym', path[0].split('#')[-1]))
            # keep a base for fields of unseen objects
        return path

    # ---------------------------------------------------------------- types
    def typeof(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = self._typeof(t)
        self.types[t] = r
        return r

    def _typeof(self, t):
        o, a = t.op, t.a
        if o == 'field':
            return self.p.field_type(self.typeof(a[0]), a[1])
        if o == 'elem':
            return self.elemty(a[1])
        if o == 'proj':
            ty = self.typeof(a[2])
            if a[0] in ('Some', 'Ok') and ty.args:
                return ty.args[0]
            if a[0] == 'Err' and len(ty.args) > 1:
                return ty.args[1]
            if a[0] == 'Error' or self.lang == 'ts':
                return ty
            v, m = self.p.variant(ty, a[0])
            if v and a[1] < len(v['f']):
                return self.p.parse_type(v['f'][a[1]][1], m)
            return UNKNOWN
        if o == 'ite':
            x = self.typeof(a[1])
            return x if x != UNKNOWN else self.typeof(a[2])
        if o == 'str' or (o == 'cat' and a[0] == 's'):
            return Ty('String')
        if o == 'cast':
            return Ty(a[0])
        if o == 'le' or (o == 'cat' and a[0] == 'v'):
            return Ty('Vec', [Ty('u8')])
        if o == 'len':
            return Ty('usize')
        if o == 'bin':
            return self.typeof(a[1])
        if o == 'idx':
            return Ty('usize')
        if o in ('ctor', 'slit') and isinstance(a[0], str):
            if a[0] == 'Some':
                return Ty('Option', [self.typeof(a[1])])
            if a[0] == 'Ok':
                return Ty('Result', [self.typeof(a[1])])
            if o == 'slit' and a[0] in self.p.items:
                return Ty(a[0])
        if o == 'new':
            return Ty(a[0])
        if o in ('upd', 'lv', 'ins', 'mut') and isinstance(a[0], T):
            return self.typeof(a[0])
        if o in ('lv', 'lout'):
            ty = self.typeof(a[2])
            return ty if ty != UNKNOWN else self.vartypes.get(a[1], UNKNOWN)
        if o == 'tuple':
            return Ty('tuple', [self.typeof(x) for x in a])
        if o in ('enumerate',):
            return self.typeof(a[0])
        if o in ('filter', 'rev', 'skip', 'take', 'chain', 'sorted', 'partialc'):
            return self.typeof(a[0])
        if o == 'index':
            ty = self.typeof(a[0])
            if ty.args and ty.name in ('Vec', 'HashMap', 'BTreeMap'):
                return ty if a[1].op == 'range' else ty.args[-1]
            return UNKNOWN
        if o == 'mcall':
            ty = self.typeof(a[0])
            n = a[1]
            if n in ('len', 'count', 'position', 'length'):
                return Ty('usize')
            if n in ('get', 'get_mut', 'first', 'last', 'last_mut', 'first_mut', 'remove', 'find', 'next', 'pop', 'insert', 'nth', 'iter_find', 'min', 'max'):
                if ty.name in ('HashMap', 'BTreeMap') and len(ty.args) > 1:
                    return Ty('Option', [ty.args[1]])
                if ty.name == 'Vec' and ty.args:
                    return Ty('Option', [ty.args[0]])
                if ty.name in ('Map',) and len(ty.args) > 1:
                    return ty.args[1]
            f = self.p.method(ty, n)
            if f and f.node.get('ret'):
                return self.p.parse_type(f.node['ret'], f.mod, f.owner)
            return UNKNOWN
        if o == 'call':
            f = self.p.fns.get(a[0])
            if f and f.node.get('ret'):
                return self.p.parse_type(f.node['ret'], f.mod, f.owner)
            f = self.fn_by_path(a[0])
            if f and f.node.get('ret'):
                return self.p.parse_type(f.node['ret'], f.mod, f.owner)
        return UNKNOWN

    def fn_by_path(self, path):
        if path in self.p.fns:
            return self.p.fns[path]
        if '::' in path:
            o, n = path.rsplit('::', 1)
            return self.p.methods.get(o, {}).get(n)
        return None

    def elemty(self, coll):
        o = coll.op
        if o == 'enumerate':
            return Ty('tuple', [Ty('usize'), self.elemty(coll.a[0])])
        if o in ('filter', 'rev', 'skip', 'take', 'sorted', 'partialc', 'skipwhile', 'takewhile'):
            return self.elemty(coll.a[0])
        if o == 'chain':
            return self.elemty(coll.a[0])
        if o == 'chars':
            return Ty('char')
        if o in ('keys', 'values'):
            ty = self.typeof(coll.a[0])
            if len(ty.args) > 1:
                return ty.args[0 if o == 'keys' else 1]
            return UNKNOWN
        ty = self.typeof(coll)
        if ty.name in ('Vec', 'HashSet', 'Option') and ty.args:
            return ty.args[0]
        if ty.name in ('HashMap', 'BTreeMap', 'Map') and len(ty.args) > 1:
            return Ty('tuple', ty.args)
        return UNKNOWN

    # ---------------------------------------------------------------- branching
    def branch(self, st, cond, f, g):
        """f(st) / g(st) under cond / not cond; joins into st, returns joined value."""
        cond = truth(st.simp(cond))
        if cond is TRUE:
            return f(st)
        if cond is FALSE:
            return g(st)
        s1, s2 = st.fork(cond), st.fork(Not(cond))
        v1 = v2 = UNIT
        if not s1.dead:
            v1 = f(s1)
        if not s2.dead:
            v2 = g(s2)
        return self.join(st, cond, s1, v1, s2, v2)

    def join(self, st, cond, s1, v1, s2, v2):
        if s1.dead and s2.dead:
            st.dead = True
            return UNIT
        if s1.dead or s2.dead:
            s, v = (s2, v2) if s1.dead else (s1, v1)
            if self.keep_dead:
                c = Not(cond) if s1.dead else cond
                v = guard_found(c, v)
                env = dict(s.env)
                for k, x in s.env.items():
                    if st.env.get(k) is not x and isinstance(x, T):
                        env[k] = guard_found(c, x)
                s.env = env
            st.env, st.pc = s.env, s.pc
            return v
        base = len(st.pc)
        common = [c for c in s1.pc if c in s2.pc]
        e1 = [c for c in s1.pc if c not in common]
        e2 = [c for c in s2.pc if c not in common]
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is b:
                env[k] = a
            elif a is None or b is None:
                # a local of one branch only, or a field written in one branch only
                if len(k) > 1:
                    o = self.read(s1 if a is None else s2, k)
                    if o is None:
                        o = mk('field0', '.'.join(k))
                    a, b = (o, b) if a is None else (a, o)
                    env[k] = self.ite(cond, a, b)
                else:
                    env[k] = a if b is None else b
            else:
                if a.op == 'alias' or b.op == 'alias':
                    ra = self.read(s1, k)
                    rb = self.read(s2, k)
                    env[k] = self.ite(cond, ra if ra is not None else a, rb if rb is not None else b)
                else:
                    env[k] = self.ite(cond, a, b)
        st.env = env
        st.pc = common
        d = Or(And(*e1), And(*e2))
        if d is not TRUE:
            # at least remember the disjunction (bounded size)
            if len(e1) + len(e2) <= 12:
                st.pc = common + [d]
        return self.ite(cond, v1, v2)

    def ite(self, c, a, b):
        if a is b:
            return a
        # factor a common prefix of two sequences
        if (a.op in ('cat', 'str')) and (b.op in ('cat', 'str')):
            k = a.a[0] if a.op == 'cat' else (b.a[0] if b.op == 'cat' else None)
            if k and (b.op == 'str' or b.op == 'cat' and b.a[0] == k) and (a.op == 'str' or a.a[0] == k):
                pa, pb = parts_of(a, k), parts_of(b, k)
                i = 0
                while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
                    i += 1
                if i:
                    return Cat(k, pa[:i] + [Ite(c, Cat(k, pa[i:]), Cat(k, pb[i:]))])
        for x, y in ((a, b), (b, a)):
            # x is a prefix extended by y: cat(ph, ...) vs ph
            if x.op == 'cat' and x.a[1] and x.a[1][0] is y:
                rest = Cat(x.a[0], x.a[1][1:])
                e = Cat(x.a[0], [])
                return Cat(x.a[0], [y, Ite(c, rest, e) if x is a else Ite(c, e, rest)])
        if a.op in ('ctor',) and b.op == 'ctor' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            return mk('ctor', a.a[0], *[self.ite(c, p, q) for p, q in zip(a.a[1:], b.a[1:])])
        if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
            return mk('tuple', *[self.ite(c, p, q) for p, q in zip(a.a, b.a)])
        return Ite(c, a, b)

    # ---------------------------------------------------------------- patterns
    def proj(self, name, i, v):
        name = name.split('::')[-1]
        if v.op == 'ctor' and v.a[0].split('::')[-1] == name:
            return v.a[i + 1] if i + 1 < len(v.a) else UNIT
        if v.op == 'ite':
            l = Is(name, v.a[1])
            r = Is(name, v.a[2])
            if l is FALSE:
                return self.proj(name, i, v.a[2])
            if r is FALSE:
                return self.proj(name, i, v.a[1])
            return self.ite(v.a[0], self.proj(name, i, v.a[1]), self.proj(name, i, v.a[2]))
        if v.op == 'slit' and v.a[0].split('::')[-1] == name:
            return v.a[1][i][1] if i < len(v.a[1]) else UNIT
        return mk('proj', name, i, v)

    def match(self, pat, v, path=None, mpath=None):
        """-> (cond, [(name, value, alias path or None)])"""
        k = pat['k']
        if k == 'pwild' or k == 'prest':
            return TRUE, []
        if k == 'pid':
            n = pat['n']
            if pat.get('sub'):
                c, b = self.match(pat['sub'], v)
                return c, b + [(n, v, None)]
            if n[:1].isupper() and (n == 'None' or n.isupper() or self.p.resolve(self.frame.fn.mod if self.frame.fn else 'crate', [n])):
                if n == 'None':
                    return Not(Is('Some', v)), []
                r = self.p.resolve(self.frame.fn.mod, [n])
                if r and self.p.items.get(r, ({},))[0].get('k') == 'const':
                    return Eq(v, self.const_value(r)), []
                return Is(n, v), []
            return TRUE, [(n, v, path)]
        if k == 'ptup':
            cs, bs = [], []
            rest = any(e['k'] == 'prest' for e in pat['e'])
            for i, e in enumerate(pat['e']):
                if e['k'] == 'prest':
                    break
                c, b = self.match(e, self.project(v, str(i)))
                cs.append(c)
                bs += b
            return And(*cs), bs
        if k == 'pts':
            name = pat['p'].split('::')[-1]
            cs, bs = [Is(name, v)], []
            if self.is_struct(pat['p']):
                cs = []
            for i, e in enumerate(pat['e']):
                if e['k'] == 'prest':
                    break
                sub = None if mpath is None or self.is_struct(pat['p']) or any(x['k'] == 'prest' for x in pat['e']) else mpath + ('?%s.%d/%d' % (name, i, len(pat['e'])),)
                c, b = self.match(e, self.proj(name, i, v), sub, sub)
                cs.append(c)
                bs += b
            return And(*cs), bs
        if k == 'pst':
            name = pat['p'].split('::')[-1]
            cs, bs = ([] if (not name or self.is_struct(pat['p'])) else [Is(name, v)]), []
            for f, e in pat['f']:
                self.noted(self.project(v, f))
                c, b = self.match(e, self.project(v, f))
                cs.append(c)
                bs += b
            return And(*cs), bs
        if k == 'ppath':
            name = pat['p'].split('::')[-1]
            r = self.p.resolve(self.frame.fn.mod, pat['p'].split('::')) if self.frame.fn else None
            if r and self.p.items.get(r, ({},))[0].get('k') == 'const':
                return Eq(v, self.const_value(r)), []
            if name.isupper() and '::' in pat['p'] and not r:
                pass
            return Is(name, v), []
        if k == 'plit':
            return Eq(v, self.lit(pat['e'])), []
        if k == 'por':
            cs, bs = [], []
            for e in pat['e']:
                c, b = self.match(e, v)
                cs.append(c)
                if not bs:
                    bs = b
            return Or(*cs), bs
        if k == 'prange':
            cs = []
            if pat['a']:
                cs.append(Not(Lt(v, self.lit(pat['a']) if pat['a']['k'] == 'lit' else self.sym('rangelo'))))
            if pat['b']:
                hi = self.lit(pat['b']) if pat['b']['k'] == 'lit' else self.sym('rangehi')
                cs.append(Not(Lt(hi, v)) if pat['incl'] else Lt(v, hi))
            return And(*cs), []
        if k == 'pslice':
            bs, cs = [], []
            n = len(pat['e'])
            if not any(e['k'] == 'prest' or (e['k'] == 'pid' and e.get('sub')) for e in pat['e']):
                cs.append(Eq(self.mk_len(v), Int(n)))
            for i, e in enumerate(pat['e']):
                if e['k'] == 'prest':
                    break
                c, b = self.match(e, self.mk_index(v, Int(i)))
                cs.append(c)
                bs += b
            return And(*cs), bs
        return mk('patcond', str(pat.get('s')), v), []

    def is_struct(self, path):
        if path in ('Self',):
            return True
        r = self.p.resolve(self.frame.fn.mod if self.frame.fn else 'crate', path.split('::'))
        return bool(r and self.p.items.get(r, ({},))[0].get('k') == 'struct')

    def bind(self, st, binds):
        for n, v, path in binds:
            key = self.var(n)
            for k in [k for k in st.env if k[0] == key[0]]:
                del st.env[k]
            if path is not None and path != key:
                st.env[key] = mk('alias', path)
            else:
                st.env[key] = v

    # ---------------------------------------------------------------- entry points
    def run_fn(self, fn, args=None, selfv=None, st=None, selfty=None):
        """Analyse fn as a root: parameters are symbols unless given."""
        st = st or St()
        fr = Frame(self.fresh(), fn, len(st.pc), len(self.loopstack))
        fr.selfty = selfty or fn.owner
        self.frames.append(fr)
        if fn.node.get('self'):
            v = selfv if selfv is not None else self.sym('self', (self.self_type() if '<' in fr.selfty else Ty(fr.selfty)) if fr.selfty else None)
            st.env[self.var('self')] = v
        for i, prm in enumerate(fn.node['params']):
            v = None
            if args and i < len(args):
                v = args[i]
            if v is None:
                n = prm['pat'].get('n') or 'p%d' % i
                v = self.sym(n)
                self.types[v] = self.p.parse_type(prm['ty'], fn.mod, fr.selfty)
            c, b = self.match(prm['pat'], v)
            self.bind(st, b)
        self.params(st, fn, fr)
        val = self.block(fn.node['body'], st, newframe=False)
        res = self.finish_fn(fr, st, val)
        self.frames.pop()
        return res, st

    def params(self, st, fn, fr):
        if self.lang == 'ts' and fn.name == 'constructor':
            for prm in fn.node['params']:
                if prm.get('prop') and prm['pat'].get('n'):
                    st.env[self.deref_path(st, self.var('self')) + (prm['pat']['n'],)] = self.read(st, self.var(prm['pat']['n']))

    def finish_fn(self, fr, st, val):
        """Join early returns with the fall-through value; leaves st as the state after the call."""
        rets = list(fr.rets)
        if not st.dead:
            rets.append((tuple(st.pc[fr.base:]), val, st.fork(), ()))
        if not rets:
            st.dead = True
            return mk('never')
        res = None
        acc = None
        for pc, v, s, loops in reversed(rets):
            cond = And(*pc)
            for kind, coll, lvl in reversed(loops):
                cond = mk('exists', coll, lvl, cond)
            if res is None:
                res = v
                acc = s
            else:
                res2 = self.ite(cond, v, res)
                acc = self.join_env(cond, s, acc)
                res = res2
        base = rets[0][2].pc[:fr.base] if rets else st.pc[:fr.base]
        if len(rets) == 1 and not rets[0][3]:
            st.env, st.pc, st.dead = rets[0][2].env, rets[0][2].pc, False
        else:
            common = [c for c in rets[0][2].pc if all(c in r[2].pc for r in rets)]
            st.env, st.pc, st.dead = acc.env, common, False
        return simplify_nested(res)

    def join_env(self, cond, s1, s2):
        s = St({}, list(s2.pc))
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k), s2.env.get(k)
            if a is b:
                env[k] = a
            elif a is None or b is None:
                if len(k) > 1:
                    o = self.read(s1 if a is None else s2, k)
                    if o is None:
                        o = mk('field0', '.'.join(k))
                    a, b = (o, b) if a is None else (a, o)
                    env[k] = self.ite(cond, a, b)
                else:
                    env[k] = a if b is None else b
            elif a.op == 'alias' or b.op == 'alias':
                env[k] = a if a.op == 'alias' else b
            else:
                env[k] = self.ite(cond, a, b)
        s.env = env
        return s

    def call_fn(self, fn, args, st, node, selfv=None, selfpath=None, argpaths=None, selfty=None, clos=None):
        """Inline fn at a call site."""
        depth = sum(1 for f in self.frames if f.fn is fn)
        key = fn.qual()
        if depth >= self.rec_limit or len(self.frames) > self.max_depth:
            return None
        self.inlined.add((fn.file, fn.qual()))
        fr = Frame(self.fresh(), fn, len(st.pc), len(self.loopstack))
        fr.selfty = selfty or fn.owner
        self.frames.append(fr)
        try:
            if fn.node.get('self') or selfv is not None:
                k = self.var('self')
                if selfpath is not None:
                    st.env[k] = mk('alias', selfpath)
                else:
                    st.env[k] = selfv if selfv is not None else mk('sym', 'self')
            for i, prm in enumerate(fn.node['params']):
                v = args[i] if i < len(args) else None
                if v is None:
                    v = self.eval(prm['init'], st) if prm.get('init') else (ctor('undefined') if self.lang == 'ts' else mk('sym', '?'))
                ap = argpaths[i] if argpaths and i < len(argpaths) else None
                c, b = self.match(prm['pat'], v, ap)
                if prm.get('ty') and v not in self.types:
                    ty = self.p.parse_type(prm['ty'], fn.mod, fr.selfty)
                    if ty != UNKNOWN and v.op in ('sym', 'call', 'mcall', 'field', 'elem', 'index', 'proj'):
                        self.types[v] = ty
                self.bind(st, b)
            self.params(st, fn, fr)
            if self.record and self.callhook:
                self.callhook(self, fn, st, args, node)
            val = self.block(fn.node['body'], st, newframe=False)
            res = self.finish_fn(fr, st, val)
        finally:
            self.frames.pop()
        # drop the callee's locals
        pre = '%d#' % fr.fid
        if any(x.op == 'closure' and self.captures(x.a[0], fr.fid) for x in subterms(res)):
            return res      # what a returned closure captured lives on
        for k in [k for k in st.env if k[0].startswith(pre)]:
            del st.env[k]
        return res

    def captures(self, cid, fid):
        c = self.closures.get(cid)
        f = c[2] if c and c[0] == 'cl' else None
        while f is not None:
            if f == fid:
                return True
            f = self.parents.get(f)
        return False

    # ---------------------------------------------------------------- statements
    def block(self, node, st, newframe=True):
        if node['k'] != 'block':
            return self.eval(node, st)
        val = UNIT
        shadow = {}
        stmts = node['s']
        label = node.get('label')
        if label:
            return self.labeled_block(node, st)
        for s in stmts:
            if st.dead:
                return UNIT
            self.steps += 1
            if self.steps > self.budget:
                raise Limit('analysis budget exceeded')
            val = UNIT
            k = s['k']
            if k == 'let':
                self.let(s, st, shadow)
            elif k == 'expr':
                v = self.eval(s['e'], st)
                self.dropped(v, st, s['e'])
                val = v if not s.get('semi') else UNIT
            elif k == 'item':
                it = s['item']
                if it['k'] == 'fn':
                    f = Fn(it, self.frame.fn.mod, None, None, self.frame.fn.file, self.lang)
                    st.env[self.var(it['n'])] = self.localfn(f, st)
        # restore shadowed outer bindings
        if newframe and not st.dead:
            for key, old in shadow.items():
                cur = st.env.get(key)
                if old is None:
                    pass
                else:
                    for kk in [kk for kk in st.env if kk[0] == key[0]]:
                        del st.env[kk]
                    for kk, vv in old:
                        st.env[kk] = vv
        return val

    def localfn(self, f, st):
        i = self.fresh()
        self.closures[i] = ('fn', f, self.frame.fid)
        return mk('closure', i)

    def labeled_block(self, node, st):
        n2 = dict(node)
        n2.pop('label')
        lp = Loop(self.fresh(), 0, mk('block'), node['label'], len(st.pc))
        lp.kind = 'block'
        self.frame.loops.append(lp)
        v = self.block(n2, st)
        self.frame.loops.pop()
        for s, bv in lp.breaks:
            if st.dead:
                st.env, st.pc, st.dead = s.env, s.pc, False
                v = bv
            else:
                c = And(*s.pc[lp.base:])
                j = self.join_env(c, s, st)
                st.env, st.pc = j.env, [x for x in st.pc if x in s.pc]
                v = self.ite(c, bv, v)
        return v

    def let(self, s, st, shadow):
        init = s.get('init')
        pat = s['pat']
        names = pat_names(pat)
        if init is None:
            for n in names:
                key = self.var(n)
                self.save_shadow(st, key, shadow)
                st.env[key] = mk('uninit', n)
            if pat.get('ty') and names:
                st.env[self.var(names[0])] = t = mk('uninit', names[0])
            return
        path = None
        if init['k'] in ('ref', 'path', 'field', 'mcall', 'await') or (init['k'] == 'deref'):
            if init['k'] == 'ref' and init.get('mut') or (init['k'] == 'mcall' and init['n'] in ('lock', 'write', 'borrow_mut', 'as_mut', 'get_mut')) or init['k'] == 'await' \
                    or (self.lang == 'ts' and init['k'] in ('path', 'field')):
                path = self.lvalue(init, st)
        v = self.eval(init, st)
        if st.dead:
            return
        if pat.get('ty') and v not in self.types and v.op in ('sym', 'call', 'mcall', 'field', 'index', 'proj', 'mut'):
            ty = self.p.parse_type(pat['ty'], self.frame.fn.mod if self.frame.fn else 'crate', self.frame.selfty)
            if ty != UNKNOWN:
                self.types[v] = ty
        if pat.get('ty') and self.lang == 'rs' and len(names) == 1:
            self.vartypes[self.var(names[0])[0]] = self.p.parse_type(pat['ty'], self.frame.fn.mod if self.frame.fn else 'crate', self.frame.selfty)
        if pat.get('ty') and self.lang == 'rs' and v.op in ('ite', 'int'):
            ty = self.p.parse_type(pat['ty'], self.frame.fn.mod if self.frame.fn else 'crate', self.frame.selfty)
            if v.op == 'ite' and width_of(ty.name) and self.typeof(v).name in ('?', 'UNKNOWN'):
                v = mk('cast', ty.name, v)
        if self.lang == 'ts' and path is not None and v.op in CONST + ('cat', 'ctor'):
            path = None
        c, b = self.match(pat, v, path)
        for n in names:
            self.save_shadow(st, self.var(n), shadow)
        if s.get('els') is not None:
            cond = st.simp(c)
            if cond is not TRUE:
                s2 = st.fork(Not(cond))
                if not s2.dead:
                    self.eval(s['els'], s2)
                st.add(cond)
        elif c is not TRUE:
            pass
        self.bind(st, b)

    def save_shadow(self, st, key, shadow):
        if key in shadow:
            return
        old = [(k, v) for k, v in st.env.items() if k[0] == key[0]]
        shadow[key] = old or None

    # ---------------------------------------------------------------- lvalues
    def lvalue(self, n, st):
        k = n['k']
        if k == 'path':
            name = n['p']
            key = self.var(name)
            if key in st.env or any(kk[0] == key[0] for kk in st.env):
                return self.deref_path(st, key)
            o = self.outer_var(name, st)
            if o:
                return self.deref_path(st, o)
            if '::' not in name and self.lang == 'ts' and name not in ('undefined', 'null'):
                return None
            return None
        if k == 'field':
            b = self.lvalue(n['e'], st)
            return self.deref_path(st, b + (n['n'],)) if b else None
        if k in ('ref', 'deref', 'await', 'try'):
            return self.lvalue(n['e'], st)
        if k == 'mcall' and n['n'] in ('as_mut', 'borrow_mut', 'borrow', 'as_ref', 'iter_mut', 'lock', 'write', 'read', 'unwrap', 'by_ref', 'get_mut', 'expect') and (n['n'] not in ('get_mut', 'read', 'write') or not n['a']):
            return self.lvalue(n['e'], st)
        return None

    def outer_var(self, name, st):
        """Captured variables of enclosing frames (closures are evaluated inside pseudo frames)."""
        for f in reversed(self.frames):
            key = ('%d#%s' % (f.fid, name),)
            if key in st.env or any(kk[0] == key[0] for kk in st.env):
                return key
            if not getattr(f, 'closure', False):
                break
            par = getattr(f, 'parent', None)
            while par is not None:
                key = ('%d#%s' % (par, name),)
                if key in st.env or any(kk[0] == key[0] for kk in st.env):
                    return key
                par = self.parents.get(par)
            break
        return None

    parents = {}

    # ---------------------------------------------------------------- expressions
    def lit(self, n):
        t, v = n['t'], n['v']
        if t == 'str':
            return Str(v)
        if t == 'bstr':
            return mk('bstr', v)
        if t == 'char':
            return mk('char', v)
        if t == 'int':
            r = Int(int(v, 0) if isinstance(v, str) else v)
            if n.get('s'):
                return mk('cast', n['s'], r)
            return r
        if t == 'bool':
            return Bool(v)
        return mk('flt', str(v))

    def eval(self, n, st):
        if st.dead:
            return UNIT
        if n is None:
            return UNIT
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            return self.unk(n, st)
        return m(n, st)

    def unk(self, n, st):
        self.unknown.append((self.loc(n), n.get('k'), n.get('s') or n.get('raw')))
        return mk('unk', n.get('k'), str(n.get('s') or n.get('raw') or ''), self.fresh())

    def e_lit(self, n, st):
        return self.lit(n)

    def e_block(self, n, st):
        return self.block(n, st)

    def e_asyncb(self, n, st):
        # an async block is evaluated in place; its returns are its own
        return self.run_inline_body(n['b'], st)

    def aside(self, n, st):
        """Evaluate what runs concurrently: its effects are kept, its conditions are its own."""
        k, dead = len(st.pc), st.dead
        v = self.eval(n, st)
        del st.pc[k:]
        st.dead = dead
        return v

    def run_inline_body(self, body, st):
        fr = Frame(self.fresh(), self.frame.fn, len(st.pc), len(self.loopstack))
        fr.selfty = self.frame.selfty
        fr.closure = True
        fr.parent = self.frame.fid
        self.parents[fr.fid] = self.frame.fid
        self.frames.append(fr)
        try:
            v = self.block(body, st)
            r = self.finish_fn(fr, st, v)
        finally:
            self.frames.pop()
        return r

    def const_value(self, ab):
        it, mod, path = self.p.items[ab]
        key = ('const', ab)
        if key in self.hooks:
            return self.hooks[key]
        if it.get('e') is None:
            return mk('sym', ab)
        self.hooks[key] = mk('sym', ab)
        fr = Frame(self.fresh(), Fn({'n': 'const', 'l': 0, 'params': []}, mod, None, None, path, self.lang), 0, 0)
        rec = self.record
        self.record = False
        self.frames.append(fr)
        try:
            v = self.eval(it['e'], St())
        finally:
            self.frames.pop()
            self.record = rec
        if v not in self.types and it.get('ty'):
            ty = self.p.parse_type(it['ty'], mod)
            if ty != UNKNOWN and v.op not in CONST:
                self.types[v] = ty
        self.hooks[key] = v
        return v

    def e_path(self, n, st):
        name = n['p']
        if '::' not in name:
            key = self.var(name)
            v = self.read(st, key)
            if v is None and (any(kk[0] == key[0] for kk in st.env)):
                v = mk('sym', name)
            if v is not None:
                return v
            o = self.outer_var(name, st)
            if o:
                v = self.read(st, o)
                return v if v is not None else mk('sym', name)
            if name == 'None':
                return NONE
            if name in ('undefined', 'null'):
                return ctor('undefined')
            if name == 'NaN':
                return mk('sym', 'NaN')
        mod = self.frame.fn.mod if self.frame.fn else 'crate'
        segs = name.split('::')
        if segs[0] == 'Self' and self.frame.selfty:
            segs = self.frame.selfty.split('::') + segs[1:]
            ab = '::'.join(segs)
            if ab in self.p.items:
                r = ab
            else:
                r = self.p.resolve(mod, segs)
        else:
            r = self.p.resolve(mod, segs)
        if r:
            it = self.p.items.get(r)
            if it and it[0]['k'] == 'const':
                return self.const_value(r)
            if r in self.p.fns:
                return mk('fnref', r)
            if not it:
                base = '::'.join(r.split('::')[:-1])
                bit = self.p.items.get(base)
                if bit and bit[0]['k'] == 'enum':
                    t = mk('ctor', segs[-1])
                    self.types.setdefault(t, Ty(base))
                    return t
                m = self.p.methods.get(base, {}).get(segs[-1])
                if m:
                    return mk('fnref', base + '::' + segs[-1])
            return mk('sym', r)
        if len(segs) > 1:
            # associated consts / unresolved enum variants
            if segs[-1] in ('MAX', 'MIN', 'BITS') and self.lang == 'rs' and segs[-2] in INTS:
                bits = 64 if segs[-2].endswith('size') else int(segs[-2][1:])
                sg = segs[-2][0] == 'i'
                t = Int(bits if segs[-1] == 'BITS' else ((1 << (bits - sg)) - 1 if segs[-1] == 'MAX' else -(1 << (bits - 1)) if sg else 0))
                return t
            if segs[-1] in ('MAX', 'MIN'):
                return mk('sym', name)
            b = self.p.unique(segs[-2], ('enum',))
            if b and any(v['n'] == segs[-1] for v in self.p.items[b][0]['v']):
                t = mk('ctor', segs[-1])
                self.types.setdefault(t, Ty(b))
                return t
            u = self.p.unique(segs[-1], ('const',))
            if u:
                return self.const_value(u)
            if segs[-1][:1].isupper():
                return mk('ctor', segs[-1])
        else:
            u = self.p.unique(name, ('const',))
            if u:
                return self.const_value(u)
            c = [a for a in self.p.by_name.get(name, []) if a in self.p.fns]
            if len(c) == 1:
                return mk('fnref', c[0])
        return mk('sym', name)

    def e_field(self, n, st):
        p = self.lvalue(n, st)
        if p is not None:
            v = self.read(st, p)
            if v is not None:
                return self.getter(v, n, st)
        b = self.eval(n['e'], st)
        if b.op == 'sym' and self.lang == 'ts':
            # enum members / static namespaces / module constants
            r = self.p.resolve(self.frame.fn.mod if self.frame.fn else 'crate', b.a[0].split('::') + [n['n']])
            if r and self.p.items.get(r, ({},))[0].get('k') == 'const':
                return self.const_value(r)
            it = self.p.items.get(b.a[0])
            if it and it[0]['k'] == 'tsenum':
                for vn, ve in it[0]['v']:
                    if vn == n['n']:
                        return self.lit(ve) if ve and ve['k'] == 'lit' else ctor(vn)
            if it and it[0]['k'] == 'class':
                for f in it[0]['fields']:
                    if f['n'] == n['n'] and 'static' in (f.get('mods') or []) and f['init']:
                        return self.eval(f['init'], st)
            outer = getattr(self.p, 'outer', ())
            if b.a[0] in outer or any(m in outer for m in prefixes(b.a[0])):
                return mk('sym', b.a[0] + '::' + n['n'])        # a module outside the program
        v = self.project(b, n['n'])
        self.noted(v, st)
        return self.getter(v, n, st)

    def getter(self, v, n, st):
        """TypeScript accessor properties."""
        if self.lang != 'ts' or v.op != 'field':
            return v
        ty = self.typeof(v.a[0])
        f = self.p.method(ty, 'get ' + v.a[1])
        if f:
            r = self.call_fn(f, [], st, n, selfv=v.a[0], selfpath=self.lvalue(n['e'], st))
            if r is not None:
                return r
        return v

    def e_index(self, n, st):
        b = self.eval(n['e'], st)
        i = self.eval(n['i'], st)
        if st.dead:
            return UNIT
        self.event('index', st, n, name='[]', recv=b, args=(i,))
        return self.mk_index(b, i)

    def mk_index(self, b, i):
        if i.op == 'idx' and b is i.a[1]:
            return mk('elem', i.a[0], b)
        if b.op == 'list' and i.op == 'int' and 0 <= i.a[0] < len(b.a):
            return b.a[i.a[0]]
        if b.op == 'ite':
            return Ite(b.a[0], self.mk_index(b.a[1], i), self.mk_index(b.a[2], i))
        if i.op == 'str' and b.op in ('slit',):
            return self.project(b, i.a[0])
        return mk('index', b, i)

    def e_un(self, n, st):
        v = self.eval(n['e'], st)
        if st.dead:
            return UNIT
        op = n['op']
        if op == '!':
            if self.lang == 'ts' and v.op not in BOOLOPS and v.op != 'ite':
                if v.op in ('len',):
                    return Eq(v, Int(0))
            return Not(v)
        if op == '-' and v.op == 'int':
            return Int(-v.a[0])
        if op == 'void':
            return UNIT
        return mk('un', op, v)

    def e_deref(self, n, st):
        return self.eval(n['e'], st)

    def e_ref(self, n, st):
        return self.eval(n['e'], st)

    def e_await(self, n, st):
        v = self.eval(n['e'], st)
        if self.lang == 'ts' and not st.dead and v.op in ('promise', 'mcall', 'call'):
            av = mk('resolved', v)
            ty = self.typeof(v)
            if ty != UNKNOWN:
                self.types.setdefault(av, ty)
            st.add(Is('Fulfilled', v))
            return av
        if self.lang == 'rs' and not st.dead and v.op in ('proj', 'field', 'sym'):
            # a future that is kept somewhere is run here
            self.event('await', st, n, args=[v])
        return v

    def e_cast(self, n, st):
        v = self.eval(n['e'], st)
        return self.mk_cast(n['ty'], v)

    def mk_cast(self, ty, v):
        if v.op == 'int' and ty in ('usize', 'u64', 'u32', 'i64', 'i32', 'u16', 'u8', 'isize', 'i16', 'i8'):
            return mk('cast', ty, v) if False else v
        return mk('cast', ty, v)

    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            a = self.eval(n['a'], st)
            if st.dead:
                return UNIT
            if n['a']['k'] == 'letc' or n['b']['k'] == 'letc':
                pass
            s2 = st.fork(a if op == '&&' else Not(a))
            if s2.dead:
                return Bool(op != '&&')
            b = self.eval(n['b'], s2)
            if s2.dead:
                b = TRUE
            else:
                # side effects of the right operand
                j = self.join_env(a if op == '&&' else Not(a), s2, st)
                for k, v in j.env.items():
                    st.env[k] = v
            if self.lang == 'ts' and not (is_bool(a) and is_bool(b)) and op == '||':
                return mk('bin', '||', a, b)
            return And(a, b) if op == '&&' else Or(a, b)
        if op == '??':
            a = self.eval(n['a'], st)
            b = self.eval(n['b'], st)
            return self.ite(Is('undefined', a), b, a)
        a = self.eval(n['a'], st)
        b = self.eval(n['b'], st)
        if st.dead:
            return UNIT
        return self.binop(op, a, b, st, n)

    def binop(self, op, a, b, st, n):
        if op == 'instanceof':
            nm = b.a[0].split('::')[-1].split('.')[-1] if b.op == 'sym' else show(b)
            if b.op == 'ctor':
                nm = b.a[0]
            return self.instof(nm, a)
        if op in ('==', '!='):
            if a.op == 'char' and b.op == 'cat' or b.op == 'char' and a.op == 'cat':
                pass
            r = Eq(uncast(a), uncast(b))
            return r if op == '==' else Not(r)
        if op == '<':
            return Lt(a, b)
        if op == '>':
            return Lt(b, a)
        if op == '<=':
            return Not(Lt(b, a))
        if op == '>=':
            return Not(Lt(a, b))
        if op == '+':
            k = seq_kind(a) or seq_kind(b)
            if k == 's' or (k is None and (self.typeof(a).name in ('String', 'str', 'string') or self.typeof(b).name in ('String', 'str', 'string'))):
                return Cat('s', [a, b])
        ua, ub = uncast(a), uncast(b)
        if ua.op == 'int' and ub.op == 'int':
            x, y = ua.a[0], ub.a[0]
            try:
                r = {'+': x + y, '-': x - y, '*': x * y, '/': x // y if y else 0, '%': x % y if y else 0, '&': x & y, '|': x | y,
                     '<<': x << y if 0 <= y < 64 else 0, '>>': x >> y if 0 <= y < 64 else 0, '^': x ^ y}.get(op)
                if r is not None:
                    return Int(r)
            except Exception:
                pass
        if op == '&' and is_bool(a) and is_bool(b):
            return And(a, b)
        if op == '|' and is_bool(a) and is_bool(b):
            return Or(a, b)
        self.event('arith', st, n, name=op, args=(a, b))
        return mk('bin', op, a, b)

    def instof(self, nm, a):
        if a.op in ('int', 'str', 'cat', 'list', 'bool', 'unit', 'slit', 'rd', 'wr', 'zeros', 'setat', 'slice', 'le', 'be', 'len') or (a.op == 'new' and nm == 'Error') or (a.op in ('lv', 'lout') and nm == 'Error' and a.a[2].op in ('zeros', 'cat', 'int')):
            return FALSE
        if a.op == 'ite':
            x, y = self.instof(nm, a.a[1]), self.instof(nm, a.a[2])
            if x.op == 'bool' or y.op == 'bool' or x is y:
                return Ite(a.a[0], x, y)
        if a.op == 'upd':
            return self.instof(nm, a.a[0])
        return Is(nm, a)

    def e_asgop(self, n, st):
        p = self.lvalue(n['a'], st)
        old = self.eval(n['a'], st)
        b = self.eval(n['b'], st)
        if st.dead:
            return UNIT
        if n['op'] in ('||', '&&', '??'):
            new = mk('bin', n['op'], old, b)
        else:
            new = self.binop(n['op'], old, b, st, n)
        if p is not None:
            self.write(st, p, new, n)
        else:
            self.event('set', st, n, name='?', args=(old, new))
        return old if n.get('post') else new if self.lang == 'ts' else UNIT

    def e_asg(self, n, st):
        v = self.eval(n['b'], st)
        if st.dead:
            return UNIT
        a = n['a']
        if a['k'] == 'path' and a['p'] == '_':
            return UNIT
        p = self.lvalue(a, st)
        if p is not None:
            own = None
            if a['k'] == 'path' and self.lang == 'ts':
                # an assignment gives the variable itself another value; it does not write through what it refers to
                own = self.var(a['p']) if self.var(a['p']) in st.env else self.outer_var(a['p'], st)
            if own is not None and own in st.env and st.env[own].op == 'alias':
                st.env[own] = v
            else:
                self.write(st, p, v, n)
        elif a['k'] == 'index':
            bp = self.lvalue(a['e'], st)
            i = self.eval(a['i'], st)
            b = self.eval(a['e'], st)
            self.event('setidx', st, n, name='[]=', recv=b, args=(i, v))
            if bp is not None:
                self.write(st, bp, mk('ins', b, i, v))
        elif a['k'] == 'tuple':
            for i, x in enumerate(a['e']):
                q = self.lvalue(x, st)
                if q is not None:
                    self.write(st, q, self.project(v, str(i)), n)
        else:
            b = self.eval(a['e'], st) if a.get('e') else UNIT
            self.event('set', st, n, name=a.get('n') or '?', recv=b, args=(v,))
        return v if self.lang == 'ts' else UNIT

    def e_letc(self, n, st):
        v = self.eval(n['e'], st)
        if st.dead:
            return FALSE
        c, b = self.match(n['pat'], v, None, self.mutplace(n['e'], st))
        self.bind(st, b)
        return c

    def mutplace(self, n, st):
        """the place an expression lends out to be changed"""
        if self.lang != 'rs':
            return None
        if n['k'] == 'ref' and n.get('mut') and n['e']['k'] in ('path', 'field'):
            return self.lvalue(n['e'], st)
        if n['k'] == 'mcall' and n['n'] in ('as_mut', 'as_deref_mut') and n['e']['k'] in ('path', 'field'):
            return self.lvalue(n['e'], st)
        return None

    def e_matches(self, n, st):
        v = self.eval(n['e'], st)
        c, b = self.match(n['pat'], v)
        if n.get('guard'):
            s = st.fork(c)
            self.bind(s, b)
            if not s.dead:
                return And(c, self.eval(n['guard'], s))
        return c

    def e_if(self, n, st):
        # `let` bindings of the condition scope over the then block only
        saved = dict(st.env)
        c = self.eval(n['c'], st)
        if st.dead:
            return UNIT
        names = [k for k in st.env if st.env[k] is not saved.get(k) and k in [self.var(x) for x in cond_names(n['c'])]]

        def els(s):
            for k in names:
                if k in saved:
                    s.env[k] = saved[k]
            return self.eval(n['e'], s) if n.get('e') else UNIT
        if self.lang == 'ts':
            c = self.truthy(c)

        def then(s):
            r = self.block(n['t'], s) if n['t']['k'] == 'block' else self.eval(n['t'], s)
            if not s.dead:
                for k in names:
                    if k in saved:
                        for kk in [kk for kk in s.env if kk[0] == k[0]]:
                            del s.env[kk]
                        for kk, vv in saved.items():
                            if kk[0] == k[0]:
                                s.env[kk] = vv
            return r
        return self.branch(st, c, then, els)

    def truthy(self, c):
        return c

    def e_match(self, n, st):
        v = self.eval(n['e'], st)
        if st.dead:
            return UNIT
        path = self.lvalue(n['e'], st)
        return self.arms(n['arms'], 0, v, st, n, path, self.mutplace(n['e'], st))

    def arms(self, arms, i, v, st, n, path, mpath=None):
        if i >= len(arms):
            # exhaustive match: nothing is left
            st.dead = True
            return UNIT
        a = arms[i]
        c, b = self.match(a['pat'], v, path, mpath)
        last = i == len(arms) - 1
        if last and not a.get('guard') and c.op != 'bool':
            # an exhaustive match takes its last arm otherwise
            c0 = c
        c = st.simp(c)
        g = a.get('guard')
        if g:
            s = st.fork(c)
            if s.dead:
                return self.arms(arms, i + 1, v, st, n, path, mpath)
            self.bind(s, b)
            gc = self.eval(g, s)
            c = And(c, gc)

        def take(s):
            sh = {}
            for nm, _, _ in b:
                self.save_shadow(s, self.var(nm), sh)
            self.bind(s, b)
            r = self.eval(a['body'], s)
            if not s.dead:
                for key, old in sh.items():
                    if old is not None:
                        for kk in [kk for kk in s.env if kk[0] == key[0]]:
                            del s.env[kk]
                        for kk, vv in old:
                            s.env[kk] = vv
            return r
        if last and not g:
            if c is FALSE:
                st.dead = True
                return UNIT
            st.add(c) if c.op != 'or' else None
            if st.dead:
                return UNIT
            return take(st)
        return self.branch(st, c, take, lambda s: self.arms(arms, i + 1, v, s, n, path, mpath))

    def e_switch(self, n, st):
        v = self.eval(n['e'], st)
        if st.dead:
            return UNIT
        lp = Loop(self.fresh(), 0, mk('switch'), None, len(st.pc))
        lp.kind = 'switch'
        self.frame.loops.append(lp)
        arms = n['arms']
        alll = []
        for a in arms:
            for l in a['labels']:
                if l is not None:
                    alll.append(l)
        labs = {id(l): self.eval(l, st) for l in alll}
        order = [a for a in arms if None not in a['labels']] + [a for a in arms if None in a['labels']]

        def body(i, s):
            """body of arms[i] with fallthrough"""
            r = UNIT
            while i < len(arms) and not s.dead:
                self.block(arms[i]['body'], s)
                i += 1
            return r

        def go(j, s):
            if j >= len(order):
                return UNIT
            a = order[j]
            if None in a['labels']:
                return body(arms.index(a), s)
            c = Or(*[(labs[id(l)] if v is TRUE else Eq(v, labs[id(l)])) for l in a['labels']])
            return self.branch(s, c, lambda x: body(arms.index(a), x), lambda x: go(j + 1, x))
        go(0, st)
        self.frame.loops.pop()
        self.join_breaks(st, lp)
        return UNIT

    def join_breaks(self, st, lp):
        for s, bv in lp.breaks:
            if st.dead:
                st.env, st.pc, st.dead = s.env, list(s.pc), False
            else:
                e1 = [c for c in s.pc if c not in st.pc]
                e2 = [c for c in st.pc if c not in s.pc]
                c = And(*e1)
                j = self.join_env(c, s, st)
                st.env = j.env
                common = [x for x in st.pc if x in s.pc]
                d = Or(And(*e1), And(*e2))
                st.pc = common + ([d] if d is not TRUE and len(e1) + len(e2) <= 12 else [])

    def e_trycatch(self, n, st):
        uid = self.fresh()
        thr = mk('threw', uid)
        s2 = st.fork(thr)
        self.clctx.append('try')
        if not hasattr(self.frame, 'tries'):
            self.frame.tries = []
        tr = []
        self.frame.tries.append(tr)
        self.block(n['b'], st)
        self.frame.tries.pop()
        self.clctx.pop()
        if n.get('h') is not None:
            if n.get('pat'):
                c, b = self.match(n['pat'], mk('caught', uid))
                self.bind(s2, b)
            # writes of the try body may or may not have happened
            if not st.dead:
                for k in set(st.env):
                    if k in s2.env and s2.env[k] is not st.env[k] and s2.env[k].op != 'alias' and st.env[k].op != 'alias':
                        s2.env[k] = Ite(mk('threwlate', uid), st.env[k], s2.env[k])
            self.block(n['h'], s2)
            if st.dead and s2.dead:
                pass
            elif st.dead:
                st.env, st.pc, st.dead = s2.env, s2.pc, False
            elif not s2.dead:
                j = self.join_env(thr, s2, st)
                st.env = j.env
                st.pc = [c for c in st.pc if c in s2.pc]
        if n.get('f') and not st.dead:
            self.block(n['f'], st)
        return UNIT

    def e_throw(self, n, st):
        v = self.eval(n['e'], st)
        self.event('throw', st, n, name='throw', args=(v,))
        st.dead = True
        return UNIT

    def e_ret(self, n, st):
        v = self.eval(n['e'], st) if n.get('e') else UNIT
        if st.dead:
            return UNIT
        self.do_return(v, st, n)
        return UNIT

    def do_return(self, v, st, n):
        fr = self.frame
        self.event('return', st, n, name='return', args=(v,))
        loops = []
        base = fr.base
        pc = st.pc[base:]
        own = self.loopstack[fr.base_loops:]
        lpath = tuple((l.kind, l.coll, l.level) for l in own)
        fr.rets.append((tuple(pc), v, st.fork(), lpath))
        st.dead = True

    def e_try(self, n, st):
        v = self.eval(n['e'], st)
        if st.dead:
            return UNIT
        return self.try_value(v, st, n)

    def try_value(self, v, st, n):
        if v.op == 'ctor' and v.a[0] in ('Ok', 'Some'):
            return v.a[1] if len(v.a) > 1 else UNIT
        if v.op == 'ctor' and v.a[0] in ('Err', 'None'):
            self.do_return(v, st, n)
            return UNIT
        ty = self.typeof(v)
        name = 'Some' if ty.name == 'Option' or (v.op == 'ite' and 'Some' in ctor_names(v)) else 'Ok'
        c = st.simp(Is(name, v))
        if c is TRUE:
            return self.proj(name, 0, v)
        s2 = st.fork(Not(c))
        if not s2.dead:
            self.do_return(ctor('Err', self.proj('Err', 0, v)) if name == 'Ok' else NONE, s2, n)
        st.add(c)
        if st.dead:
            return UNIT
        return self.proj(name, 0, v)

    def e_break(self, n, st):
        v = self.eval(n['e'], st) if n.get('e') else UNIT
        if st.dead:
            return UNIT
        lp = self.find_loop(n.get('label'), True)
        if lp is not None:
            lp.breaks.append((st.fork(), v))
        st.dead = True
        return UNIT

    def e_cont(self, n, st):
        lp = self.find_loop(n.get('label'), False)
        if lp is not None:
            lp.conts.append(st.fork())
        st.dead = True
        return UNIT

    def find_loop(self, label, brk):
        for lp in reversed(self.frame.loops):
            if label:
                if lp.label == label:
                    return lp
            elif lp.kind == 'block' or (lp.kind == 'switch' and not brk):
                continue
            else:
                return lp
        return None

    # ---- loops -------------------------------------------------------------
    def e_for(self, n, st):
        coll = self.eval(n['e'], st)
        if st.dead:
            return UNIT
        # the variables of the pattern are the loop's own
        sh = {}
        for nm in pat_names(n['pat']):
            self.save_shadow(st, self.var(nm), sh)
        for key in sh:
            for kk in [kk for kk in st.env if kk[0] == key[0]]:
                del st.env[kk]
        r = self.for_over(coll, n, st, lambda s, elem: self.for_body(n, s, elem))
        if not st.dead:
            for key, old in sh.items():
                if old is not None:
                    for kk in [kk for kk in st.env if kk[0] == key[0]]:
                        del st.env[kk]
                    for kk, vv in old:
                        st.env[kk] = vv
        return r

    def for_body(self, n, s, elem):
        c, b = self.match(n['pat'], elem)
        for nm, _, _ in b:
            pass
        self.bind(s, b)
        return self.block(n['b'], s)

    def level(self, coll):
        return sum(1 for l in self.loopstack if l.coll is coll)

    def for_over(self, coll, n, st, body):
        """Iterate body over an abstract collection."""
        o = coll.op
        if o == 'list' and len(coll.a) <= 24:
            return self.unroll([(x, None) for x in coll.a], n, st, body)
        if o == 'range' and coll.a[0].op == 'int' and coll.a[1].op == 'int' and coll.a[1].a[0] - coll.a[0].a[0] <= 24:
            return self.unroll([(Int(i), None) for i in range(coll.a[0].a[0], coll.a[1].a[0] + (1 if coll.a[2] else 0))], n, st, body)
        if o == 'range' and coll.a[0] is Int(0) and uncast(coll.a[1]).op == 'len' and not coll.a[2]:
            base = uncast(coll.a[1]).a[0]
            return self.for_base(base, n, st, lambda s, lvl: body(s, mk('idx', lvl, base)))
        if o == 'ite':
            return self.branch(st, coll.a[0], lambda s: self.for_over(coll.a[1], n, s, body), lambda s: self.for_over(coll.a[2], n, s, body))
        if o == 'cat' and coll.a[0] == 'v':
            if len(coll.a[1]) <= 24 and all(p.op == 'one' for p in coll.a[1]):
                return self.unroll([(p.a[0], None) for p in coll.a[1]], n, st, body)
            for p in coll.a[1]:
                if st.dead:
                    break
                self.for_part(p, n, st, body)
            return UNIT
        if o == 'chain':
            self.for_over(coll.a[0], n, st, body)
            if not st.dead:
                self.for_over(coll.a[1], n, st, body)
            return UNIT
        if o == 'enumerate':
            inner = coll.a[0]
            if inner.op in ('list',):
                return self.unroll([(mk('tuple', Int(i), x), None) for i, x in enumerate(inner.a)], n, st, body)
            return self.for_base(inner, n, st, lambda s, lvl: self.peel(inner, s, lvl, lambda s2, e: body(s2, mk('tuple', mk('idx', lvl, inner), e))))
        if o == 'ctor':
            if coll.a[0] == 'None':
                return UNIT
            if coll.a[0] == 'Some':
                return self.unroll([(coll.a[1], None)], n, st, body)
        if o in ('map', 'filter', 'filtermap'):
            base = coll
            while base.op in ('map', 'filter', 'filtermap'):
                base = base.a[0]
            if base.op in ('list', 'cat', 'ite', 'chain') or (base.op == 'enumerate'):
                return self.for_over(base, n, st, lambda s, e: self.peel_on(coll, base, s, e, body))
            return self.for_base(base, n, st, lambda s, lvl: self.peel_on(coll, base, s, mk('elem', lvl, base), body))
        return self.for_base(coll, n, st, lambda s, lvl: body(s, self.elem_of(coll, lvl)))

    def peel(self, coll, s, lvl, body):
        return body(s, self.elem_of(coll, lvl))

    def elem_of(self, coll, lvl):
        ty = self.typeof(coll)
        if coll.op == 'entries' or ty.name in ('HashMap', 'BTreeMap'):
            c = coll.a[0] if coll.op == 'entries' else coll
            return mk('tuple', mk('elem', lvl, mk('keys', c)), mk('elem', lvl, mk('values', c)))
        return mk('elem', lvl, coll)

    def peel_on(self, coll, base, s, e, body):
        """Apply the map/filter chain between coll and base to element e, then body."""
        chain = []
        while coll is not base:
            chain.append(coll)
            coll = coll.a[0]

        def go(i, s, e):
            if i < 0:
                return body(s, e)
            c = chain[i]
            v = self.apply(c.a[1], [e], s, None)
            if s.dead:
                return UNIT
            if c.op == 'map':
                return go(i - 1, s, v)
            if c.op == 'filtermap':
                return self.branch(s, Is('Some', v), lambda x: go(i - 1, x, self.proj('Some', 0, v)), lambda x: UNIT)
            return self.branch(s, v, lambda x: go(i - 1, x, e), lambda x: UNIT)
        return go(len(chain) - 1, s, e)

    def unroll(self, items, n, st, body):
        lp = Loop(self.fresh(), 0, mk('list'), n.get('label') if n else None, len(st.pc))
        lp.kind = 'unrolled'
        self.frame.loops.append(lp)
        for x, _ in items:
            if st.dead:
                break
            lp.conts = []
            body(st, x)
            for s in lp.conts:
                if st.dead:
                    st.env, st.pc, st.dead = s.env, s.pc, False
                else:
                    e1 = [c for c in s.pc if c not in st.pc]
                    j = self.join_env(And(*e1), s, st)
                    st.env = j.env
                    st.pc = [x for x in st.pc if x in s.pc]
        self.frame.loops.pop()
        self.join_breaks(st, lp)
        return UNIT

    def for_part(self, p, n, st, body):
        if p.op == 'one':
            return self.unroll([(p.a[0], None)], n, st, body)
        if p.op == 'for':
            lvl, coll, inner, brk = p.a
            # re-enter the loop the part came from
            def b2(s, l2):
                q = inner
                if l2 != lvl:
                    q = subst(inner, {mk('elem', lvl, coll): mk('elem', l2, coll), mk('idx', lvl, coll): mk('idx', l2, coll)})
                for x in parts_of(q, 'v'):
                    if s.dead:
                        break
                    self.for_part(x, n, s, body)
                return UNIT
            return self.for_base(coll, n, st, b2, brk=brk)
        if p.op == 'ite':
            def side(t):
                def f(s):
                    for x in parts_of(t, 'v'):
                        if s.dead:
                            break
                        self.for_part(x, n, s, body)
                    return UNIT
                return f
            return self.branch(st, p.a[0], side(p.a[1]), side(p.a[2]))
        if p.op == 'cat':
            for x in p.a[1]:
                self.for_part(x, n, st, body)
            return UNIT
        return self.for_over(p, n, st, body) if p.op != 'cat' else UNIT

    def for_base(self, coll, n, st, body, brk=FALSE):
        lvl = self.level(coll)
        return self.loop_core(n, st, lambda s: body(s, lvl), coll, 'for', lvl, prebrk=brk)

    def e_while(self, n, st):
        def body(s):
            c = self.eval(n['c'], s)
            if s.dead:
                return UNIT
            c = s.simp(c)
            if c is FALSE:
                self.frame.loops[-1].breaks.append((s.fork(), UNIT))
                s.dead = True
                return UNIT
            self.frame.loops[-1].cond = c
            if c is not TRUE:
                ex = s.fork(Not(c))
                self.frame.loops[-1].exit = ex
                s.add(c)
            return self.block(n['b'], s)
        return self.loop_core(n, st, body, None, 'while', 0)

    def e_cfor(self, n, st):
        sh = {}
        for s in n['init']:
            if s['k'] == 'let':
                self.let(s, st, sh)
            else:
                self.eval(s['e'], st)
        return self.loop_core(n, st, lambda s: self.while_body(n, s), None, 'while', 0, update=n.get('u'))

    def while_body(self, n, s):
        c = self.eval(n['c'], s)
        if s.dead:
            return UNIT
        c = s.simp(c)
        self.frame.loops[-1].cond = c
        if c is FALSE:
            s.dead = True
            return UNIT
        if c is not TRUE:
            self.frame.loops[-1].exit = s.fork(Not(c))
            s.add(c)
        return self.block(n['b'], s)

    def e_dowhile(self, n, st):
        def body(s):
            self.block(n['b'], s)
            lp = self.frame.loops[-1]
            for x in lp.conts:
                if s.dead:
                    s.env, s.pc, s.dead = x.env, x.pc, False
                else:
                    j = self.join_env(And(*[c for c in x.pc if c not in s.pc]), x, s)
                    s.env = j.env
                    s.pc = [c for c in s.pc if c in x.pc]
            lp.conts = []
            if s.dead:
                return UNIT
            c = s.simp(self.eval(n['c'], s))
            lp.cond = c
            lp.post = True
            if c is not TRUE:
                lp.exit = s.fork(Not(c))
                s.add(c)
            return UNIT
        return self.loop_core(n, st, body, None, 'dowhile', 0)

    def e_loop(self, n, st):
        return self.loop_core(n, st, lambda s: self.block(n['b'], s), None, 'loop', 0)

    def loop_core(self, n, st, body, coll, kind, lvl, prebrk=FALSE, update=None):
        label = n.get('label') if n else None
        uid = self.fresh()
        # --- pass 1: which paths does the body write?
        rec, nev, nunk = self.record, len(self.events), len(self.unknown)
        self.record = False
        nr = len(self.frame.rets)
        written = set()
        known = set(st.env)
        cur = st.fork()
        for rnd in range(2):
            s1 = cur.fork()
            lp = self.push_loop(uid, lvl, coll if coll is not None else mk('iter', uid), label, len(st.pc), kind)
            try:
                body(s1)
                outs = ([s1] if not s1.dead else []) + lp.conts
                if update is not None:
                    for s in outs:
                        self.eval(update, s)
            finally:
                self.pop_loop()
            new = set()
            for s in outs + [b[0] for b in lp.breaks] + ([lp.exit] if getattr(lp, 'exit', None) else []):
                for k, v in s.env.items():
                    if cur.env.get(k) is not v and (k in known or (len(k) > 1 and (k[:1] in known))):
                        new.add(k)
                for k in known:
                    if k not in s.env and k in cur.env and len(k) > 1:
                        new.add(k)
            if new <= written:
                break
            written |= new
            for k in sorted(new, key=korder):
                v0 = self.read(cur, k)
                cur.env[k] = mk('lv', uid, '.'.join(k), v0 if v0 is not None else mk('sym', '.'.join(k).split('#')[-1]))
        del self.frame.rets[nr:]
        self.record = rec
        del self.events[nev:]
        del self.unknown[nunk:]
        # --- pass 2 (what is inside of a variable comes after it)
        written = sorted(written, key=korder)
        init = {}
        for k in written:
            v0 = self.read(st, k)
            if v0 is None:
                v0 = mk('sym', '.'.join(k).split('#')[-1])
            init[k] = v0
        ph = {}
        s = st.fork()
        for k in written:
            for kk in [kk for kk in s.env if len(kk) > len(k) and kk[:len(k)] == k]:
                del s.env[kk]
            ph[k] = mk('lv', uid, '.'.join(k), init[k])
            s.env[k] = ph[k]
        idxvar = None
        if coll is None and kind == 'while':
            idxvar = self.index_idiom(n, st, s, body, ph, init, uid, update, label)
        base = coll
        if idxvar is not None:
            k, base = idxvar
            lvl = self.level(base)
            s.env[k] = mk('idx', lvl, base)
            ph[k] = s.env[k]
        if base is None:
            base = mk('iter', uid)
        lp = self.push_loop(uid, lvl, base, label, len(st.pc), 'for' if idxvar is not None else kind)
        pcl = len(s.pc)
        if idxvar is not None:
            s.pc.append(Lt(ph[idxvar[0]], self.mk_len(base)))
        nr = len(self.frame.rets)
        try:
            body(s)
            outs = ([s] if not s.dead else []) + lp.conts
            if update is not None:
                for x in outs:
                    self.eval(update, x)
        finally:
            self.pop_loop()
        if idxvar is not None:
            written = [k for k in written if k != idxvar[0]]
        # value carried to the next iteration
        nxt = None
        for x in outs:
            if nxt is None:
                nxt = x
            else:
                e1 = [c for c in x.pc if c not in nxt.pc]
                nxt2 = self.join_env(And(*e1), x, nxt)
                nxt2.pc = [c for c in x.pc if c in nxt.pc]
                nxt = nxt2
        brk_conds = [And(*b[0].pc[pcl:]) for b in lp.breaks]
        brk = Or(prebrk, *brk_conds) if brk_conds else prebrk
        rets = self.frame.rets[nr:]
        final = {}
        for k in written:
            nv = self.read(nxt, k) if nxt is not None else ph[k]
            if nv is None:
                nv = ph[k]
            d = delta(nv, ph[k])
            if nv is ph[k]:
                final[k] = init[k]
            elif d is not None:
                kd, tail, head = d
                parts = parts_of(init[k], kd)
                if head:
                    parts = [mk('for', lvl, base, Cat(kd, head), mk('revacc', brk))] + parts
                if tail:
                    parts = parts + [mk('for', lvl, base, Cat(kd, tail), brk)]
                final[k] = Cat(kd, parts)
            else:
                final[k] = mk('lout', uid, '.'.join(k), init[k], nv, base, brk)
        if self.record:
            self.loopinfo[uid] = dict(init=init, ph=dict(ph), next={k: (self.read(nxt, k) if nxt is not None else None) for k in written},
                                      brk=brk_conds, kind=kind, base=base, level=lvl, loc=self.loc(n), final=final, rets=rets, nextpc=list(nxt.pc[pcl:]) if nxt else [],
                                      conds=[x.pc[pcl:] for x in outs], cond=lp.cond, post=getattr(lp, 'post', False), exitpc=list(lp.exit.pc[pcl:]) if getattr(lp, 'exit', None) is not None else None, pre=list(st.pc), vars={k: v for k, v in st.env.items() if len(k) == 1 and k[0].startswith('%d#' % self.frame.fid)}, node=n, seq=len(self.events), via=n.get('n') if n and n.get('k') == 'mcall' else None)
        # state after the loop
        exits = []
        has_normal = kind in ('for', 'while', 'dowhile') or idxvar is not None
        if has_normal:
            e = st.fork()
            src = None
            ex = getattr(lp, 'exit', None)
            if ex is not None and idxvar is None:
                for c in ex.pc[pcl:]:
                    if c not in e.pc:
                        e.pc.append(c)
            for k in written:
                for kk in [kk for kk in e.env if len(kk) > len(k) and kk[:len(k)] == k]:
                    del e.env[kk]
                e.env[k] = final[k]
            if idxvar is not None:
                e.env[idxvar[0]] = self.mk_len(base)
            if kind == 'for' or idxvar is not None:
                for pc, v, _, lps in rets:
                    own = len(self.loopstack) - self.frame.base_loops + 1
                    if len(lps) >= own:
                        ec = And(*[c for c in pc if c not in st.pc])
                        for _, coll2, lvl2 in reversed(lps[own:]):
                            ec = mk('exists', coll2, lvl2, ec)
                        e.pc.append(Not(mk('exists', base, lvl, ec)))
            exits.append(e)
        for b, bv in lp.breaks:
            e = b.fork()
            for k in written:
                bvv = self.read(b, k)
                if bvv is None:
                    bvv = ph[k]
                d = delta(bvv, ph[k])
                fk = final[k]
                if bvv is ph[k]:
                    nvv = fk
                elif d is not None and d[1] and not d[2]:
                    nvv = Cat(d[0], parts_of(fk, d[0]) + list(d[1]))
                else:
                    nvv = subst(bvv, {ph[k]: fk}) if contains(bvv, ph[k]) else bvv
                for kk in [kk for kk in e.env if len(kk) > len(k) and kk[:len(k)] == k]:
                    del e.env[kk]
                e.env[k] = nvv
            exits.append(e)
        if not exits:
            st.dead = True
            return UNIT
        val = UNIT
        bvals = [bv for _, bv in lp.breaks]
        out = exits[0]
        if bvals and not has_normal:
            val = bvals[0]
        for i, e in enumerate(exits[1:], 1):
            extra = [c for c in e.pc if c not in st.pc]
            c = And(*extra)
            if kind == 'for' or idxvar is not None:
                c = mk('exists', base, lvl, c)
            common = [x for x in out.pc if x in e.pc]
            e2 = [x for x in out.pc if x not in e.pc]
            j = self.join_env(c, e, out)
            j.pc = common
            dd = Or(And(*extra), And(*e2)) if not (kind == 'for' or idxvar is not None) else TRUE
            if dd is not TRUE and len(extra) + len(e2) <= 10:
                j.pc = common + [dd]
            out = j
            if bvals:
                bi = i if not has_normal else i - 1
                val = self.ite(c, bvals[bi], val)
        if has_normal and len(exits) > 1 and (kind == 'for' or idxvar is not None):
            pass
        st.env, st.pc, st.dead = out.env, out.pc, False
        # forget loop-local variables is not needed: names are frame unique
        return val

    def push_loop(self, uid, lvl, coll, label, base, kind):
        lp = Loop(uid, lvl, coll, label, base)
        lp.kind = kind
        lp.exit = None
        self.frame.loops.append(lp)
        self.loopstack.append(lp)
        return lp

    def pop_loop(self):
        self.frame.loops.pop()
        self.loopstack.pop()

    def index_idiom(self, n, st, s, body, ph, init, uid, update, label):
        """while i < xs.len() { ... i += 1 }: the counter enumerates xs."""
        cands = [k for k in ph if len(k) == 1 and uncast(init[k]) is Int(0)]
        if not cands or not n or n.get('c') is None:
            return None
        rec, nev, nr, nu = self.record, len(self.events), len(self.frame.rets), len(self.unknown)
        self.record = False
        res = None
        try:
            t = s.fork()
            c = self.eval(n['c'], t)
            for x in (c.a if c.op == 'and' else (c,)):
                if x.op == '<':
                    for k in cands:
                        if x.a[0] is ph[k] and uncast(x.a[1]).op == 'len':
                            coll = uncast(x.a[1]).a[0]
                            if any(contains(coll, p) for p in ph.values()):
                                continue
                            t = s.fork(c)
                            lp = self.push_loop(uid, 0, mk('iter', uid), label, len(st.pc), 'while')
                            try:
                                self.block(n['b'], t)
                                outs = ([t] if not t.dead else []) + lp.conts
                                if update is not None:
                                    for o in outs:
                                        self.eval(update, o)
                            finally:
                                self.pop_loop()
                            step = mk('bin', '+', ph[k], Int(1))
                            if outs and all(uncast(self.read(o, k)) is step for o in outs) and c.op == '<':
                                res = (k, coll)
        finally:
            self.record = rec
            del self.events[nev:]
            del self.frame.rets[nr:]
            del self.unknown[nu:]
        return res

    # ---- closures ------------------------------------------------------------
    def e_closure(self, n, st):
        i = self.fresh()
        self.closures[i] = ('cl', n, self.frame.fid, self.frame.fn, self.frame.selfty)
        return mk('closure', i)

    def e_fn(self, n, st):
        i = self.fresh()
        self.closures[i] = ('cl', {'params': [p['pat'] for p in n['params']], 'b': n['body'], 'k': 'closure', 'l': n['l']}, self.frame.fid, self.frame.fn, self.frame.selfty)
        return mk('closure', i)

    def apply(self, f, args, st, node):
        """Call a function value."""
        if f.op == 'closure':
            c = self.closures[f.a[0]]
            if c[0] == 'fn':
                return self.call_fn(c[1], args, st, node)
            _, n, fid, fn, selfty = c
            if sum(1 for x in self.frames if getattr(x, 'cid', None) == f.a[0]) >= 1 or len(self.frames) > self.max_depth:
                return mk('call', 'closure', *args)
            fr = Frame(self.fresh(), fn, len(st.pc), len(self.loopstack))
            fr.selfty = selfty
            fr.closure = True
            fr.parent = fid
            fr.cid = f.a[0]
            self.parents[fr.fid] = fid
            self.frames.append(fr)
            try:
                for i, p in enumerate(n['params']):
                    v = args[i] if i < len(args) else ctor('undefined')
                    c, b = self.match(p, v)
                    self.bind(st, b)
                v = self.block(n['b'], st) if n['b']['k'] == 'block' else self.eval(n['b'], st)
                return self.finish_fn(fr, st, v)
            finally:
                self.frames.pop()
        if f.op == 'fnref':
            fn = self.fn_by_path(f.a[0])
            if fn:
                if fn.node.get('self'):
                    return self.call_fn(fn, args[1:], st, node, selfv=args[0])
                r = self.call_fn(fn, args, st, node)
                if r is not None:
                    return r
            return mk('call', f.a[0], *args)
        if f.op == 'sym':
            n = f.a[0].split('::')[-1]
            if n in ('Some', 'Ok', 'Err'):
                return ctor(n, *args)
            if n in STRIP or n in ('from',):
                return args[0]
            if n[:1].isupper():
                return ctor(n, *args)
            return mk('call', f.a[0], *args)
        if f.op == 'ctor':
            return ctor(f.a[0], *args)
        return mk('call', '?', f, *args)

    # ---- aggregates ------------------------------------------------------------
    def e_tuple(self, n, st):
        if not n['e']:
            return UNIT
        return mk('tuple', *[self.eval(x, st) for x in n['e']])

    def e_array(self, n, st):
        if any(x['k'] == 'spread' for x in n['e']):
            parts = []
            for x in n['e']:
                if x['k'] == 'spread':
                    parts.append(self.eval(x['e'], st))
                else:
                    parts.append(mk('one', self.eval(x, st)))
            return Cat('v', parts)
        return mk('list', *[self.eval(x, st) for x in n['e']]) if n['e'] else EMPTY_V

    def e_spread(self, n, st):
        return mk('spread', self.eval(n['e'], st))

    def e_repeat(self, n, st):
        return mk('rep', self.eval(n['e'], st), self.eval(n['n'], st))

    def e_slit(self, n, st):
        p = n['p']
        fs = tuple((f, self.eval(e, st)) for f, e in n['f'])
        if st.dead:
            return UNIT
        name = p
        if p == 'Self' and self.frame.selfty:
            name = self.frame.selfty
        elif p:
            r = self.p.resolve(self.frame.fn.mod if self.frame.fn else 'crate', p.split('::'))
            name = r or p
        # enum struct variants are constructors
        if n.get('rest'):
            r = self.eval(n['rest'], st)
            return mk('upd', r, tuple(sorted(fs)))
        v = mk('slit', name, fs)
        if self.lang == 'rs':
            self.event('lit', st, n, name=name, val=v)
        return v

    def e_range(self, n, st):
        a = self.eval(n['a'], st) if n.get('a') else mk('nolo')
        b = self.eval(n['b'], st) if n.get('b') else mk('nohi')
        return mk('range', a, b, bool(n.get('incl')))

    def e_tmpl(self, n, st):
        parts = [Str(n['parts'][0])]
        for a, s in zip(n['a'], n['parts'][1:]):
            parts.append(self.eval(a, st))
            parts.append(Str(s))
        return Cat('s', parts)

    def e_new(self, n, st):
        args = [self.eval(a, st) for a in n['a']]
        if st.dead:
            return UNIT
        ty = n['ty']
        if ty == 'Error':
            return ctor('Error', *args)
        t = self.p.parse_type(ty, self.frame.fn.mod if self.frame.fn else 'crate')
        if t.name not in self.p.items and '::' in ty.replace('.', '::'):
            # a class of a module that is not part of the program
            segs = ty.split('<')[0].replace('.', '::').split('::')
            m = self.p.resolve(self.frame.fn.mod if self.frame.fn else 'crate', segs[:1])
            if m in self.p.mods:
                t = Ty('::'.join([m] + segs[1:]))
        self.event('new', st, n, name=t.name, args=args)
        if ty == 'Promise' and args and args[0].op == 'closure':
            s2 = st.fork()
            res = []
            self.clctx.append('promise')
            u = self.fresh()
            self.dropped(self.apply(args[0], [mk('sym', 'resolve%d' % u), mk('sym', 'reject%d' % u)], s2, n), s2, n)
            self.clctx.pop()
            self.absorb(st, s2)
            return mk('promise', u)
        h = self.hooks.get('new')
        if h:
            v = h(self, t.name.split('::')[-1], args, st, n)
            if v is not None:
                return v
        v = mk('new', t.name, *args)
        for a in args:
            self.visit_closures(a, st, n, 'new ' + t.name)
        return v

    def dropped(self, v, st, n):
        """a value nobody looks at: a promise among them may fail unnoticed"""
        if self.lang == 'ts' and not st.dead and v is not None and v.op in ('promise', 'mcall', 'call', 'ite'):
            self.event('drop', st, n, name='drop', args=(v,))

    def absorb(self, st, s2):
        """A deferred body may have run: written paths get a may-value."""
        if s2.dead:
            return
        for k, v in s2.env.items():
            o = st.env.get(k)
            if o is not v and o is not None and o.op != 'alias' and v.op != 'alias':
                st.env[k] = Ite(mk('deferred', self.fresh()), v, o)

    def visit_closures(self, a, st, n, what, params=6):
        """Closures handed to code that is not part of the program: analyse the body once, with unknown arguments."""
        if a.op in ('closure',):
            c = self.closures[a.a[0]]
            np = len(c[1]['params']) if c[0] == 'cl' else len(c[1].node['params'])
            u = self.fresh()
            args = []
            for i in range(np):
                pt = c[1]['params'][i] if c[0] == 'cl' else c[1].node['params'][i]['pat']
                v = mk('sym', 'cb%d.%d' % (u, i))
                if pt.get('ty'):
                    ty = self.p.parse_type(pt['ty'], self.frame.fn.mod if self.frame.fn else 'crate')
                    if ty != UNKNOWN:
                        self.types[v] = ty
                args.append(v)
            s2 = st.fork()
            self.clctx.append(what)
            self.apply(a, args, s2, n)
            self.clctx.pop()
            self.absorb(st, s2)
        elif a.op in ('slit', 'list', 'tuple'):
            for x in a.a:
                if isinstance(x, T):
                    self.visit_closures(x, st, n, what)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], T):
                            self.visit_closures(y[1], st, n, what)

    def e_select(self, n, st):
        """One arm runs; which one is not known."""
        uid = self.fresh()
        arms = n['arms']

        def go(i, s):
            if i >= len(arms):
                s.dead = True
                return UNIT
            a = arms[i]
            c = mk('selected', uid, i)

            def take(x):
                if a['fut']:
                    v = self.eval(a['fut'], x)
                    if x.dead:
                        return UNIT
                    cc, b = self.match(a['pat'], v)
                    if cc is not TRUE:
                        x.add(cc)
                        if x.dead:
                            return UNIT
                    self.bind(x, b)
                return self.eval(a['body'], x)
            if a.get('guard'):
                # a disabled arm is never taken
                g = self.eval(a['guard'], s)
                if s.dead:
                    return UNIT
                if i == len(arms) - 1:
                    s.add(g)
                    return UNIT if s.dead else take(s)
                return self.branch(s, And(g, c), take, lambda x: go(i + 1, x))
            if i == len(arms) - 1:
                return take(s)
            return self.branch(s, c, take, lambda x: go(i + 1, x))
        return go(0, st)

    # ---- macros ------------------------------------------------------------
    def e_mac(self, n, st):
        name = n['n']
        if name == 'vec':
            if 'rep' in n:
                x, cnt = self.eval(n['rep'][0], st), self.eval(n['rep'][1], st)
                if not st.dead:
                    self.event('alloc', st, n, name='vec!', args=(cnt,))
                return mk('rep', x, cnt)
            return mk('list', *[self.eval(x, st) for x in n['a']]) if n.get('a') else EMPTY_V
        if name in ('format', 'format_args', 'concat'):
            return self.format(n, st) if name != 'concat' else Cat('s', [self.eval(x, st) for x in n['a']])
        if name in ('println', 'eprintln', 'print', 'eprint', 'debug', 'info', 'warn', 'error', 'trace', 'log', 'verbose', 'err', 'verb'):
            v = self.format(n, st) if n.get('a') and n['a'][0]['k'] == 'lit' else Str('')
            if not st.dead:
                self.event('print', st, n, name=name, args=(v,))
            return UNIT
        if name in ('write', 'writeln'):
            p = self.lvalue(n['a'][0], st)
            m = dict(n)
            m['a'] = n['a'][1:]
            m['an'] = n['an'][1:]
            v = self.format(m, st) if m['a'] else Str('')
            if name == 'writeln':
                v = Cat('s', [v, Str('\n')])
            if st.dead:
                return UNIT
            if p is not None:
                self.write(st, p, Cat('s', [self.read(st, p), v]), n)
            else:
                self.event('call', st, n, name='write!', args=(self.eval(n['a'][0], st), v))
            return ctor('Ok', UNIT)
        if name in ('panic', 'unreachable', 'todo', 'unimplemented', 'stop'):
            v = self.format(n, st) if n.get('a') and n['a'][0]['k'] == 'lit' else Str('')
            self.event('panic', st, n, name=name, args=(v,))
            st.dead = True
            return UNIT
        if name in ('assert', 'debug_assert'):
            c = self.eval(n['a'][0], st)
            self.event('assert', st, n, name=name, args=(c,))
            if name == 'assert':
                st.add(c)
            return UNIT
        if name in ('assert_eq', 'assert_ne', 'debug_assert_eq'):
            for x in n['a'][:2]:
                self.eval(x, st)
            self.event('assert', st, n, name=name, args=())
            return UNIT
        if name in ('include_str',):
            f = n['a'][0]
            if f['k'] == 'lit':
                pth = os.path.normpath(os.path.join(os.path.dirname(self.frame.fn.file), f['v']))
                try:
                    with open(pth) as h:
                        return Str(h.read())
                except OSError:
                    return mk('unk', 'include_str', pth)
        if name in ('join', 'try_join', 'tokio::join'):
            # the arms run interleaved: what one has established when it ends says nothing about the others
            vs = [self.aside(x, st) for x in n.get('a') or []]
            return mk('tuple', *vs)
        if name in ('select',) and 'raw' in n:
            return self.unk(n, st)
        if name == 'matches':
            return self.unk(n, st)
        vs = []
        for x in n.get('a') or []:
            vs.append(self.eval(x, st))
        for s in n.get('block') or []:
            if s['k'] == 'expr':
                self.eval(s['e'], st)
        if st.dead:
            return UNIT
        self.event('mac', st, n, name=name, args=vs)
        return mk('mac', name, *vs)

    FMT = re.compile(r'\{\{|\}\}|\{([^{}]*)\}')

    def format(self, n, st):
        a = n.get('a') or []
        if not a:
            return Str('')
        f = self.eval(a[0], st)
        if f.op != 'str':
            for x in a[1:]:
                self.eval(x, st)
            return mk('cat', 's', (f,))
        named = {}
        pos = []
        for x, nm in zip(a[1:], (n.get('an') or [None] * len(a))[1:]):
            v = self.eval(x, st)
            if nm:
                named[nm] = v
            else:
                pos.append(v)
        if st.dead:
            return UNIT
        parts, last, i = [], 0, 0
        s = f.a[0]
        for m in self.FMT.finditer(s):
            parts.append(Str(s[last:m.start()]))
            last = m.end()
            g = m.group(0)
            if g == '{{':
                parts.append(Str('{'))
                continue
            if g == '}}':
                parts.append(Str('}'))
                continue
            spec = m.group(1)
            nm, _, fm = spec.partition(':')
            if nm == '':
                v = pos[i] if i < len(pos) else mk('unk', 'fmtarg')
                i += 1
            elif nm.isdigit():
                v = pos[int(nm)] if int(nm) < len(pos) else mk('unk', 'fmtarg')
            elif nm in named:
                v = named[nm]
            else:
                v = self.eval({'k': 'path', 'p': nm, 'l': n.get('l', 0)}, st)
            if fm == '?' or fm == '#?':
                v = mk('dbg', v)
            elif fm:
                v = mk('fmt', fm, v)
            parts.append(v)
        parts.append(Str(s[last:]))
        parts = [Str(str(uncast(p).a[0])) if uncast(p).op == 'int' else p for p in parts]
        return Cat('s', parts)

    # ---- calls ------------------------------------------------------------
    def e_call(self, n, st):
        f = n['f']
        if f['k'] == 'path':
            return self.call_path(f, n, st)
        fv = self.eval(f, st)
        args = [self.eval(a, st) for a in n['a']]
        if st.dead:
            return UNIT
        if fv.op in ('closure', 'fnref'):
            r = self.apply(fv, args, st, n)
            if r is not None:
                return r
        self.event('call', st, n, name='?', recv=fv, args=args)
        for a in args:
            self.visit_closures(a, st, n, 'call')
        return mk('call', '?', fv, *args)

    def args(self, n, st):
        f = n.get('f')
        if f and f['k'] == 'path' and f['p'].split('::')[-1] == 'spawn' and n['a'] and n['a'][0]['k'] in ('asyncb', 'call', 'mcall'):
            args = [self.aside(a, st) for a in n['a']]
        else:
            args = [self.eval(a, st) for a in n['a']]
        paths = []
        for a in n['a']:
            p = None
            if a['k'] == 'ref' and a.get('mut'):
                p = self.lvalue(a['e'], st)
            elif a['k'] in ('path', 'field'):
                p = self.lvalue(a, st)
                if p is not None and self.lang == 'rs':
                    # by-value move or reborrow of a &mut binding: aliasing is harmless
                    v = st.env.get(self.var(a['p'])) if a['k'] == 'path' else None
                    if not (v is not None and v.op == 'alias'):
                        p = None
                if self.lang == 'ts' and p is not None:
                    v = self.read(st, p)
                    if v is None or v.op in CONST or (v.op == 'cat' and v.a[0] == 's'):
                        p = None
            paths.append(p)
        return args, paths

    def call_path(self, f, n, st):
        name = f['p']
        segs = name.split('::')
        args, paths = self.args(n, st)
        if st.dead:
            return UNIT
        last = segs[-1]
        # local closure variable
        if len(segs) == 1:
            v = self.read(st, self.var(name))
            if v is None:
                o = self.outer_var(name, st)
                v = self.read(st, o) if o else None
            if v is not None:
                if v.op in ('closure', 'fnref'):
                    r = self.apply(v, args, st, n)
                    if r is not None:
                        return r
                self.event('call', st, n, name=name, recv=v, args=args)
                for a in args:
                    self.visit_closures(a, st, n, name)
                return mk('call', name, *args)
        if name in ('Some', 'Ok', 'Err'):
            return ctor(name, *args)
        if name in ('Number', 'BigInt', 'String', 'Boolean') and self.lang == 'ts' and len(args) == 1:
            return args[0]
        mod = self.frame.fn.mod if self.frame.fn else 'crate'
        fn, selfty, qual = None, None, name
        if f.get('q'):
            ty = self.p.parse_type(f['q'], mod, self.frame.selfty)
            fn = self.p.method(ty, last)
            selfty = ty.name
            qual = self.p.ty_str(ty) + '::' + last
        elif segs[0] == 'Self' and self.frame.selfty:
            ty = self.self_type()
            fn = self.p.method(ty, last)
            if fn is None:
                # default method of the trait being implemented
                fn = self.p.methods.get(self.frame.fn.owner, {}).get(last) if self.frame.fn else None
            selfty = self.frame.selfty
            qual = self.frame.selfty + '::' + last
        else:
            r = self.p.resolve(mod, segs)
            if r is None and len(segs) > 1 and len(segs[0]) == 1 and segs[0].isupper():
                qual = name         # associated function of a type parameter
            elif r is None and len(segs) > 1:
                # Type::method with a primitive or generic type
                ty = self.p.parse_type('::'.join(segs[:-1]) + ('<%s>' % f['g'][0] if f.get('g') and False else ''), mod, self.frame.selfty)
                fn = self.p.method(ty, last)
                if fn:
                    selfty = ty.name
                    qual = self.p.ty_str(ty) + '::' + last
                else:
                    b = self.p.resolve(mod, segs[:-1])
                    if b and b in self.p.items:
                        k = self.p.items[b][0]['k']
                        if k == 'enum':
                            t = self.mk_variant(b, last, args)
                            self.types.setdefault(t, Ty(b))
                            return t
                        fn = self.p.method(Ty(b), last)
                        selfty = b
                        qual = b + '::' + last
                    else:
                        u = self.p.unique(segs[-2], ('enum', 'struct', 'class', 'trait'))
                        if u:
                            if self.p.items[u][0]['k'] == 'enum' and last[:1].isupper():
                                t = self.mk_variant(u, last, args)
                                self.types.setdefault(t, Ty(u))
                                return t
                            fn = self.p.method(Ty(u), last)
                            selfty, qual = u, u + '::' + last
            elif r:
                qual = r
                if r in self.p.fns:
                    fn = self.p.fns[r]
                elif r in self.p.items and self.p.items[r][0]['k'] in ('struct',):
                    return ctor(last, *args)
                elif '::' in r:
                    b = '::'.join(r.split('::')[:-1])
                    it = self.p.items.get(b)
                    if it:
                        if it[0]['k'] == 'enum' and any(v['n'] == last for v in it[0]['v']):
                            t = self.mk_variant(b, last, args)
                            self.types.setdefault(t, Ty(b))
                            return t
                        fn = self.p.method(Ty(b), last)
                        selfty = b
            else:
                c = [a for a in self.p.by_name.get(name, []) if a in self.p.fns]
                if len(c) == 1:
                    fn = self.p.fns[c[0]]
                    qual = c[0]
        if fn is not None and fn.owner and self.lang == 'rs' and not fn.node.get('self') and len(fn.node.get('params') or ()) != len(args):
            # an associated function and one of a trait share the name
            c = [g for g in self.p.all_fns if g.owner == fn.owner and g.name == last and not g.node.get('self') and len(g.node.get('params') or ()) == len(args)]
            if c:
                fn = c[0]
        if fn is not None and not self.opaque(fn):
            if fn.node.get('self'):
                r = self.call_fn(fn, args[1:], st, n, selfv=args[0] if args else None, selfpath=paths[0] if paths else None, argpaths=paths[1:], selfty=selfty)
            else:
                r = self.call_fn(fn, args, st, n, argpaths=paths, selfty=selfty)
            if r is not None:
                return r
        b = self.builtin_call(name, last, args, st, n, f)
        if b is not None:
            return b
        if fn is None and last[:1].isupper() and len(segs) > 1:
            return ctor(last, *args)
        if getattr(self, 'generics', False) and f.get('g') and len(segs) > 1 and not f.get('q'):
            qual = self.p.ty_str(self.p.parse_type('::'.join(segs[:-1]) + '<%s>' % f['g'][0], mod, self.frame.selfty)) + '::' + last
        e = self.event('call', st, n, name=qual, args=args, extra=fn)
        for a in args:
            self.visit_closures(a, st, n, name)
        v = mk('call', qual, *args)
        if IMPURE.match(last) or fn is None and qual.split('::')[-2:] == ['CancellationToken', 'new']:
            v = mk('call', qual, *(list(args) + [mk('uid', self.fresh())]))
        self.havoc_args(n['a'], args, st, qual)
        if e:
            e.val = v
        if fn is None and self.lang == 'rs' and (name.endswith(('process::exit', 'process::abort')) or name in ('exit', 'abort')):
            st.dead = True
        return v

    def mk_variant(self, enum, last, args):
        v, mod = self.p.variant(Ty(enum), last)
        out = list(args)
        if v:
            for i, f in enumerate(v.get('f') or []):
                if i < len(out) and out[i].op == 'int' and width_of(f[1]):
                    out[i] = mk('cast', f[1], out[i])
        return ctor(last, *out)

    def self_type(self):
        s = self.frame.selfty
        if '<' in s:
            return self.p.resolve_type(parse_rs_type(s), self.frame.fn.mod)
        return Ty(s)

    def havoc_args(self, nodes, args, st, name):
        for a in nodes:
            if a['k'] == 'ref' and a.get('mut'):
                p = self.lvalue(a['e'], st)
                if p is not None:
                    self.write(st, p, mk('mut', self.read(st, p), name, self.fresh()))

    def builtin_call(self, name, last, args, st, n, f):
        if name in ('String::from', 'PathBuf::from', 'Path::new', 'Box::new', 'Arc::new', 'Mutex::new', 'RwLock::new', 'Rc::new', 'std::path::Path::new', 'RefCell::new', 'u64::from', 'usize::from', 'u32::from', 'Vec::from', 'Buffer::from', 'Cow::Borrowed'):
            if args:
                return args[0]
        if name in ('String::new', 'Vec::new', 'HashMap::new', 'HashSet::new', 'BTreeMap::new', 'Vec::with_capacity', 'String::with_capacity'):
            if last == 'with_capacity':
                self.event('alloc', st, n, name=name, args=args)
            return Str('') if name.startswith('String') else EMPTY_V if name.startswith('Vec') else mk('emptymap')
        if last == 'try_from' and len(args) == 1:
            h = self.hooks.get('call')
            return h and h(self, name, args, st, n) or mk('call', name, args[0])
        if name in ('std::mem::size_of', 'mem::size_of') or last == 'size_of':
            w = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8, 'usize': 8}
            g = (f.get('g') or [None])[-1]
            if g in w:
                return Int(w[g])
        if last == 'take' and name.endswith('mem::take') and n['a']:
            return None
        if name in ('std::mem::replace', 'mem::replace', 'std::mem::swap', 'mem::take', 'std::mem::take'):
            p = self.lvalue(n['a'][0], st)
            if p is not None and last != 'swap':
                self.write(st, p, args[1] if last == 'replace' else mk('default', args[0]), n)
                return args[0]
        h = self.hooks.get('call')
        if h:
            return h(self, name, args, st, n)
        return None

    def mk_len(self, v):
        if v.op == 'list':
            return Int(len(v.a))
        if v.op == 'str':
            return Int(len(v.a[0].encode()))
        if v.op == 'cat' and not v.a[1]:
            return Int(0)
        if v.op == 'emptymap':
            return Int(0)
        if v.op == 'rep':
            return v.a[1]
        if v.op in ('enumerate', 'rev', 'sorted', 'map'):
            return self.mk_len(v.a[0])
        if v.op == 'cat' and v.a[0] == 'v' and all(p.op in ('one', 'le') for p in v.a[1]):
            w = 0
            for p in v.a[1]:
                if p.op == 'one':
                    w += 1
                else:
                    x = width_of(p.a[0])
                    if x is None:
                        return mk('len', v)
                    w += x
            return Int(w)
        return mk('len', v)

    def e_mcall(self, n, st):
        name = n['n']
        rn = n['e']
        rp = self.lvalue(rn, st)
        r = self.eval(rn, st)
        if st.dead:
            return UNIT
        if self.lang == 'ts' and rn['k'] == 'path' and r.op == 'sym':
            v = self.static_call(rn['p'], r, name, n, st)
            if v is not None:
                return v
        if self.lang == 'ts' and rn['k'] == 'field' and r.op in ('sym', 'field'):
            v = self.static_call(show(r), r, name, n, st)
            if v is not None:
                return v
        if self.lang == 'ts' and r.op == 'sym' and r.a[0] in self.p.mods:
            # a function of an imported module
            ab = self.p.resolve(r.a[0], [name])
            if ab in self.p.fns:
                return self.call_path({'k': 'path', 'p': ab}, n, st)
        args, paths = self.args(n, st)
        if st.dead:
            return UNIT
        if r.op in ('slit', 'upd') and self.lang == 'ts':
            fv = self.project(r, name)
            if fv.op in ('closure', 'fnref'):
                v = self.apply(fv, args, st, n)
                if v is not None:
                    return v
        ty = self.typeof(r)
        fn = self.p.method(ty, name) if ty != UNKNOWN and not (len(ty.name) == 1 and ty.name not in self.p.items) else None
        if fn is None and self.lang == 'ts' and rn['k'] == 'path' and rn['p'] == 'super' and self.frame.selfty:
            it = self.p.items.get(self.frame.fn.owner or '')
            if it and it[0].get('ext'):
                fn = self.p.method(self.p.parse_type(it[0]['ext'], it[1]), name)
                rp = self.lvalue({'k': 'path', 'p': 'self'}, st)
                r = self.read(st, self.var('self')) or r
        if fn is None and r.op == 'sym' and r.a[0] == 'self' and self.frame.selfty:
            fn = self.p.method(self.self_type() if '<' in (self.frame.selfty or '') else Ty(self.frame.selfty), name)
        if fn is None:
            b = self.builtin_method(r, name, args, st, n, rp)
            if b is not None:
                return b
        if fn is None and ty == UNKNOWN or (fn is None and ty.name not in self.p.items and ty.name[:1].isupper() and len(ty.name) == 1):
            c = self.p.by_method.get(name, [])
            if len(c) == 1 and not self.builtin_name(name):
                fn = c[0]
        if fn is not None and not self.opaque(fn):
            sv = r
            v = self.call_fn(fn, args, st, n, selfv=sv, selfpath=rp, argpaths=paths, selfty=ty.name if (ty != UNKNOWN and ty.name in self.p.items) else None)
            if v is not None:
                return v
        # field holding a closure (TypeScript callbacks)
        e = self.event('call', st, n, name=name, recv=r, args=args, extra=fn)
        for a in args:
            self.visit_closures(a, st, n, name)
        v = mk('mcall', r, name, *args)
        if IMPURE.match(name):
            v = mk('mcall', r, name, *(list(args) + [mk('uid', self.fresh())]))
        if name in ('as_secs', 'as_millis', 'as_micros'):
            self.types[v] = Ty('u64' if name == 'as_secs' else 'u128')
        if fn is not None and fn.node.get('ret'):
            self.types.setdefault(v, self.p.parse_type(fn.node['ret'], fn.mod, fn.owner))
        self.havoc_args(n['a'], args, st, name)
        if self.lang == 'rs' and rp is not None and (fn.node.get('sm') if fn is not None else self.p.self_mut.get(name) == {True}):
            self.write(st, rp, mk('mut', r, name, self.fresh(), *args))
        elif fn is None and rp is not None and name in (STD_MUT_RS if self.lang == 'rs' else STD_MUT_TS) and e is not None:
            self.write(st, rp, mk('mut', r, name, self.fresh(), *args))
        if e:
            e.val = v
        return v

    def static_call(self, rname, r, name, n, st):
        """TypeScript Class.method(..)"""
        ab = r.a[0] if r.op == 'sym' else None
        if ab not in self.p.items:
            mod = self.frame.fn.mod if self.frame.fn else 'crate'
            ab = self.p.resolve(mod, rname.replace('.', '::').split('::'))
            if not (ab in self.p.items and self.p.items[ab][0]['k'] == 'class'):
                ab = self.p.unique(rname.replace('.', '::').split('::')[-1], ('class',)) or ab
        if ab in self.p.items and self.p.items[ab][0]['k'] == 'class':
            fn = self.p.method(Ty(ab), 'static ' + name) or self.p.method(Ty(ab), name)
            if fn and not self.opaque(fn):
                args, paths = self.args(n, st)
                v = self.call_fn(fn, args, st, n, selfv=mk('sym', ab), argpaths=paths)
                if v is not None:
                    return v
        return None

    BUILTIN = set('len is_empty push push_str append extend insert remove get get_mut contains contains_key map filter iter join find any all position next unwrap expect ok err is_some is_none is_ok is_err clear pop drain split trim starts_with ends_with replace chars lines to_lowercase to_uppercase forEach concat slice set has delete keys values entries then catch toString send recv lock read write'.split())

    def builtin_name(self, name):
        return name in self.BUILTIN

    def builtin_method(self, r, name, args, st, n, rp):
        h = self.hooks.get('premethod')
        if h:
            v = h(self, r, name, args, st, n, rp)
            if v is not None:
                return v
        m = getattr(self, 'm_' + name, None)
        if name in STRIP and not args and not (name == 'next'):
            return r
        if name in ('lock', 'write', 'read', 'await') and not args:
            return mk('lockres', r) if False else r
        if m:
            return m(r, args, st, n, rp)
        h = self.hooks.get('method')
        if h:
            return h(self, r, name, args, st, n, rp)
        return None

    # Option / Result
    def m_is_some(self, r, a, st, n, rp): return Is('Some', self.norm_find(r))
    def m_is_none(self, r, a, st, n, rp): return Not(Is('Some', self.norm_find(r)))
    def m_is_ok(self, r, a, st, n, rp): return Is('Ok', r)
    def m_is_err(self, r, a, st, n, rp): return Not(Is('Ok', r))

    def norm_find(self, r):
        return r

    OPTS = frozenset('recv get get_mut first last pop as_deref_mut as_deref'.split())

    def optish(self, r):
        return self.lang == 'rs' and r.op == 'mcall' and r.a[1] in self.OPTS and self.typeof(r).name not in ('Vec', 'Result')

    def okname(self, r):
        ty = self.typeof(r)
        if ty.name == 'Option' or self.optish(r) or 'Some' in ctor_names(r) or 'None' in ctor_names(r):
            return 'Some'
        return 'Ok'

    def m_unwrap(self, r, a, st, n, rp):
        nm = self.okname(r)
        c = st.simp(Is(nm, r))
        if c is not TRUE:
            s2 = st.fork(Not(c))
            if not s2.dead:
                self.event('unwrap', s2, n, name='unwrap', recv=r)
            if c is not FALSE:
                st.add(c)
        return self.proj(nm, 0, r)
    m_expect = m_unwrap

    def m_unwrap_or(self, r, a, st, n, rp):
        nm = self.okname(r)
        c = st.simp(Is(nm, r))
        return self.ite(c, self.proj(nm, 0, r), a[0])

    def m_unwrap_or_default(self, r, a, st, n, rp):
        nm = self.okname(r)
        c = st.simp(Is(nm, r))
        return self.ite(c, self.proj(nm, 0, r), mk('default', self.proj(nm, 0, r)))

    def m_unwrap_or_else(self, r, a, st, n, rp):
        nm = self.okname(r)
        return self.branch(st, Is(nm, r), lambda s: self.proj(nm, 0, r), lambda s: self.apply(a[0], [self.proj('Err', 0, r)] if nm == 'Ok' else [], s, n))

    def m_map(self, r, a, st, n, rp):
        if not a:
            return None
        ty = self.typeof(r)
        if ty.name in ('Option', 'Result') or self.optish(r) or ctor_names(r) & {'Some', 'None', 'Ok', 'Err'}:
            nm = self.okname(r)
            return self.branch(st, Is(nm, r), lambda s: ctor(nm, self.apply(a[0], [self.proj(nm, 0, r)], s, n)),
                               lambda s: NONE if nm == 'Some' else ctor('Err', self.proj('Err', 0, r)))
        return self.seq_map(r, a[0], st, n)

    def seq_map(self, r, f, st, n):
        """xs.map(f): evaluated as an accumulation."""
        acc = self.var('%map' + str(self.fresh()))
        st.env[acc] = EMPTY_V

        def body(s, e):
            v = self.apply(f, [e], s, n)
            if not s.dead:
                s.env[acc] = Cat('v', [s.env[acc], mk('one', v)])
            return UNIT
        self.for_over(r, dict(n, label=None), st, body)
        return st.env.pop(acc, EMPTY_V)

    def m_map_err(self, r, a, st, n, rp):
        return self.branch(st, Is('Ok', r), lambda s: ctor('Ok', self.proj('Ok', 0, r)), lambda s: ctor('Err', self.apply(a[0], [self.proj('Err', 0, r)], s, n)))

    def m_ok_or(self, r, a, st, n, rp):
        return self.ite(st.simp(Is('Some', r)), ctor('Ok', self.proj('Some', 0, r)), ctor('Err', a[0]))

    def m_ok_or_else(self, r, a, st, n, rp):
        return self.branch(st, Is('Some', r), lambda s: ctor('Ok', self.proj('Some', 0, r)), lambda s: ctor('Err', self.apply(a[0], [], s, n)))

    def m_ok(self, r, a, st, n, rp):
        if a:
            return None
        return self.ite(st.simp(Is('Ok', r)), ctor('Some', self.proj('Ok', 0, r)), NONE)

    def m_err(self, r, a, st, n, rp):
        if a:
            return None
        return self.ite(st.simp(Is('Ok', r)), NONE, ctor('Some', self.proj('Err', 0, r)))

    def m_and_then(self, r, a, st, n, rp):
        nm = self.okname(r)
        return self.branch(st, Is(nm, r), lambda s: self.apply(a[0], [self.proj(nm, 0, r)], s, n),
                           lambda s: NONE if nm == 'Some' else ctor('Err', self.proj('Err', 0, r)))

    def m_or_else(self, r, a, st, n, rp):
        nm = self.okname(r)
        return self.branch(st, Is(nm, r), lambda s: ctor(nm, self.proj(nm, 0, r)), lambda s: self.apply(a[0], [] if nm == 'Some' else [self.proj('Err', 0, r)], s, n))

    def m_or(self, r, a, st, n, rp):
        nm = self.okname(r)
        return self.ite(st.simp(Is(nm, r)), r, a[0])

    def m_map_or(self, r, a, st, n, rp):
        nm = self.okname(r)
        return self.branch(st, Is(nm, r), lambda s: self.apply(a[1], [self.proj(nm, 0, r)], s, n), lambda s: a[0])

    def m_map_or_else(self, r, a, st, n, rp):
        nm = self.okname(r)
        return self.branch(st, Is(nm, r), lambda s: self.apply(a[1], [self.proj(nm, 0, r)], s, n),
                           lambda s: self.apply(a[0], [] if nm == 'Some' else [self.proj('Err', 0, r)], s, n))

    def m_is_some_and(self, r, a, st, n, rp):
        return self.branch(st, Is('Some', r), lambda s: self.apply(a[0], [self.proj('Some', 0, r)], s, n), lambda s: FALSE)

    def m_filter(self, r, a, st, n, rp):
        ty = self.typeof(r)
        if ty.name == 'Option' or self.optish(r) or ctor_names(r) & {'Some', 'None'}:
            return self.branch(st, Is('Some', r), lambda s: Ite(self.apply(a[0], [self.proj('Some', 0, r)], s, n), r, NONE), lambda s: NONE)
        acc = self.var('%flt' + str(self.fresh()))
        st.env[acc] = EMPTY_V

        def body(s, e):
            v = self.apply(a[0], [e], s, n)
            if not s.dead:
                c = s.simp(v)
                s.env[acc] = Cat('v', [s.env[acc], Ite(c, Cat('v', [mk('one', e)]), EMPTY_V)])
            return UNIT
        self.for_over(r, dict(n, label=None), st, body)
        return st.env.pop(acc, EMPTY_V)

    def m_retain(self, r, a, st, n, rp):
        if rp is None or len(a) != 1 or self.typeof(r).name != 'Vec' and r.op not in ('keys', 'values', 'filter', 'cat', 'map') or seq_kind(r) == 's' or a[0].op not in ('closure', 'fnref'):
            return None
        self.event('call', st, n, name='retain', recv=r, args=a)
        self.write(st, rp, self.m_filter(r, a, st, n, None), None)
        return UNIT

    def m_filter_map(self, r, a, st, n, rp):
        acc = self.var('%fm' + str(self.fresh()))
        st.env[acc] = EMPTY_V

        def body(s, e):
            v = self.apply(a[0], [e], s, n)
            if not s.dead:
                c = s.simp(Is('Some', v))
                s.env[acc] = Cat('v', [s.env[acc], Ite(c, Cat('v', [mk('one', self.proj('Some', 0, v))]), EMPTY_V)])
            return UNIT
        self.for_over(r, dict(n, label=None), st, body)
        return st.env.pop(acc, EMPTY_V)

    def m_flat_map(self, r, a, st, n, rp):
        acc = self.var('%fl' + str(self.fresh()))
        st.env[acc] = EMPTY_V

        def body(s, e):
            v = self.apply(a[0], [e], s, n)
            if not s.dead:
                s.env[acc] = Cat('v', [s.env[acc], v])
            return UNIT
        self.for_over(r, dict(n, label=None), st, body)
        return st.env.pop(acc, EMPTY_V)

    def m_for_each(self, r, a, st, n, rp):
        def body(s, e):
            self.apply(a[0], list(e.a)[::-1] if (self.lang == 'ts' and e.op == 'tuple' and False) else [e], s, n)
            return UNIT
        self.for_over(r, dict(n, label=None), st, body)
        return UNIT

    def m_try_for_each(self, r, a, st, n, rp):
        if len(a) != 1 or self.lang == 'ts':
            return None
        fr = Frame(self.fresh(), self.frame.fn, len(st.pc), len(self.loopstack))
        fr.selfty = self.frame.selfty
        fr.closure = True
        fr.parent = self.frame.fid
        self.parents[fr.fid] = self.frame.fid
        self.frames.append(fr)
        try:
            def body(s, e):
                v = self.apply(a[0], [e], s, n)
                if not s.dead:
                    self.try_value(v, s, n)
                return UNIT
            self.for_over(r, dict(n, label=None), st, body)
            return self.finish_fn(fr, st, ctor('Ok', UNIT))
        finally:
            self.frames.pop()

    def m_split(self, r, a, st, n, rp):
        if r.op == 'str' and len(a) == 1 and a[0].op in ('str', 'char') and a[0].a[0]:
            return mk('cat', 'v', tuple(mk('one', Str(x)) for x in r.a[0].split(a[0].a[0])))
        return None

    def m_forEach(self, r, a, st, n, rp):
        ty = self.typeof(r)

        def body(s, e):
            if ty.name in ('Map', 'HashMap') and e.op == 'tuple':
                args = [e.a[1], e.a[0]]
            else:
                args = [e, mk('idx', self.loopstack[-1].level if self.loopstack else 0, r)]
            self.dropped(self.apply(a[0], args, s, n), s, n)
            return UNIT
        if ty.name == 'Map':
            def body2(s, lvl):
                return body(s, mk('tuple', mk('elem', lvl, mk('keys', r)), mk('elem', lvl, mk('values', r))))
            self.for_base(r, dict(n, label=None), st, body2)
            return UNIT
        self.for_over(r, dict(n, label=None), st, body)
        return UNIT

    def m_fold(self, r, a, st, n, rp):
        acc = self.var('%fold' + str(self.fresh()))
        st.env[acc] = a[0]

        def body(s, e):
            v = self.apply(a[1], [s.env[acc], e], s, n)
            if not s.dead:
                s.env[acc] = v
            return UNIT
        self.for_over(r, dict(n, label=None), st, body)
        return st.env.pop(acc, UNIT)

    def quant(self, r, f, st, n, neg):
        """any / all"""
        def go(coll, s):
            if coll.op == 'list':
                cs = []
                for x in coll.a:
                    cs.append(self.apply(f, [x], s, n))
                return Or(*[Not(c) if neg else c for c in cs])
            lvl = self.level(coll)
            base = coll
            s2 = s.fork()
            lp = self.push_loop(self.fresh(), lvl, base, None, len(s.pc), 'for')
            try:
                v = self.apply(f, [self.elem_of(coll, lvl)], s2, n)
            finally:
                self.pop_loop()
            return mk('exists', base, lvl, Not(v) if neg else v)
        if r.op == 'cat' and r.a[0] == 's':
            return None
        if r.op == 'cat':
            return self.quant_parts(r, f, st, n, neg)
        return go(r, st)

    def quant_parts(self, r, f, st, n, neg):
        out = []
        for p in r.a[1]:
            out.append(self.quant_part(p, f, st, n, neg))
        return Or(*out)

    def quant_part(self, p, f, st, n, neg):
        if p.op == 'one':
            v = self.apply(f, [p.a[0]], st, n)
            return Not(v) if neg else v
        if p.op == 'for':
            inner = Or(*[self.quant_part(x, f, st, n, neg) for x in parts_of(p.a[2], 'v')])
            return mk('exists', p.a[1], p.a[0], inner)
        if p.op == 'ite':
            a = Or(*[self.quant_part(x, f, st, n, neg) for x in parts_of(p.a[1], 'v')])
            b = Or(*[self.quant_part(x, f, st, n, neg) for x in parts_of(p.a[2], 'v')])
            return Or(And(p.a[0], a), And(Not(p.a[0]), b))
        lvl = self.level(p)
        v = self.apply(f, [mk('elem', lvl, p)], st, n)
        return mk('exists', p, lvl, Not(v) if neg else v)

    def m_any(self, r, a, st, n, rp): return self.quant(r, a[0], st, n, False)
    def m_some(self, r, a, st, n, rp): return self.quant(r, a[0], st, n, False) if self.lang == 'ts' and a else None

    def m_all(self, r, a, st, n, rp):
        q = self.quant(r, a[0], st, n, True)
        return Not(q) if q is not None else None

    def m_every(self, r, a, st, n, rp):
        return self.m_all(r, a, st, n, rp) if self.lang == 'ts' and a else None

    def m_find(self, r, a, st, n, rp):
        if not a or a[0].op not in ('closure', 'fnref'):
            if a and self.typeof(r).name in ('String', 'str'):
                return mk('mcall', r, 'find', *a)
            return None
        lvl = self.level(r)
        if r.op in ('cat', 'list', 'ite'):
            q = self.quant(r, a[0], st, n, False)
            return self.ite(q, ctor('Some', mk('found', r, lvl, q)), NONE) if q is not None else None
        e = self.elem_of(r, lvl)
        s2 = st.fork()
        lp = self.push_loop(self.fresh(), lvl, r, None, len(st.pc), 'for')
        try:
            v = self.apply(a[0], [e], s2, n)
        finally:
            self.pop_loop()
        q = mk('exists', r, lvl, v)
        if self.lang == 'ts':
            return self.ite(q, e, ctor('undefined'))
        return self.ite(q, ctor('Some', e), NONE)

    def m_position(self, r, a, st, n, rp):
        if not a:
            return mk('mcall', r, 'position') if False else None
        lvl = self.level(r)
        s2 = st.fork()
        lp = self.push_loop(self.fresh(), lvl, r, None, len(st.pc), 'for')
        try:
            v = self.apply(a[0], [self.elem_of(r, lvl)], s2, n)
        finally:
            self.pop_loop()
        return self.ite(mk('exists', r, lvl, v), ctor('Some', mk('idx', lvl, r)), NONE)

    def m_contains(self, r, a, st, n, rp):
        if self.typeof(r).name in ('String', 'str') or r.op == 'str':
            return mk('mcall', r, 'contains', *a)
        if r.op == 'list':
            return Or(*[Eq(x, a[0]) for x in r.a])
        if r.op == 'cat' and r.a[0] == 'v':
            return self.quant_eq(r, a[0])
        return mk('exists', r, self.level(r), Eq(self.elem_of(r, self.level(r)), a[0]))

    def quant_eq(self, r, x):
        out = []
        for p in r.a[1]:
            if p.op == 'one':
                out.append(Eq(p.a[0], x))
            elif p.op == 'for':
                out.append(mk('exists', p.a[1], p.a[0], self.quant_eq(Cat('v', [p.a[2]]) if p.a[2].op != 'cat' else p.a[2], x)))
            elif p.op == 'ite':
                a = self.quant_eq(Cat('v', [p.a[1]]), x)
                b = self.quant_eq(Cat('v', [p.a[2]]), x)
                out.append(Or(And(p.a[0], a), And(Not(p.a[0]), b)))
            else:
                out.append(mk('exists', p, 0, Eq(mk('elem', 0, p), x)))
        return Or(*out)

    def m_includes(self, r, a, st, n, rp):
        return self.m_contains(r, a, st, n, rp) if self.lang == 'ts' else None

    # sequences
    def m_len(self, r, a, st, n, rp): return self.mk_len(r)
    def m_count(self, r, a, st, n, rp): return self.mk_len(r) if not a else None

    def m_is_empty(self, r, a, st, n, rp):
        l = self.mk_len(r)
        return Eq(l, Int(0))

    def m_enumerate(self, r, a, st, n, rp): return mk('enumerate', r)
    def m_rev(self, r, a, st, n, rp): return mk('rev', r)
    def m_skip(self, r, a, st, n, rp): return mk('skip', r, *a) if a else None
    def m_take(self, r, a, st, n, rp):
        if a:
            return mk('take', r, *a)
        if rp is not None:
            self.write(st, rp, NONE, n)
            return r
        return None

    def m_chain(self, r, a, st, n, rp): return mk('chain', r, a[0])
    def m_zip(self, r, a, st, n, rp): return mk('zip', r, a[0])
    def m_keys(self, r, a, st, n, rp): return mk('keys', r)
    def m_values(self, r, a, st, n, rp): return mk('values', r)
    def m_values_mut(self, r, a, st, n, rp): return mk('values', r)
    def m_chars(self, r, a, st, n, rp): return mk('chars', r)
    def m_lines(self, r, a, st, n, rp): return mk('lines', r)

    def m_collect(self, r, a, st, n, rp):
        if a:
            return None
        g = n.get('g') or ''
        if g.startswith('Result') or g.startswith('Option'):
            return mk('mcall', r, 'collect:' + g)
        return r

    def m_join(self, r, a, st, n, rp):
        if not a:
            return None
        if self.typeof(r).name in ('PathBuf', 'Path', 'std::path::PathBuf', 'std::path::Path'):
            return mk('mcall', r, 'join', *a)
        if r.op in ('cat', 'list', 'for', 'ite') or self.typeof(r).name == 'Vec':
            if r.op == 'list':
                ps = []
                for i, x in enumerate(r.a):
                    if i:
                        ps.append(a[0])
                    ps.append(x)
                return Cat('s', ps)
            return mk('joined', r, a[0])
        return mk('mcall', r, 'join', *a)

    def m_concat(self, r, a, st, n, rp):
        if self.lang == 'ts' and a:
            return Cat('v', [r] + a)
        return mk('joined', r, Str(''))

    def m_push(self, r, a, st, n, rp):
        if rp is None:
            self.event('call', st, n, name='push', recv=r, args=a)
            return UNIT
        if seq_kind(r) == 's' or self.typeof(r).name == 'String':
            self.write(st, rp, Cat('s', [r, a[0]]), None)
        else:
            self.event('call', st, n, name='push', recv=r, args=a)
            self.write(st, rp, Cat('v', [r] + [mk('one', x) for x in a]), None)
        return UNIT

    def m_push_str(self, r, a, st, n, rp):
        if rp is not None:
            self.write(st, rp, Cat('s', [r, a[0]]), None)
        return UNIT

    def m_append(self, r, a, st, n, rp):
        if rp is None or not a:
            return None
        if self.lang == 'ts':
            return None
        self.event('call', st, n, name='append', recv=r, args=a)
        self.write(st, rp, Cat('v', [r, a[0]]), None)
        ap = self.lvalue(n['a'][0], st)
        if ap is not None:
            self.write(st, ap, EMPTY_V, None)
        return UNIT

    def m_extend(self, r, a, st, n, rp):
        if rp is None:
            return None
        self.event('call', st, n, name='extend', recv=r, args=a)
        self.write(st, rp, Cat('v', [r, a[0]]), None)
        return UNIT
    m_extend_from_slice = m_extend

    def m_insert(self, r, a, st, n, rp):
        self.event('call', st, n, name='insert', recv=r, args=a)
        v = mk('mcall', r, 'insert', *a)
        if rp is not None:
            if len(a) == 1:
                self.write(st, rp, Cat('v', [r, mk('one', a[0])]), None)
            elif uncast(a[0]) is Int(0) and self.typeof(r).name in ('Vec',) or (uncast(a[0]) is Int(0) and r.op == 'cat' and r.a[0] == 'v'):
                self.write(st, rp, Cat('v', [mk('one', a[1]), r]), None)
            else:
                self.write(st, rp, mk('ins', r, a[0], a[1]), None)
        return v

    def m_set(self, r, a, st, n, rp):
        if self.lang == 'ts' and len(a) == 2:
            self.event('call', st, n, name='set', recv=r, args=a)
            if rp is not None:
                self.write(st, rp, mk('ins', r, a[0], a[1]), None)
            return r
        return None

    def m_delete(self, r, a, st, n, rp):
        return self.m_remove(r, a, st, n, rp) if self.lang == 'ts' else None

    def m_remove(self, r, a, st, n, rp):
        e = self.event('call', st, n, name='remove', recv=r, args=a)
        for x in a:
            self.visit_closures(x, st, n, 'remove')
        v = mk('mcall', r, 'remove', *a)
        if e:
            e.val = v
        if rp is not None:
            self.write(st, rp, mk('del', r, *a), None)
        return v

    def m_reverse(self, r, a, st, n, rp):
        if a:
            return None
        v = mk('list', *reversed(r.a)) if r.op == 'list' else (r.a[0] if r.op == 'rev' else mk('rev', r))
        if rp is not None:
            self.write(st, rp, v, None)
        return v if self.lang == 'ts' else UNIT

    def m_clear(self, r, a, st, n, rp):
        self.event('call', st, n, name='clear', recv=r, args=a)
        if rp is not None:
            self.write(st, rp, Str('') if seq_kind(r) == 's' or self.typeof(r).name == 'String' else EMPTY_V if self.typeof(r).name == 'Vec' or r.op == 'cat' else mk('emptymap'), None)
        return UNIT

    def m_drain(self, r, a, st, n, rp):
        self.event('index', st, n, name='drain', recv=r, args=a)
        v = mk('index', r, a[0]) if a else r
        if rp is not None:
            self.write(st, rp, mk('drained', r, *a), None)
        return v

    def m_pop(self, r, a, st, n, rp):
        e = self.event('call', st, n, name='pop', recv=r, args=a)
        v = mk('mcall', r, 'pop')
        ty = self.typeof(r)
        if ty.args:
            self.types.setdefault(v, Ty('Option', [ty.args[0]]))
        if rp is not None:
            self.write(st, rp, mk('popped', r), None)
        return v

    def m_sort(self, r, a, st, n, rp):
        if rp is not None:
            self.write(st, rp, mk('sorted', r), None)
        return UNIT if self.lang == 'rs' else mk('sorted', r)
    m_sort_by = m_sort
    m_sort_by_key = m_sort
    m_sort_unstable = m_sort

    def m_copy_from_slice(self, r, a, st, n, rp):
        self.event('copy', st, n, name='copy_from_slice', recv=r, args=a)
        if rp is not None:
            self.write(st, rp, a[0], None)
        return UNIT
    m_clone_from_slice = m_copy_from_slice

    # strings
    def m_as_bytes(self, r, a, st, n, rp): return mk('utf8', r)
    def m_into_bytes(self, r, a, st, n, rp): return mk('utf8', r)

    def m_replace(self, r, a, st, n, rp):
        if len(a) != 2:
            return None
        return self.str_replace(r, a[0], a[1])

    def str_replace(self, r, pat, new):
        if pat.op == 'char':
            pat = Str(pat.a[0])
        if pat.op != 'str' or not pat.a[0]:
            return mk('mcall', r, 'replace', pat, new)
        memo = {}

        def go(t):
            if t.op == 'str':
                ps = []
                for i, s in enumerate(t.a[0].split(pat.a[0])):
                    if i:
                        ps.append(new)
                    ps.append(Str(s))
                return Cat('s', ps)
            if t in memo:
                return memo[t]
            if t.op == 'cat' and t.a[0] == 's':
                v = Cat('s', [go(x) for x in t.a[1]])
            elif t.op == 'ite':
                v = Ite(t.a[0], go(t.a[1]), go(t.a[2]))
            elif t.op == 'for':
                v = mk('for', t.a[0], t.a[1], go(t.a[2]), t.a[3])
            elif t.op in ('field', 'sym', 'proj', 'elem', 'mcall', 'call', 'index', 'dbg', 'fmt', 'joined'):
                # a hole: the template marker is not part of it when it is a bracketed marker
                v = t if pat.a[0].startswith('[[') else mk('mcall', t, 'replace', pat, new)
            else:
                v = t if pat.a[0].startswith('[[') else mk('mcall', t, 'replace', pat, new)
            memo[t] = v
            return v
        return go(r)

    def m_concat_str(self, r, a, st, n, rp): return None

    def m_repeat(self, r, a, st, n, rp):
        k = uncast(a[0])
        if r.op == 'str' and k.op == 'int' and k.a[0] < 1000:
            return Str(r.a[0] * k.a[0])
        return mk('repeat', r, a[0])

    def m_to_lowercase(self, r, a, st, n, rp):
        return Str(r.a[0].lower()) if r.op == 'str' else mk('mcall', r, 'to_lowercase')

    def m_to_uppercase(self, r, a, st, n, rp):
        return Str(r.a[0].upper()) if r.op == 'str' else mk('mcall', r, 'to_uppercase')

    def m_trim(self, r, a, st, n, rp):
        return Str(r.a[0].strip()) if r.op == 'str' else mk('mcall', r, 'trim')

    def m_saturating_sub(self, r, a, st, n, rp): return mk('call', 'satsub', r, a[0])

    def m_to_le_bytes(self, r, a, st, n, rp):
        ty = self.num_ty(r)
        if r.op == 'int' and ty == UNKNOWN.name:
            e = n.get('e')
            while e and e['k'] == 'paren':
                e = e['e']
            if e and e['k'] == 'cast':
                ty = e['ty']
        return mk('le', ty, uncast1(r))
    def m_to_be_bytes(self, r, a, st, n, rp): return mk('be', self.num_ty(r), uncast1(r))
    def m_to_ne_bytes(self, r, a, st, n, rp): return mk('ne', self.num_ty(r), uncast1(r))

    def num_ty(self, r):
        if r.op == 'cast':
            return r.a[0]
        return self.typeof(r).name

    def m_then(self, r, a, st, n, rp):
        if self.lang == 'rs':
            return self.branch(st, r, lambda s: ctor('Some', self.apply(a[0], [], s, n)), lambda s: NONE)
        self.event('call', st, n, name='then', recv=r, args=a)
        for i, f in enumerate(a):
            s2 = st.fork()
            s2.add(Is('Fulfilled', r) if i == 0 else Not(Is('Fulfilled', r)))
            self.clctx.append('then' if i == 0 else 'catch')
            av = r
            if r.op in ('promise', 'mcall', 'call'):
                av = mk('resolved', r) if i == 0 else mk('rejected', r)
                ty = self.typeof(r)
                if ty != UNKNOWN:
                    self.types.setdefault(av, ty)
            if f.op in ('closure', 'fnref'):
                self.apply(f, [av], s2, n)
            self.clctx.pop()
            self.absorb(st, s2)
        return mk('mcall', r, 'then', *a)

    def m_catch(self, r, a, st, n, rp):
        self.event('call', st, n, name='catch', recv=r, args=a)
        for f in a:
            if f.op in ('closure', 'fnref'):
                s2 = st.fork()
                s2.add(Not(Is('Fulfilled', r)))
                self.clctx.append('catch')
                self.apply(f, [mk('rejected', r)], s2, n)
                self.clctx.pop()
                self.absorb(st, s2)
        return mk('mcall', r, 'catch', *a)

    def m_bind(self, r, a, st, n, rp):
        return r if self.lang == 'ts' else None

    def m_toString(self, r, a, st, n, rp):
        return r if not a else None


# ---------------------------------------------------------------- helpers
def prefixes(p):
    s = p.split('::')
    return ['::'.join(s[:i]) for i in range(1, len(s))]


def guard_found(c, v):
    """v under condition c, where what c finds (exists) may occur in v."""
    el = [mk('elem', x.a[1], x.a[0]) for x in subterms(c) if x.op == 'exists']
    if not el or not any(contains(v, e) for e in el):
        return v
    if v.op == 'cat':
        return mk('cat', v.a[0], tuple(guard_found(c, p) for p in v.a[1]))
    if v.op in ('one', 'alias', 'closure'):
        return mk('one', guard_found(c, v.a[0])) if v.op == 'one' else v
    if v.op == 'ite' and v.a[0] is c:
        return v
    return mk('ite', c, v, mk('never'))


def width_of(ty):
    return {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}.get(ty)


INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def uncast(t):
    while t.op == 'cast':
        t = t.a[1]
    return t


def uncast1(t):
    return t.a[1] if t.op == 'cast' else t


def seq_kind(t):
    if t.op == 'cat':
        return t.a[0]
    if t.op == 'str':
        return 's'
    if t.op == 'list':
        return 'v'
    if t.op == 'ite':
        return seq_kind(t.a[1]) or seq_kind(t.a[2])
    if t.op in ('fmt', 'dbg', 'joined'):
        return 's'
    if t.op in ('le', 'be', 'utf8'):
        return 'v'
    if t.op == 'lv' and len(t.a) > 2:
        return seq_kind(t.a[2])
    return None


def ctor_names(t, d=0):
    if t.op == 'ctor':
        return {t.a[0]}
    if t.op == 'ite' and d < 12:
        return ctor_names(t.a[1], d + 1) | ctor_names(t.a[2], d + 1)
    return set()


def pat_names(p):
    k = p['k']
    if k == 'pid':
        return [p['n']] + (pat_names(p['sub']) if p.get('sub') else [])
    out = []
    for e in p.get('e') or [] if isinstance(p.get('e'), list) else []:
        out += pat_names(e)
    for e in p.get('f') or []:
        out += pat_names(e[1])
    return out


def cond_names(n):
    if n['k'] == 'letc':
        return pat_names(n['pat'])
    if n['k'] == 'bin' and n['op'] == '&&':
        return cond_names(n['a']) + cond_names(n['b'])
    return []


def delta(nv, ph):
    """nv = head ++ ph ++ tail  ->  (kind, tail parts, head parts), or None."""
    if nv is ph:
        return None
    if nv.op == 'cat':
        ps = list(nv.a[1])
        at = [i for i, p in enumerate(ps) if p is ph]
        if len(at) == 1:
            i = at[0]
            rest = ps[:i] + ps[i + 1:]
            return nv.a[0], ps[i + 1:], ps[:i]
        if not at:
            # the accumulator sits inside a conditional first part
            for i, p in enumerate(ps):
                if contains(p, ph):
                    d = delta(p, ph)
                    if d is None:
                        return None
                    if i == 0:
                        return nv.a[0], list(d[1]) + ps[1:], d[2]
                    return None
        return None
    if nv.op == 'ite':
        a, b = nv.a[1], nv.a[2]
        da = (None, [], []) if a is ph else delta(a, ph)
        db = (None, [], []) if b is ph else delta(b, ph)
        if da is None or db is None:
            return None
        k = da[0] or db[0]
        if k is None:
            return None
        t = [Ite(nv.a[0], Cat(k, da[1]), Cat(k, db[1]))] if da[1] or db[1] else []
        h = [Ite(nv.a[0], Cat(k, da[2]), Cat(k, db[2]))] if da[2] or db[2] else []
        return k, t, h
    return None


NESTED, ASSUMED = {}, {}


def simplify_nested(t, depth=0):
    """ite(c, a, ite(and(not c, d), b, e)) -> ite(c, a, ite(d, b, e))"""
    if not isinstance(t, T) or t.op != 'ite' or depth > 40:
        return t
    r = NESTED.get(t)
    if r is None:
        c, a, b = t.a
        r = Ite(c, assume(a, c, True, depth), assume(b, c, False, depth))
        if len(NESTED) > 200000:
            NESTED.clear()
        NESTED[t] = r
    return r


def assume(t, c, val, depth):
    if t.op != 'ite' or depth > 40:
        return t
    r = ASSUMED.get((t, c, val))
    if r is None:
        r = assume1(t, c, val, depth)
        if len(ASSUMED) > 200000:
            ASSUMED.clear()
        ASSUMED[t, c, val] = r
    return r


def assume1(t, c, val, depth):
    k = under(t.a[0], c, val)
    if k is TRUE:
        return assume(t.a[1], c, val, depth + 1)
    if k is FALSE:
        return assume(t.a[2], c, val, depth + 1)
    return simplify_nested(Ite(k, assume(t.a[1], c, val, depth + 1), assume(t.a[2], c, val, depth + 1)), depth + 1)


def under(k, c, val):
    facts = []
    if val:
        facts = list(c.a) if c.op == 'and' else [c]
    else:
        facts = [Not(x) for x in c.a] if c.op == 'or' else [Not(c)]
    s = St()
    s.pc = facts
    return s.simp(k)
