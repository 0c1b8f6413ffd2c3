"""Byte-level model used by the wire-format rules: cursor/Buffer reads and writes, slices, linear length arithmetic and
guard entailment (a difference-bound style domain over lengths, positions and values read; no solver involved)."""
import re
from .terms import *
from .program import Ty
from .interp import width_of, uncast, St

GET = re.compile(r'^get_(u8|i8|u16|i16|u32|i32|u64|i64|f32|f64)(_le|_ne)?$')
TSR = re.compile(r'^(read|write)(Big)?(UInt|Uint|Int|Float|Double|BigInt|BigUint)(8|16|32|64)?(LE|BE)?$')
DVR = re.compile(r'^(get|set)(Big)?(Uint|Int|Float)(8|16|32|64)$')


def ts_kind(name):
    m = TSR.match(name)
    if not m:
        return None
    d, big, base, bits, end = m.groups()
    if base == 'Float':
        k, w = 'f32', 4
    elif base == 'Double':
        k, w = 'f64', 8
    else:
        if not bits:
            return None
        k = ('u' if base in ('UInt', 'Uint', 'BigUint') else 'i') + bits
        w = int(bits) // 8
    if w > 1:
        if not end:
            return None
        k += end.lower()
    return d, k, w


# ------------------------------------------------------------------ model of the primitives
def premethod(I, r, name, args, st, n, rp):
    if I.lang == 'rs':
        cur = r
        if cur.op == 'upd':
            cur = cur.a[0]
        if cur.op == 'slit' and cur.a[0] == 'Cursor':
            buf, pos = I.project(r, 'buf'), I.project(r, 'pos')
            m = GET.match(name)
            if m:
                k, end = m.groups()
                w = width_of(k)
                kind = k if w == 1 else k + ('le' if end == '_le' else 'ne' if end else 'be')
                I.event('read', st, n, name=kind, recv=buf, args=(pos, Int(w)))
                v = mk('rd', kind, buf, canon(pos))
                I.types[v] = Ty(k)
                if rp is not None:
                    I.write(st, rp + ('pos',), plus(pos, Int(w)), None)
                return v
            if name == 'position':
                return pos
            if name == 'set_position' and args:
                if rp is not None:
                    I.write(st, rp + ('pos',), args[0], None)
                return UNIT
            if name == 'remaining':
                return minus(mk('len', buf), pos)
            if name == 'has_remaining':
                return Not(Eq(minus(mk('len', buf), pos), Int(0)))
            if name == 'advance' and args:
                I.event('read', st, n, name='skip', recv=buf, args=(pos, args[0]))
                if rp is not None:
                    I.write(st, rp + ('pos',), plus(pos, args[0]), None)
                return UNIT
            if name in ('copy_to_slice', 'read_exact') and n and n.get('a'):
                p = I.lvalue(n['a'][0]['e'] if n['a'][0].get('k') == 'ref' else n['a'][0], st)
                cnt = mk('len', args[0])
                if name == 'copy_to_slice':
                    I.event('read', st, n, name='bytes', recv=buf, args=(pos, cnt))
                    if p is not None:
                        I.write(st, p, mk('slice', buf, canon(pos), plus(pos, cnt)), None)
                    if rp is not None:
                        I.write(st, rp + ('pos',), plus(pos, cnt), None)
                    return UNIT
            if name in ('get_ref', 'into_inner'):
                return buf
        ints = lambda: arithmetic(r) or I.typeof(r).name in ('usize', 'u64', 'u32', 'u16', 'u8')
        if name == 'checked_add' and len(args) == 1 and ints():
            s = plus(r, args[0])
            return Ite(mk('call', 'overflows', r, args[0]), NONE, ctor('Some', s))
        if name == 'checked_sub' and len(args) == 1 and ints():
            return Ite(Lt(r, args[0]), NONE, ctor('Some', minus(r, args[0])))
        if name == 'saturating_add' and len(args) == 1 and ints():
            return plus(r, args[0])       # only ever compared with lengths: exact up to the largest length
        if name == 'saturating_sub' and len(args) == 1 and ints():
            return Ite(Lt(r, args[0]), Int(0), minus(r, args[0]))
        if name == 'min' and len(args) == 1 and ints():
            return Ite(Lt(r, args[0]), r, args[0])
        if name == 'get' and len(args) == 1 and args[0].op == 'range':
            lo, hi = range_of(I, args[0], r)
            ok = And(Not(Lt(hi, lo)), Not(Lt(I.mk_len(r), hi)))
            return Ite(ok, ctor('Some', mk('index', r, args[0])), NONE)
        if name == 'split_at' and len(args) == 1:
            I.event('index', st, n, name=name, recv=r, args=(mk('range', Int(0), args[0], False),))
            return mk('tuple', mk('slice', r, Int(0), args[0]), mk('slice', r, args[0], I.mk_len(r)))
        if name in ('split_off', 'split_to') and args:
            I.event('index', st, n, name=name, recv=r, args=(mk('range', Int(0), args[0], False),))
            a, b = mk('slice', r, Int(0), args[0]), mk('slice', r, args[0], I.mk_len(r))
            if rp is not None:
                I.write(st, rp, a if name == 'split_off' else b, None)
            return b if name == 'split_off' else a
        if name == 'remove' and len(args) == 1 and uncast(args[0]).op == 'int' and I.typeof(r).name in ('Vec', 'VecDeque') and rp is not None:
            i = uncast(args[0])
            if i is Int(0):
                I.event('index', st, n, name=name, recv=r, args=(i,))
                I.write(st, rp, mk('slice', r, Int(1), I.mk_len(r)), None)
                v = mk('index', r, i)
                return v if I.typeof(r).name == 'Vec' else Ite(Eq(I.mk_len(r), Int(0)), NONE, ctor('Some', v))
        if name == 'pop_front' and rp is not None:
            I.write(st, rp, mk('slice', r, Int(1), I.mk_len(r)), None)
            return Ite(Eq(I.mk_len(r), Int(0)), NONE, ctor('Some', mk('index', r, Int(0))))
        if name == 'drain' and args and args[0].op == 'range':
            lo, hi = range_of(I, args[0], r)
            I.event('index', st, n, name='drain', recv=r, args=args)
            v = mk('slice', r, lo, hi)
            if rp is not None:
                rest = mk('slice', r, Int(0), lo) if hi is I.mk_len(r) else mk('slice', r, hi, I.mk_len(r)) if lo is Int(0) else mk('drained', r, *args)
                I.write(st, rp, rest, None)
            return v
        return None
    # TypeScript
    if name == 'splice' and args and rp is not None and len(args) <= 2:
        lo = args[0]
        hi = plus(lo, args[1]) if len(args) > 1 else I.mk_len(r)
        v = mk('slice', r, lo, hi)
        if lin(lo).const() == 0:
            I.write(st, rp, mk('slice', r, hi, I.mk_len(r)), None)
            return v
        return None
    if name == 'shift' and not args and rp is not None:
        I.write(st, rp, mk('slice', r, Int(1), I.mk_len(r)), None)
        return Ite(Eq(I.mk_len(r), Int(0)), ctor('undefined'), mk('index', r, Int(0)))
    if r.op == 'sym' and r.a[0] in ('Buffer', 'buffer.Buffer'):
        if name == 'from' and args:
            if I.typeof(args[0]).name in ('UNKNOWN', '?', 'ArrayBufferLike', 'ArrayBuffer'):
                I.types[args[0]] = Ty('Buffer')
            return args[0]
        if name in ('alloc', 'allocUnsafe') and args:
            return mk('zeros', args[0])
        if name == 'concat' and args:
            a = args[0]
            if a.op == 'list':
                return Cat('v', list(a.a))
            return None
    k = ts_kind(name)
    if k:
        d, kind, w = k
        if d == 'read':
            pos = args[0] if args else Int(0)
            e = I.event('read', st, n, name=kind, recv=r, args=(pos, Int(w)))
            if I.hooks.get('assume_reads'):      # a read that does not fit throws: the path goes on only when it fits
                st.add(Not(Lt(I.mk_len(r), plus(pos, Int(w)))))
            v = mk('rd', kind, r, canon(pos))
            I.types[v] = Ty('bigint' if w == 8 and kind[0] in 'ui' else 'number')
            return v
        pos = args[1] if len(args) > 1 else Int(0)
        I.event('write', st, n, name=kind, recv=r, args=(pos, Int(w), args[0]))
        if rp is not None:
            I.write(st, rp, mk('wr', r, kind, pos, args[0]), None)
        return UNIT
    if name in ('slice', 'subarray') and I.typeof(r).name not in ('Array',) and r.op not in ('list', 'cat'):
        lo = args[0] if args else Int(0)
        hi = args[1] if len(args) > 1 else I.mk_len(r)
        I.event('slice', st, n, name=name, recv=r, args=(lo, hi))
        v = mk('slice', r, lo, hi)
        I.types[v] = Ty('Buffer')
        return v
    if name == 'set' and len(args) == 2 and (r.op in ('zeros', 'setat') or r.op == 'lv' and base_zeros(r)):
        if rp is not None:
            I.write(st, rp, mk('setat', r, args[1], args[0]), None)
        return UNIT
    if name == 'reduce' and args and args[0].op == 'closure':
        s2 = st.fork()
        a, b = mk('sym', '%acc'), mk('sym', '%cur')
        v = I.apply(args[0], [a, b], s2, n)
        if v is not None and v.op == 'bin' and v.a[0] == '+' and set(v.a[1:]) == {a, b} and (len(args) == 1 or args[1] is Int(0)):
            return mk('sum', r)
        return None
    ap = I.hooks.get('append')
    if ap and name == ap:
        return append_summary(args)
    return None


def canon(pos):
    """canonical form of an offset: equal linear expressions give the same term"""
    return from_lin(lin(pos))


def base_zeros(t):
    while t.op in ('lv', 'lout', 'setat', 'wr'):
        t = t.a[2] if t.op in ('lv', 'lout') else t.a[0]
    return t.op == 'zeros'


def range_of(I, rg, r):
    lo = rg.a[0] if isinstance(rg.a[0], T) and rg.a[0].op != 'unit' else Int(0)
    hi = rg.a[1] if isinstance(rg.a[1], T) and rg.a[1].op not in ('unit', 'nohi') else I.mk_len(r)
    if len(rg.a) > 2 and rg.a[2] is True:
        hi = plus(hi, Int(1))
    return lo, hi


def arithmetic(t):
    """a sum of positions, lengths and constants: an offset"""
    if t.op in ('int', 'len', 'idx'):
        return True
    if t.op == 'lv':
        return t.a[2].op == 'int' or arithmetic(t.a[2])
    if t.op == 'bin' and t.a[0] in '+-*':
        return arithmetic(t.a[1]) and arithmetic(t.a[2])
    if t.op == 'cast':
        return width_of(t.a[0]) is not None
    if t.op == 'rd':
        return True
    return t.op == 'sym'


def callhook(I, name, args, st, n):
    last = name.split('::')[-1].split('.')[-1]
    if I.lang == 'rs':
        if name.endswith('Cursor::new') and args:
            return mk('slit', 'Cursor', (('buf', args[0]), ('pos', Int(0))))
        if last == 'try_from' and len(args) == 1:
            ty = name.split('::')[0]
            w8 = lambda t: 8 if t in ('usize', 'isize') else width_of(t)
            w, src = w8(ty), I.typeof(uncast(args[0]) if args[0].op == 'cast' else args[0]).name
            if args[0].op == 'int' and w:
                return ctor('Ok', args[0])
            ws = w8(src)
            if src in ('?', 'UNKNOWN') and ty in ('u64', 'usize') and arithmetic(args[0]):
                src, ws = 'usize', 8
            if w and ws and ws <= w and not (src[0] == 'i' and ty[0] == 'u'):
                v = mk('cast', ty, args[0])
                return ctor('Ok', v)
        return None
    if name in ('Buffer.from', 'Buffer::from') and args:
        return args[0]
    return None


def append_summary(args):
    f = flatten_items(args[0]) if args else None
    return Cat('v', f) if f is not None else None


def flatten_items(t):
    """Concatenation of the items of a sequence value."""
    if t.op == 'list':
        return list(t.a)
    if t.op == 'cat' and t.a[0] == 'v':
        out = []
        for p in t.a[1]:
            if p.op == 'one':
                out.append(p.a[0])
            elif p.op == 'for':
                b = flatten_items(p.a[2])
                if b is None:
                    return None
                out.append(mk('for', p.a[0], p.a[1], Cat('v', b), *p.a[3:]))
            elif p.op == 'ite':
                a, b = flatten_items(p.a[1]), flatten_items(p.a[2])
                if a is None or b is None:
                    return None
                out.append(Ite(p.a[0], Cat('v', a), Cat('v', b)))
            else:
                return None
        return out
    if t.op in ('sym', 'field', 'mcall'):
        return [mk('for', 0, t, Cat('v', [mk('elem', 0, t)]), FALSE)]
    return None


def fieldhook(I, v, f):
    if f == 'buffer' and v.op in ('zeros', 'wr', 'setat', 'lout', 'lv') and base_zeros(v):
        return v
    return None


def newhook(I, name, args, st, n):
    if name in ('Uint8Array',):
        if not args:
            return mk('zeros', Int(0))
        a = args[0]
        t = I.typeof(a)
        if a.op in ('int', 'sum') or a.op == 'bin' or t.name == 'number':
            return mk('zeros', a)
        return a
    return None


def install(I):
    I.hooks['premethod'] = premethod
    I.hooks['call'] = callhook
    I.hooks['new'] = newhook
    I.hooks['field'] = fieldhook
    return I


# ------------------------------------------------------------------ linear terms
class Lin:
    __slots__ = ('c', 'k')

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = k

    def add(self, o, f=1):
        c = dict(self.c)
        for a, v in o.c.items():
            x = c.get(a, 0) + f * v
            if x:
                c[a] = x
            else:
                c.pop(a, None)
        return Lin(c, self.k + f * o.k)

    def scale(self, f):
        return Lin({a: v * f for a, v in self.c.items()} if f else {}, self.k * f)

    def const(self):
        return self.k if not self.c else None

    def key(self):
        return (self.k, tuple(sorted((show(a), v) for a, v in self.c.items())))

    def __repr__(self):
        return ' + '.join(['%d*%s' % (v, show(a)) for a, v in self.c.items()] + [str(self.k)])


WIDE = ('usize', 'u64', 'u32', 'i64', 'u128')


def lin(t):
    o = t.op
    if o == 'int':
        return Lin({}, t.a[0])
    if o == 'cast':
        if t.a[0] in WIDE:
            return lin(t.a[1])
        return Lin({t: 1})
    if o == 'bin':
        op, a, b = t.a[0], t.a[1], t.a[2]
        if op == '+':
            return lin(a).add(lin(b))
        if op == '-':
            return lin(a).add(lin(b), -1)
        if op == '*':
            x, y = lin(a), lin(b)
            if x.const() is not None:
                return y.scale(x.const())
            if y.const() is not None:
                return x.scale(y.const())
        return Lin({t: 1})
    if o == 'proj' and t.a[0] in ('Ok', 'Some') and t.a[2].op == 'call' and t.a[2].a[0].endswith('try_from'):
        return lin(t.a[2].a[1])
    if o == 'mcall' and t.a[1] in ('unwrap_or_default', 'min') and False:
        pass
    if o == 'len':
        return lin_len(t.a[0])
    if o == 'ite' and t.a[1].op == 'len' and t.a[2].op == 'len':
        return Lin({mk('len', Ite(t.a[0], t.a[1].a[0], t.a[2].a[0])): 1})
    if o == 'sum':
        xs = t.a[0]
        if xs.op == 'list' or xs.op == 'cat' and all(p.op == 'one' for p in xs.a[1]):
            r = Lin()
            for p in (xs.a if xs.op == 'list' else [p.a[0] for p in xs.a[1]]):
                r = r.add(lin(p))
            return r
    return Lin({t: 1})


def lin_len(b):
    o = b.op
    if o == 'slice':
        return lin(b.a[2]).add(lin(b.a[1]), -1)
    if o == 'index' and b.a[1].op == 'range':
        rg = b.a[1]
        lo = lin(rg.a[0]) if isinstance(rg.a[0], T) and rg.a[0].op != 'unit' else Lin()
        hi = lin(rg.a[1]) if isinstance(rg.a[1], T) and rg.a[1].op not in ('unit', 'nohi') else lin_len(b.a[0])
        return hi.add(lo, -1)
    if o == 'rep':
        return lin(b.a[1])
    if o == 'zeros':
        return lin(b.a[0])
    if o in ('wr', 'setat'):
        return lin_len(b.a[0])
    if o in ('le', 'be', 'ne'):
        w = width_of(b.a[0])
        return Lin({}, w) if w else Lin({mk('len', b): 1})
    if o == 'list':
        return Lin({}, len(b.a))
    if o == 'one':
        return Lin({}, 1)
    if o == 'ite':
        x, y = lin_len(b.a[1]), lin_len(b.a[2])
        if x.key() == y.key():
            return x
        return Lin({mk('len', b): 1})
    if o == 'cat' and b.a[0] == 'v':
        r = Lin()
        for p in b.a[1]:
            r = r.add(lin_len(p))
        return r
    if o == 'for':
        w = lin_len(b.a[2])
        if w.const() is not None and b.a[3] is FALSE:
            return lin(mk('len', b.a[1])).scale(w.const())
        return Lin({mk('len', b): 1})
    return Lin({mk('len', b): 1})


def from_lin(l):
    t = None
    for a, v in sorted(l.c.items(), key=lambda kv: show(kv[0])):
        x = a if v == 1 else mk('bin', '*', Int(v), a)
        t = x if t is None else mk('bin', '+', t, x)
    if t is None:
        return Int(l.k)
    if l.k:
        t = mk('bin', '+', t, Int(l.k))
    return t


def plus(a, b):
    return from_lin(lin(a).add(lin(b)))


def minus(a, b):
    return from_lin(lin(a).add(lin(b), -1))


def same(a, b):
    return lin(a).key() == lin(b).key()


# ------------------------------------------------------------------ facts
def facts_of(pc):
    """Conditions known true -> list of Lin l meaning l >= 0."""
    out = []

    def go(c):
        if c.op == 'and':
            for x in c.a:
                go(x)
        elif c.op == '<':
            l = lin(c.a[1]).add(lin(c.a[0]), -1)
            out.append(Lin(l.c, l.k - 1))
        elif c.op == 'not' and c.a[0].op == '<':
            out.append(lin(c.a[0].a[0]).add(lin(c.a[0].a[1]), -1))
        elif c.op == '==':
            l = lin(c.a[0]).add(lin(c.a[1]), -1)
            out.append(l)
            out.append(l.scale(-1))
        elif c.op == 'not' and c.a[0].op == '==':
            l = lin(c.a[0].a[0]).add(lin(c.a[0].a[1]), -1)
            # x != 0 for a non-negative single atom
            if l.k == 0 and len(l.c) == 1:
                a, v = next(iter(l.c.items()))
                out.append(Lin({a: 1}, -1))
        elif c.op == 'is' and c.a[0] == 'Some' and c.a[1].op == 'mcall' and c.a[1].a[1] in ('checked_add', 'checked_sub') and len(c.a[1].a) > 2:
            pass
    for c in pc:
        go(c)
    return out


def prove(goal, facts, depth=4, seen=None):
    """goal >= 0 from facts >= 0, every atom >= 0."""
    if goal.k >= 0 and all(v > 0 for v in goal.c.values()):
        return True
    if depth == 0:
        return False
    seen = seen if seen is not None else set()
    k = goal.key()
    if k in seen:
        return False
    seen.add(k)
    negs = [a for a, v in goal.c.items() if v < 0]
    for f in facts:
        if negs:
            if not any(f.c.get(a, 0) < 0 for a in negs):
                continue
        elif not (f.k < 0):
            continue
        if prove(goal.add(f, -1), facts, depth - 1, seen):
            return True
    return False


def ites(t):
    return [x for x in subterms(t) if x.op == 'ite']


def entails_le(a, b, pc, limit=64):
    """a <= b under pc, splitting on the choices occurring in a and b."""
    return _cases([a, b], list(pc), lambda ts, p: prove(lin(ts[1]).add(lin(ts[0]), -1), facts_of(p)), limit)


def _cases(ts, pc, f, limit):
    c = None
    for t in ts:
        for x in subterms(t):
            if x.op == 'ite':
                c = x.a[0]
                break
        if c is not None:
            break
    if c is None:
        return f(ts, pc)
    if limit <= 0:
        return False
    for v in (True, False):
        s = St({}, [])
        for p in pc:
            s.add(p)
        s.add(c if v else Not(c))
        if s.dead:
            continue
        nt = [assume(t, c, v) for t in ts]
        npc = [assume(p, c, v) for p in s.pc]
        if not _cases(nt, npc, f, limit // 2):
            return False
    return True


def assume(t, c, v):
    return subst(t, {c: Bool(v)}) if contains(t, c) else t
