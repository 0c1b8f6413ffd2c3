"""Interned terms: the value domain of the abstract interpreter."""


class T(object):
    __slots__ = ('op', 'a', 'h', '_free')
    _tab = {}

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.h

    def __reduce__(self):
        return (mk, (self.op,) + tuple(self.a))


def mk(op, *args):
    key = (op, args)
    # bool/int confusion: True == 1 in python
    key2 = (op, args, tuple(type(x) for x in args if not isinstance(x, T)))
    t = T._tab.get(key2)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = args
        t.h = hash(key2)
        t._free = None
        T._tab[key2] = t
    return t


def Int(n): return mk('int', int(n))
def Str(s): return mk('str', s)
def Bool(b): return mk('bool', bool(b))
UNIT = mk('unit')
TRUE = Bool(True)
FALSE = Bool(False)
NONE = mk('ctor', 'None')


def is_t(x, op=None):
    return isinstance(x, T) and (op is None or x.op == op)


def ctor(name, *args):
    return mk('ctor', name, *args)


def subterms(t, seen=None):
    """All distinct subterms (pre-order)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            for y in reversed(x.a):
                if isinstance(y, (T, tuple)):
                    st.append(y)
        elif isinstance(x, tuple):
            for y in reversed(x):
                if isinstance(y, (T, tuple)):
                    st.append(y)


def contains(t, needle):
    for x in subterms(t):
        if x is needle:
            return True
    return False


def rewrite(t, f, memo=None):
    """Bottom-up rewrite with f(T)->T."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(rewrite(x, f, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    na = tuple(rewrite(x, f, memo) for x in t.a)
    n = t if all(x is y for x, y in zip(na, t.a)) else mk(t.op, *na)
    r = f(n)
    memo[t] = r
    return r


def subst(t, m):
    """Replace terms (keys) top-down."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            memo[x] = r
        return r
    return go(t)


def rebuild(op, a):
    if op == 'not':
        return Not(a[0])
    if op == 'and':
        return And(*a)
    if op == 'or':
        return Or(*a)
    if op == '==':
        return Eq(*a)
    if op == 'ite':
        return Ite(*a)
    if op == 'cat':
        return Cat(a[0], a[1])
    if op == 'is':
        return Is(*a)
    if op == '<':
        return Lt(*a)
    return mk(op, *a)


# ---- boolean / comparison constructors -------------------------------------------------
_neg = {}


def Not(c):
    r = _neg.get(c)
    if r is None:
        r = _Not(c)
        _neg[c] = r
        _neg.setdefault(r, truth(c))
    return r


def truth(c):
    """a value asked whether it is truthy"""
    return Or(c.a[1], c.a[2]) if c.op == 'bin' and c.a[0] == '||' else c


def _Not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.a[0]
    if c.op == 'bin':
        c = truth(c)
    if c.op == 'and':
        return Or(*[Not(x) for x in c.a])
    if c.op == 'or':
        return And(*[Not(x) for x in c.a])
    return mk('not', c)


def And(*cs):
    out = []
    for c in cs:
        if c.op == 'bin':
            c = truth(c)
        if c is TRUE:
            continue
        if c is FALSE:
            return FALSE
        for x in (c.a if c.op == 'and' else (c,)):
            if x.op not in ('and', 'or') and Not(x) in out:
                return FALSE
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def Or(*cs):
    out = []
    for c in cs:
        if c.op == 'bin':
            c = truth(c)
        if c is FALSE:
            continue
        if c is TRUE:
            return TRUE
        for x in (c.a if c.op == 'or' else (c,)):
            if x.op not in ('and', 'or') and Not(x) in out:
                return TRUE
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


CONST = ('int', 'str', 'bool', 'flt', 'unit', 'char', 'word')     # a word is some text, different from every other word and every literal


def _key(t):
    return (t.op in CONST or t.op == 'ctor', repr(t)) if False else (0 if t.op not in CONST else 1)


def spelled(t):
    """the letters and the words a text is made of"""
    if t.op == 'word':
        return [t]
    if t.op in ('str', 'char'):
        return list(t.a[0])
    if t.op == 'cat' and t.a[0] == 's':
        out = []
        for x in t.a[1]:
            if x.op not in ('word', 'str', 'char', 'cat'):
                return None
            y = spelled(x)
            if y is None:
                return None
            out += y
        return out
    return None


def Eq(a, b):
    if a is b:
        return TRUE
    if a.op in CONST and b.op in CONST:
        if a.op == b.op or {a.op, b.op} <= {'str', 'char'}:
            return Bool(a.a == b.a)
        return FALSE
    if a.op == 'cat' or b.op == 'cat':
        x, y = spelled(a), spelled(b)
        if x is not None and y is not None and any(isinstance(z, T) for z in x + y):
            return Bool(x == y)
    if a.op == 'bool':
        a, b = b, a
    if b is TRUE:
        return a
    if b is FALSE:
        return Not(a)
    for x, y in ((a, b), (b, a)):
        if x.op == 'ctor':
            if y.op == 'ctor' and (y.a[0] != x.a[0]):
                return FALSE
            if len(x.a) == 1:
                return Is(x.a[0], y)
            if y.op == 'ctor' and len(x.a) == len(y.a):
                return And(*[Eq(p, q) for p, q in zip(x.a[1:], y.a[1:])])
            return And(Is(x.a[0], y), *[Eq(p, mk('proj', x.a[0], i, y)) for i, p in enumerate(x.a[1:])]) if y.op != 'ctor' else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op in CONST:
            l, r = Eq(x.a[1], y), Eq(x.a[2], y)
            if l.op == 'bool' or r.op == 'bool':
                return Ite(x.a[0], l, r)
    if a.op in CONST or (b.op not in CONST and show(a) > show(b)):
        a, b = b, a
    return mk('==', a, b)


FAM = ('Error', 'undefined', 'null')      # what a TypeScript value can be instead of a result


def Is(name, x):
    name = name.split('::')[-1]
    if x.op == 'ctor':
        return Bool(x.a[0].split('::')[-1] == name)
    if x.op == 'ite':
        c = x.a[0]
        if c.op == 'is' and c.a[1] is x.a[1] and c.a[0] in FAM:
            l = Bool(c.a[0] == name) if name in FAM else Is(name, x.a[1])
        else:
            l = Is(name, x.a[1])
        r = Is(name, x.a[2])
        if l.op == 'bool' or r.op == 'bool' or l is r:
            return Ite(c, l, r)
    if name in FAM and x.op in ('slit', 'cat', 'list', 'str', 'int', 'closure', 'tuple', 'rd', 'slice', 'len'):
        return FALSE
    if name == 'None':
        return Not(Is('Some', x))
    if name == 'Err':
        return Not(Is('Ok', x))
    if x.op == 'instof':
        pass
    return mk('is', name, x)


def Lt(a, b):
    if a.op == 'int' and b.op == 'int':
        return Bool(a.a[0] < b.a[0])
    if a is b:
        return FALSE
    # len < 1  <=> len == 0 ; 0 < len <=> not len == 0
    if a.op == 'int' and a.a[0] == 0 and b.op == 'len':
        return Not(Eq(b, Int(0)))
    if b.op == 'int' and b.a[0] == 1 and a.op == 'len':
        return Eq(a, Int(0))
    if b.op == 'int' and b.a[0] == 0 and a.op == 'len':
        return FALSE
    return mk('<', a, b)


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return Ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
    return mk('ite', c, a, b)


BOOLOPS = ('bool', 'not', 'and', 'or', '==', '<', 'is')


def is_bool(t):
    return t.op in BOOLOPS or (t.op == 'ite' and is_bool(t.a[1]) and is_bool(t.a[2]))


# ---- sequences -------------------------------------------------------------------------
def parts_of(t, kind='s'):
    """Parts of a value seen as a sequence."""
    if t.op == 'cat':
        return list(t.a[1])
    if t.op == 'str' and kind == 's':
        return [t] if t.a[0] else []
    if t.op == 'list':
        return [mk('one', x) for x in t.a]
    if t.op == 'int' and kind == 's':
        return [Str(str(t.a[0]))]
    if t.op == 'char' and kind == 's':
        return [Str(t.a[0])]
    return [t]


def Cat(kind, parts):
    out = []
    st = list(parts)
    for p in st:
        if p.op == 'cat':
            sub = p.a[1]
        elif p.op == 'list' and kind == 'v':
            sub = [mk('one', x) for x in p.a]
        else:
            sub = (p,)
        for q in sub:
            if q.op == 'str':
                if q.a[0] == '' and kind == 's':
                    continue
                if out and out[-1].op == 'str' and kind == 's':
                    out[-1] = Str(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if kind == 's':
        if not out:
            return Str('')
        if len(out) == 1 and out[0].op == 'str':
            return out[0]
    return mk('cat', kind, tuple(out))


EMPTY_V = mk('cat', 'v', ())


def show(t, d=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return '…'
    o, a = t.op, t.a
    if o == 'int':
        return str(a[0])
    if o == 'str':
        s = a[0]
        return repr(s if len(s) < 60 else s[:40] + '…' + s[-15:])
    if o in ('bool',):
        return str(a[0]).lower()
    if o == 'char':
        return repr(a[0])
    if o == 'sym':
        return a[0]
    if o == 'field':
        return '%s.%s' % (show(a[0], d + 1), a[1])
    if o == 'not':
        return '!(%s)' % show(a[0], d + 1)
    if o in ('and', 'or'):
        return '(' + (' && ' if o == 'and' else ' || ').join(show(x, d + 1) for x in a) + ')'
    if o in ('==', '<'):
        return '(%s %s %s)' % (show(a[0], d + 1), o, show(a[1], d + 1))
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == 'is':
        return '%s is %s' % (show(a[1], d + 1), a[0])
    if o == 'ctor':
        return a[0] + ('(' + ', '.join(show(x, d + 1) for x in a[1:]) + ')' if len(a) > 1 else '')
    if o == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(x, d + 1) for x in a)
    if o == 'mcall':
        return '%s.%s(%s)' % (show(a[0], d + 1), a[1], ', '.join(show(x, d + 1) for x in a[2:]))
    if o == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x, d + 1) for x in a[1:]))
    if o == 'elem':
        return 'elem%s<%s>' % (a[0], show(a[1], d + 1))
    if o == 'len':
        return 'len(%s)' % show(a[0], d + 1)
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))
