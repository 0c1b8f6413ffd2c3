"""Case split over the messages a derived producer or consumer can receive: its events under the assumption that one given message arrived."""
from .terms import *
from .interp import Interp

UNDEF = ctor('undefined')


def run(project, fn, user=True):
    I = Interp(project.prog, opaque=(lambda f: f.file in project.user) if user else (lambda f: False))
    I.keep_dead = True
    I.result, I.end = I.run_fn(fn)
    return I


def proj_chain(t):
    """(variants, base) of nested payload projections"""
    q = []
    while t.op == 'proj' and t.a[1] == 0:
        q.append(t.a[0].split('::')[-1])
        t = t.a[2]
    return q[::-1], t


def index_chain(t):
    q = []
    while True:
        if t.op == 'index' and t.a[1].op == 'str':
            q.append(t.a[1].a[0])
            t = t.a[0]
        elif t.op == 'field' and t.a[1] not in ('msg', 'header'):
            q.append(t.a[1])
            t = t.a[0]
        else:
            return q[::-1], t


def root_in(t):
    """the received messages (next().msg) a term depends on"""
    out = []
    for x in subterms(t):
        if x.op == 'field' and x.a[1] == 'msg':
            b = x.a[0]
            if b.op == 'proj' and b.a[0] == 'Some':
                b = b.a[2]
            if b.op == 'mcall' and b.a[1] == 'next' or b.op == 'mut' and b.a[1] == 'next':
                out.append(x)
    return out


def nonempty(c):
    """the condition under which a list has elements, or None"""
    if c.op == 'list':
        return Bool(len(c.a) > 0)
    if c.op != 'cat' or c.a[0] != 'v':
        return None
    out = []
    for p in c.a[1]:
        if p.op == 'one':
            return TRUE
        elif p.op == 'for' and p.a[3] is FALSE:
            n = nonempty(p.a[2])
            if n is None:
                return None
            out.append(FALSE if n is FALSE else mk('exists', p.a[1], p.a[0], n))
        elif p.op == 'ite':
            a, b = nonempty(p.a[1]), nonempty(p.a[2])
            if a is None or b is None:
                return None
            out.append(Or(And(p.a[0], a), And(Not(p.a[0]), b)))
        else:
            return None
    return Or(*out)


def norm(t, memo={}):
    """states of a variable that only repeat what a field holds; get_mut is get"""
    def f(x):
        if x.op == 'lv' and len(x.a) == 3 and x.a[2].op == 'field' and x.a[1].split('.')[-1] == x.a[2].a[1]:
            return x.a[2]
        if x.op == 'mcall' and x.a[1] == 'get_mut':
            return mk('mcall', x.a[0], 'get', *x.a[2:])
        if x.op == '==' and any(y is Int(0) for y in x.a):
            for y in x.a:
                if y.op == 'len' and y.a[0].op == 'cat':
                    n = nonempty(y.a[0])
                    if n is not None:
                        return Not(n)
        if x.op == '<' and x.a[0] is Int(0) and x.a[1].op == 'len' and x.a[1].a[0].op == 'cat':
            n = nonempty(x.a[1].a[0])
            if n is not None:
                return n
        return x
    return rewrite(t, f, memo)


class World(object):
    def __init__(self, lang, msg, path, facts=None):
        self.lang, self.msg, self.path = lang, msg, tuple(path)
        self.memo = {}
        self.facts = facts or (lambda x: None)       # term -> term

    def step(self, x):
        p = self.path
        y = self.facts(x)
        if y is not None:
            return y
        if self.lang == 'rs':
            if x.op == 'is':
                q, b = proj_chain(x.a[1])
                if b is self.msg and q == list(p[:len(q)]):
                    return Bool(len(q) < len(p) and p[len(q)] == x.a[0].split('::')[-1])
        else:
            if x.op == 'uninit':
                return UNDEF
            if x.op in ('index', 'field'):
                if x.a[0] is UNDEF:
                    return UNDEF
                q, b = index_chain(x)
                if b is self.msg and len(q) <= len(p) and q != list(p[:len(q)]):
                    return UNDEF
            if x.op == 'un' and x.a[0] == 'typeof':
                if x.a[1] is UNDEF:
                    return Str('undefined')
                q, b = index_chain(x.a[1])
                if b is self.msg and q == list(p[:len(q)]):
                    return Str('object')
            if x.op == 'is' and x.a[0] == 'undefined':
                q, b = index_chain(x.a[1])
                if b is self.msg and q == list(p[:len(q)]):
                    return FALSE
        y = rebuild(x.op, x.a)
        if y is not x:
            z = self.facts(y)
            return y if z is None else z
        return x

    def of(self, t):
        return rewrite(t, self.step, self.memo)

    def pc(self, e):
        return And(*[self.of(norm(c)) for c in e.pc])

    def payload(self):
        t = self.msg
        for v in self.path:
            t = mk('proj', v, 0, t) if self.lang == 'rs' else mk('index', t, Str(v))
        return t
