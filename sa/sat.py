"""Satisfiability of path conditions: a small case split over their atoms."""
from .terms import *

BOOL = ('and', 'or', 'not')


class Unknown(Exception):
    pass


def under(t, facts, memo=None):
    """t, with what is known put in"""
    def f(x):
        y = facts(x)
        if y is not None:
            return y
        y = rebuild(x.op, x.a)
        if y is not x:
            z = facts(y)
            return y if z is None else z
        return x
    return rewrite(t, f, {} if memo is None else memo)


def polar(t, f, pos=True):
    """apply f(term, positive) to the atoms of a condition, telling in which polarity they occur"""
    if t.op == 'and':
        return And(*[polar(x, f, pos) for x in t.a])
    if t.op == 'or':
        return Or(*[polar(x, f, pos) for x in t.a])
    if t.op == 'not':
        return Not(polar(t.a[0], f, not pos))
    return f(t, pos)


def atoms(t, out=None):
    out = [] if out is None else out
    if t.op in BOOL:
        for x in t.a:
            atoms(x, out)
    elif t.op == 'ite' and is_bool(t):
        for x in t.a:
            atoms(x, out)
    elif t.op != 'bool':
        # conditions inside of the atom are split first
        for x in subterms(t):
            if x.op == 'ite':
                atoms(x.a[0], out)
                return out
        out.append(t)
    return out


def assume(t, a, v):
    """t under the assumption that the atom a has the value v"""
    def facts(x):
        if x is a:
            return Bool(v)
        if v and a.op == 'is' and x.op == 'is' and x.a[1] is a.a[1] and x.a[0] != a.a[0]:
            return FALSE
        if v and a.op == '==' and x.op == '==':
            for i in (0, 1):
                for j in (0, 1):
                    if x.a[i] is a.a[j] and x.a[1 - i] is not a.a[1 - j] and x.a[1 - i].op in CONST and a.a[1 - j].op in CONST:
                        return FALSE
        return None
    return under(t, facts)


def sat(t, budget=None):
    """whether the condition can hold; None if that is too much to decide"""
    budget = budget or [4000]
    try:
        return _sat(t, budget)
    except Unknown:
        return None


def _sat(t, budget):
    while True:
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        budget[0] -= 1
        if budget[0] < 0:
            raise Unknown()
        units = [x for x in (t.a if t.op == 'and' else (t,)) if x.op not in ('and', 'or') and not (x.op == 'ite')]
        done = False
        for u in units:
            a, v = (u.a[0], False) if u.op == 'not' else (u, True)
            if a.op in BOOL or any(x.op == 'ite' for x in subterms(a)):
                continue
            rest = And(*[x for x in (t.a if t.op == 'and' else ()) if x is not u])
            n = assume(rest, a, v)
            if n is not rest or True:
                t = n
                done = True
                break
        if done:
            continue
        q = atoms(t)
        if not q:
            raise Unknown()
        a = q[0]
        return _sat(assume(t, a, True), budget) or _sat(assume(t, a, False), budget)


def leaves(t, conds=()):
    """(conditions, value) of the alternatives of a value"""
    if t.op == 'ite' and len(t.a) == 3:
        yield from leaves(t.a[1], conds + (t.a[0],))
        yield from leaves(t.a[2], conds + (Not(t.a[0]),))
    else:
        yield conds, t
