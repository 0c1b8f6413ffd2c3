"""P02: the parsers end on every input."""
from .. import subject
from ..interp import Interp
from ..terms import *
from ..worlds import norm
from ..sat import sat, under, leaves
from .files import functions, walk
from .parsers import short, is_err

ASCII = {'is_ascii', 'is_ascii_whitespace', 'is_ascii_digit', 'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_punctuation',
         'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_hexdigit', 'is_ascii_graphic', 'is_ascii_control'}
OTHER = {'is_whitespace', 'is_alphanumeric', 'is_alphabetic', 'is_numeric', 'is_control', 'is_uppercase', 'is_lowercase', 'len_utf8', 'eq_ignore_ascii_case'}


def tokens(P, mod):
    """the variants of the type of tokens: name -> index path to its offset (None: no offset)"""
    for k, (n, m, f) in P.items.items():
        if n.get('k') == 'enum' and n['n'] == 'ENext' and k == 'crate::%s::ENext' % mod:
            out = {}
            for v in n['v']:
                ty = v['f'][0][1].replace(' ', '') if v['f'] else ''
                if ty == 'usize':
                    out[v['n']] = ()
                elif ty.startswith('(') and 'usize' in ty:
                    out[v['n']] = (ty[1:-1].split(',').index('usize'),)
                elif not v['f']:
                    out[v['n']] = None
                else:
                    out[v['n']] = 'unknown'
            return out
    return None


def the_parsers(P):
    """(module, parse, tokenizer): the tokenizer walks over characters, parse calls it in a loop"""
    out = []
    for mod in ('protocol', 'workflow'):
        fs = [f for f in functions(P) if f.owner == 'crate::%s::Parser' % mod]
        toks = [f for f in fs if f.node.get('ret') and 'ENext' in str(f.node.get('ret')) and 'Result' in str(f.node.get('ret'))]
        pars = [f for f in fs if f.name == 'parse']
        out.append((mod, pars[0] if len(pars) == 1 else None, toks[0] if len(toks) == 1 else None))
    return out


def lin(t):
    """a sum as ({atom: factor}, constant)"""
    if t.op == 'int':
        return {}, t.a[0]
    if t.op == 'bin' and t.a[0] in ('+', '-'):
        (a, c), (b, d) = lin(t.a[1]), lin(t.a[2])
        s = 1 if t.a[0] == '+' else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}, c + s * d
    return {t: 1}, 0


def outs(v):
    """(conditions, result) with the cases inside of Ok(..) taken apart"""
    for conds, leaf in leaves(v):
        if leaf.op == 'ctor' and short(str(leaf.a[0])) == 'Ok' and len(leaf.a) == 2 and leaf.a[1].op == 'ite':
            for more, t in leaves(leaf.a[1]):
                yield list(conds) + list(more), ctor(leaf.a[0], t)
        else:
            yield list(conds), leaf


def replace(t, what):
    return folded(rewrite(t, lambda x: what.get(x, x), {}))


def folded(t):
    def f(x):
        if x.op == 'len' and x.a[0].op == 'str':
            return Int(len(x.a[0].a[0]))
        if x.op == 'len' and x.a[0].op in ('list', 'cat') and not [p for p in (x.a if x.a[0].op == 'list' else x.a[0].a[1])]:
            return Int(0)
        if x.op == '==' and x.a[0].op == x.a[1].op == 'int':
            return Bool(x.a[0] is x.a[1])
        if x.op in ('<', '<=') and x.a[0].op == x.a[1].op == 'int':
            return Bool(x.a[0].a[0] < x.a[1].a[0] or x.op == '<=' and x.a[0] is x.a[1])
        return x
    return rewrite(t, f, {})


def is_char_const(t):
    return t.op in ('str', 'char') and isinstance(t.a[0], str) and len(t.a[0]) == 1


def ascii_only(cond, c):
    """True: the character is ASCII wherever cond holds; False: it need not be; None: unknown"""
    odd = []

    def g(x):
        if x.op == 'mcall' and x.a[0] is c:
            if x.a[1] in ASCII:
                return FALSE
            if x.a[1] not in OTHER:
                odd.append(x)
        if x.op == '==' and any(y is c for y in x.a):
            o = x.a[1] if x.a[0] is c else x.a[0]
            if is_char_const(o):
                return FALSE if ord(o.a[0]) < 128 else None
            odd.append(x)
        if x.op in ('<', '<=') and any(z is c for z in subterms(x)):
            odd.append(x)
        return None
    r = sat(under(cond, g))
    if r is False:
        return True
    if r is None or odd:
        return None
    return False


def tokenizer(ctx, P, mod, fn, toks):
    I = Interp(P)
    v, st = I.run_fn(fn)
    v = norm(v)
    loops = []
    for u, li in I.loopinfo.items():
        b = norm(li['base']) if li['base'] is not None else None
        if b is not None and any(x.op == 'mcall' and x.a[1] == 'chars' or x.op == 'call' and str(x.a[0]).split('::')[-1] == 'chars' or x.op in ('chars', 'char_indices') for x in [b] + list(b.a if b.op in ('mcall', 'call') else ())) and len(li['init']) > 1:
            loops.append((u, li, b))
    if len(loops) != 1:
        ctx.undecided('tokens', '%s: the loop over the characters' % mod)
        return False
    u, li, base = loops[0]
    if li['brk']:
        ctx.undecided('tokens', '%s: the loop over the characters is left in the middle' % mod)
        return False
    el = mk('elem', li['level'], li['base'])
    el = norm(el)
    ch = el
    if not any(x.op == 'chars' or x.op == 'mcall' and x.a[1] == 'chars' for x in subterms(base)):
        ctx.undecided('tokens', '%s: the loop over the characters' % mod)
        return False
    ph = {k: norm(li['ph'][k]) for k in li['init']}
    init = {k: norm(li['init'][k]) for k in li['init']}
    nxt = {k: norm(li['next'].get(k, li['ph'][k])) for k in li['init']}
    utf = mk('mcall', ch, 'len_utf8')
    sizes = {x for t in list(nxt.values()) + [norm(r[1]) for r in li['rets']] for x in subterms(t) if x.op == 'mcall' and x.a[1] == 'len_utf8' and x.a[0] is ch}
    utf = next(iter(sizes)) if sizes else utf
    # the position: starts at 0 and is what the offsets are made of
    rets = []
    for pc, val, _, _ in li['rets']:
        for conds, leaf in outs(norm(val)):
            rets.append((And(*[norm(x) for x in pc], *conds), leaf))
    offs = []
    for c, leaf in rets:
        if is_err(leaf):
            continue
        o = offset(leaf, toks)
        if o == 'end':
            offs.append((c, None, leaf))
            continue
        if o is None:
            ctx.undecided('tokens', '%s: %s' % (mod, show(leaf)[:80]))
            continue
        offs.append((c, o, leaf))
    POS = [k for k in init if init[k] is Int(0) and any(o is not None and any(x is ph[k] for x in subterms(o)) for _, o, _ in offs)]
    if len(POS) != 1:
        ctx.undecided('tokens', '%s: the position' % mod)
        return False
    k = POS[0]
    B = ph[k]
    # (a) each step moves the position by the size of the character
    good = True
    conts = [And(*[norm(x) for x in c]) for c in li['conds']]
    for cond in conts:
        for conds, leaf in leaves(nxt[k]):
            cc = And(cond, *conds)
            if sat(cc) is False:
                continue
            a, c = lin(leaf)
            if a.pop(B, 0) != 1:
                ctx.undecided('steps', '%s: %s %s' % (mod, leaf.op, show(leaf)[:60]))
                good = False
                continue
            n = a.pop(utf, 0)
            if a:
                ctx.undecided('steps', '%s: %s %s' % (mod, leaf.op, show(leaf)[:60]))
                good = False
            elif (n, c) == (1, 0):
                ctx.ok('steps', mod)
            elif n == 0 and c == 1:
                r = ascii_only(cc, ch)
                if r is None:
                    ctx.undecided('steps', mod)
                    good = False
                else:
                    good &= r
                    ctx.check(r, 'steps', mod, '%s: a character of several bytes is counted as one byte: the next cut may fall inside of it' % fn.qual(), fn.loc())
            else:
                good = False
                ctx.bad('steps', mod, '%s: a step over one character moves the position by %s' % (fn.qual(), show(leaf)[:60]), fn.loc())
    first = {ph[q]: init[q] for q in init}
    # (b) where the tokens end
    for c, o, leaf in offs:
        if sat(c) is False:
            continue
        name = short(str(leaf.a[1].a[0])) if leaf.op == 'ctor' and len(leaf.a) > 1 and leaf.a[1].op == 'ctor' else '?'
        if o is None:
            ctx.bad('end', mod, '%s: the end of the text is reported before it is reached' % fn.qual(), fn.loc())
            continue
        ctx.count('tokens cut (%s)' % mod)
        for conds, ol in leaves(o):
            cc = And(c, *conds)
            if sat(cc) is False:
                continue
            a, n = lin(ol)
            if a.pop(B, 0) != 1 or set(a) - {utf} or a.get(utf, 0) not in (0, 1):
                ctx.undecided('cut', '%s: %s' % (mod, show(ol)[:60]))
                continue
            w = a.get(utf, 0)
            if w == 1 and n == 0:
                ctx.ok('cut', '%s.%s' % (mod, name))
                continue
            if w == 0 and n == 0 or w + n == 0 and ascii_only(cc, ch):
                # before the character: something must have been read already
                ctx.ok('cut', '%s.%s' % (mod, name))
                r = sat(replace(cc, first))
                if r is None:
                    ctx.undecided('progress', '%s.%s' % (mod, name))
                else:
                    ctx.check(not r, 'progress', '%s.%s' % (mod, name), '%s: %s is returned without a character having been read: the parser stays where it is' % (fn.qual(), name), fn.loc())
                continue
            r = ascii_only(cc, ch)
            if w + n == 1 and r is not False or r is None:
                if r is None:
                    ctx.undecided('cut', '%s.%s' % (mod, name))
                else:
                    ctx.ok('cut', '%s.%s' % (mod, name))
                continue
            ctx.bad('cut', '%s.%s' % (mod, name), '%s: %s ends at %s, which need not be between two characters' % (fn.qual(), name, show(ol)[:60]), fn.loc())
    # (c) after the last character
    fin = norm(li['final'][k])

    def empty(x):
        if x.op == 'lout' and x.a[0] == u:
            return x.a[2]
        if x.op == 'for' and norm(x.a[1]) is base:
            return None
        if x.op == 'exists' and norm(x.a[0]) is base:
            return FALSE
        if x.op == 'cat' and any(p.op == 'for' and norm(p.a[1]) is base for p in x.a[1] if isinstance(p, T)):
            return Cat(x.a[0], [p for p in x.a[1] if not (isinstance(p, T) and p.op == 'for' and norm(p.a[1]) is base)])
        return None
    inside = set(l for _, l in rets)
    for conds, leaf in outs(v):
        if is_err(leaf) or any(x is el for x in subterms(leaf)) and leaf in inside:
            continue
        o = offset(leaf, toks)
        if o is None:
            if leaf in inside:
                continue
            ctx.undecided('after', '%s: %s' % (mod, show(leaf)[:80]))
            continue
        if o == 'end':
            ctx.ok('after', '%s.end' % mod)
            continue
        if B in lin(o)[0]:
            continue
        ctx.count('tokens cut (%s)' % mod)
        if o is fin:
            r = sat(folded(rewrite(And(*conds), lambda x: (lambda y: x if y is None else y)(empty(x)), {})))
            if r is None:
                ctx.undecided('progress', '%s: the last token' % mod)
            else:
                ctx.check(not r, 'progress', mod + '.last', '%s: a token is returned at the end of the text: the parser never ends' % fn.qual(), fn.loc())
        else:
            a, n = lin(o)
            if a.pop(fin, 0) == 1 and not a and n:
                ctx.bad('cut', mod + '.last', '%s: the last token ends at %s' % (fn.qual(), show(o)[-40:]), fn.loc())
            else:
                ctx.undecided('after', '%s: %s' % (mod, show(o)[:80]))
    return good


def offset(leaf, toks):
    """the offset a result Ok(token) carries; 'end' for the token without one; None if unknown"""
    if leaf.op != 'ctor' or short(str(leaf.a[0])) != 'Ok' or len(leaf.a) != 2:
        return None
    t = leaf.a[1]
    if t.op != 'ctor':
        return None
    p = toks.get(short(str(t.a[0])), 'unknown')
    if p is None:
        return 'end'
    if p == 'unknown' or len(t.a) < 2:
        return None
    x = t.a[1]
    for i in p:
        if x.op != 'tuple':
            return None
        x = x.a[i]
    return x


def own(t, toks, tok):
    """the offset of the token tok itself: name of the variant"""
    path = []
    x = t
    while x.op == 'field' and str(x.a[1]).isdigit():
        path.append(int(x.a[1]))
        x = x.a[0]
    if x.op == 'proj' and x.a[1] == 0 and x.a[2] is tok:
        k = short(str(x.a[0]))
        if toks.get(k) == tuple(reversed(path)):
            return k
    return None


def main_loop(ctx, P, mod, fn, tk, toks):
    I = Interp(P, opaque=lambda f: f is not fn and not (f.owner == fn.owner and f is not tk and f.name != 'get_content' and f.name != 'err'))
    I.run_fn(fn)
    loops = []
    for u, li in I.loopinfo.items():
        if any(short(e.name or '') == tk.name and e.loops and e.loops[-1][3] == u for e in I.events if e.kind == 'call' and (e.args and any(norm(a) in [norm(li['ph'][k]) for k in li['init']] for a in e.args))):
            loops.append((u, li))
    if len(loops) != 1:
        ctx.undecided('reading', '%s: the loop of the parser' % mod)
        return
    u, li = loops[0]
    ph = {k: norm(li['ph'][k]) for k in li['init']}
    nxt = {k: norm(li['next'].get(k, li['ph'][k])) for k in li['init']}
    calls = [e for e in I.events if e.kind == 'call' and short(e.name or '') == tk.name and e.loops and e.loops[-1][3] == u and e.val is not None and e.args and any(norm(a) in ph.values() for a in e.args)]
    if len(calls) != 1:
        ctx.undecided('reading', '%s: %d calls take a token' % (mod, len(calls)))
        return
    call = norm(calls[0].val)
    arg = [norm(a) for a in calls[0].args if norm(a) in ph.values()][0]
    ck = [k for k in ph if ph[k] is arg][0]
    tok = mk('proj', 'Ok', 0, call)
    OFF = {k: p for k, p in toks.items() if p is not None}

    def positive(x):
        if x.op == '==' and any(y is Int(0) for y in x.a) and any(own(y, OFF, tok) for y in x.a):
            return FALSE
        return None
    for i, cond in enumerate(li['conds']):
        cond = under(And(*[norm(x) for x in cond]), positive)
        # a token that is an error
        r = sat(And(cond, Not(mk('is', 'Ok', call))))
        if r is None:
            ctx.undecided('reading', '%s: after an error' % mod)
        else:
            ctx.check(not r, 'reading', mod + '.error', '%s goes on reading the same text after a token could not be read' % fn.qual(), fn.loc())
        for name, p in sorted(toks.items()):
            def isv(x, name=name):
                if x.op == 'is' and x.a[1] is tok:
                    return Bool(short(str(x.a[0])) == name)
                if x.op == 'is' and x.a[1] is call:
                    return Bool(x.a[0] == 'Ok')
                return positive(x)
            c = under(cond, isv)
            if sat(c) is False:
                ctx.ok('reading', '%s.%s' % (mod, name))
                continue
            for conds, leaf in leaves(under(nxt[ck], isv)):
                cc = under(And(c, *conds), isv)
                if sat(cc) is False:
                    continue
                key = '%s.%s' % (mod, name)
                if leaf is arg:
                    r = sat(cc)
                    if r is None:
                        ctx.undecided('reading', key)
                    else:
                        ctx.bad('reading', key, '%s: after %s the text to be read stays the same' % (fn.qual(), name), fn.loc())
                    continue
                if not (leaf.op == 'index' and leaf.a[0] is arg and leaf.a[1].op == 'range' and leaf.a[1].a[1].op == 'nohi'):
                    ctx.undecided('reading', '%s: %s' % (key, show(leaf)[:60]))
                    continue
                for cs, off in leaves(leaf.a[1].a[0]):
                    c3 = under(And(cc, *cs), isv)
                    off = under(off, isv)
                    if sat(c3) is False:
                        continue
                    if own(off, OFF, tok) == name:
                        ctx.ok('reading', key)
                    elif off.op == 'proj' and off.a[0] == 'Ok' and off.a[2].op == 'mcall' and any(x is tok for a in off.a[2].a[2:] if isinstance(a, T) for x in subterms(a)) and off.a[2].a[1] in entity_next(P):
                        ctx.ok('reading', key)
                        ctx.count('tokens handed to an entity')
                    elif off.op == 'int':
                        r = sat(c3)
                        if r is None:
                            ctx.undecided('reading', key)
                        else:
                            ctx.bad('reading', key, '%s: %s moves the reading by %s' % (fn.qual(), name, off.a[0]), fn.loc())
                    elif own(off, OFF, tok):
                        ctx.bad('reading', key, '%s: %s moves the reading by the offset of another token' % (fn.qual(), name), fn.loc())
                    elif len(lin(off)[0]) == 1 and lin(off)[1] and (lambda x: own(x, OFF, tok) == name or x.op == 'proj' and x.a[0] == 'Ok' and x.a[2].op == 'mcall' and x.a[2].a[1] in entity_next(P))(list(lin(off)[0])[0]):
                        ctx.bad('reading', key, '%s: %s moves the reading by its offset and %d' % (fn.qual(), name, lin(off)[1]), fn.loc())
                    else:
                        ctx.undecided('reading', '%s: %s' % (key, show(off)[:80]))
    ctx.count('tokens of the %s parser' % mod, len(toks))


def entity_next(P):
    return {f.name for f in functions(P) if returns_offset(f)}


def returns_offset(f):
    r = str(f.node.get('ret') or '').replace(' ', '')
    return r.startswith('Result<usize') and f.owner and any('ENext' in str(a) for a in f.node.get('params', f.node.get('args', [])))


def entities(ctx, P, toks):
    n = 0
    OFF = {k: p for k, p in toks.items() if p is not None}
    for f in functions(P):
        if '/workflow/' not in f.file or '/render' in f.file or not returns_offset(f) or not f.node.get('b', f.node.get('body')):
            continue
        I = Interp(P, opaque=lambda g: g is not f and g.owner != f.owner)
        v, st = I.run_fn(f)
        n += 1
        ent = None
        for x in subterms(norm(v)):
            if x.op == 'is' and short(str(x.a[0])) in OFF and x.a[1].op == 'sym':
                ent = x.a[1]
                break
        if ent is None:
            ctx.undecided('entity', f.qual())
            continue
        for conds, leaf in outs(norm(v)):
            if is_err(leaf):
                continue
            if leaf.op == 'bot' or leaf.op == 'never':
                continue
            c = And(*conds)
            if sat(c) is False:
                continue
            if leaf.op != 'ctor' or short(str(leaf.a[0])) != 'Ok':
                ctx.undecided('entity', '%s: %s' % (f.qual(), show(leaf)[:60]))
                continue
            off = leaf.a[1]
            k = own(off, OFF, ent)
            if k:
                ctx.ok('entity', f.qual())
            elif off.op == 'int' or any(own(x, OFF, ent) for x in lin(off)[0]):
                ctx.bad('entity', f.qual(), '%s takes a token but moves the reading by %s' % (f.qual(), show(off)[:60]), f.loc())
            else:
                ctx.undecided('entity', '%s: %s' % (f.qual(), show(off)[:60]))
    ctx.count('entities that take tokens', n)
    ctx.floor('entities that take tokens', n, 4)


TAKES = {'remove', 'pop', 'pop_front', 'pop_back', 'swap_remove', 'take', 'drain', 'split_off', 'clear', 'truncate', 'retain'}
LIBRARY = {'next', 'next_back', 'read', 'read_line', 'recv', 'pop', 'pop_front', 'pop_back', 'nth', 'by_ref'}


def other_loops(ctx, P, skip):
    for fn in functions(P):
        if fn in skip or '/render' in fn.file or not ('/protocol/' in fn.file or '/workflow/' in fn.file or '/helpers/' in fn.file):
            continue
        if not any(n.get('k') in ('loop', 'while') for n in walk(fn.node)):
            continue
        I = Interp(P, opaque=lambda f: f is not fn)
        I.run_fn(fn)
        for u, li in I.loopinfo.items():
            if li['kind'] == 'for':
                continue
            ctx.count('other loops of the parsers')
            ph = {k: norm(li['ph'][k]) for k in li['init']}
            nxt = {k: norm(li['next'].get(k, li['ph'][k])) for k in li['init']}
            key = fn.qual()
            for cond in li['conds']:
                c = And(*[norm(x) for x in cond])
                if sat(c) is False:
                    continue
                used = [k for k in ph if any(x is ph[k] for x in subterms(c))]
                effect = [x for x in subterms(c) if x.op == 'mcall' and any(isinstance(y, T) and y.op == 'uid' for y in x.a)]
                if not effect and all(all(l is ph[k] for q, l in leaves(nxt[k]) if sat(And(c, *q)) is not False) for k in used):
                    ctx.bad('loop', key, '%s: a loop that nothing changes' % key, li['loc'] if isinstance(li['loc'], str) else fn.loc())
                    continue
                how = any(climbs(c, ph[k], nxt[k]) for k in used) or any(counts(c, ph[k], nxt[k]) for k in used)
                if not how:
                    for x in effect:
                        if x.a[1] in LIBRARY:
                            how = True
                        for g in functions(P):
                            if g.name == x.a[1] and g.node.get('self') and '/render' not in g.file and x.a[1] not in LIBRARY:
                                r = shrinks(P, g)
                                if r:
                                    how = True
                                elif r is False:
                                    ctx.bad('loop', key, '%s: the loop asks %s, which does not take away what it returns' % (key, g.qual()), g.loc())
                                    how = True
                if how:
                    ctx.ok('loop', key)
                else:
                    ctx.undecided('loop', key)


def climbs(c, v, nx):
    """v := parent of the group whose id is v"""
    for x in subterms(c):
        if x.op == 'is' and short(str(x.a[0])) == 'Some' and x.a[1].op == 'mcall' and x.a[1].a[1] == 'get_group' and any(y is v for y in x.a[1].a[2:] if isinstance(y, T)):
            if nx is mk('field', mk('proj', 'Some', 0, x.a[1]), 'parent'):
                return True
        if x.op == '==' and any(y is v for y in x.a):
            o = x.a[1] if x.a[0] is v else x.a[0]
            if o.op == 'field' and o.a[1] == 'id' and nx is mk('field', o.a[0], 'parent'):
                return True
    return False


def counts(c, v, nx):
    a, n = lin(nx)
    if a == {v: 1} and n > 0:
        return any(x.op in ('<', '<=') and x.a[0] is v for x in subterms(c))
    if a == {v: 1} and n < 0:
        return any(x.op in ('<', '<=') and x.a[1] is v or x.op == '==' and any(y is v for y in x.a) and any(y is Int(0) for y in x.a) for x in subterms(c))
    return False


def shrinks(P, g):
    I = Interp(P)
    v, st = I.run_fn(g)
    some = [(And(*q), l) for q, l in leaves(norm(v)) if l.op == 'ctor' and short(str(l.a[0])) == 'Some']
    if not some:
        return None
    takes = [e for e in I.events if e.kind == 'call' and e.name in TAKES and e.recv is not None and any(x.op == 'sym' and x.a[0] == 'self' for x in subterms(norm(e.recv)))]
    for q, l in some:
        if sat(q) is False:
            continue
        if not any(sat(And(q, Not(And(*[norm(x) for x in e.pc])))) is False for e in takes):
            return False if not takes else None
    return True


def parents(ctx, P):
    """a group is created inside of a group that is there: climbing from it ends"""
    n = 0
    for f in functions(P):
        if '/protocol/' not in f.file or '/render' in f.file or not f.node.get('self') or short(f.owner) != 'Store':
            continue
        I = Interp(P, opaque=lambda g: g is not f and not (g.owner == f.owner) and g.name != 'new')
        I.run_fn(f)
        for e in I.events:
            if e.kind == 'lit' and short(str(e.name or '')) == 'Group' or e.kind == 'call' and str(e.name).endswith('Group::new') and len(e.args or ()) > 1:
                d = None
                if e.kind == 'call':
                    d = (norm(e.args[0]), norm(e.args[1]))
                elif isinstance(e.val, T) and e.val.op == 'slit':
                    fs = dict((x[0], x[1]) for x in e.val.a[1])
                    d = (norm(fs.get('id')), norm(fs.get('parent'))) if 'id' in fs and 'parent' in fs else None
                if d is None:
                    continue
                n += 1
                for conds, l in leaves(d[1]):
                    a, k = lin(d[0])
                    if l is d[0] or a and lin(l) == (a, k):
                        ctx.bad('parents', f.qual(), '%s: a group is put into itself' % f.qual(), e.where())
                    elif l is Int(0) or l.op == 'field' and l.a[1] == 'id':
                        ctx.ok('parents', f.qual())
                    else:
                        ctx.undecided('parents', '%s: %s' % (f.qual(), show(l)[:60]))
    ctx.count('places groups are created at', n)
    if not n:
        ctx.missing('the place groups are created at')


TEXT = {'next', 'nth', 'last', 'parse', 'strip_prefix', 'strip_suffix', 'split_once', 'rsplit_once', 'get', 'find', 'rfind', 'first', 'pop', 'to_digit', 'position', 'peek', 'next_back'}
SAME = {'take', 'as_ref', 'as_mut', 'clone', 'cloned', 'as_deref', 'as_deref_mut', 'copied', 'ok'}


def faults(ctx, P):
    """nothing that may be absent, in the text or in the state of a parser, is taken for granted"""
    n = 0
    for fn in functions(P):
        if '/render' in fn.file or not ('/protocol/' in fn.file or '/workflow/' in fn.file) or fn.node.get('test'):
            continue
        n += 1
        I = Interp(P, opaque=lambda f: f is not fn)
        I.run_fn(fn)
        for e in I.events:
            if e.kind != 'unwrap':
                continue
            v = e.args[0] if e.args else e.recv
            if v is None:
                continue
            v = norm(v)
            key = '%s:%s' % (fn.qual(), source(v)[1])
            pc = And(*[norm(x) for x in e.pc])
            r = sat(And(pc, Not(Or(mk('is', 'Some', v), mk('is', 'Ok', v)))))
            if r is False:
                ctx.ok('fault', key)
            elif r is None or not source(v)[0]:
                ctx.undecided('fault', key)
            else:
                ctx.bad('fault', key, '%s: unwrap() of %s, which may be absent' % (fn.qual(), show(v)[:60]), e.where())
    ctx.count('functions of the parsers', n)
    ctx.floor('functions of the parsers', n, 60)


def source(v):
    while v.op == 'mcall' and v.a[1] in SAME:
        v = v.a[0]
    if v.op == 'field':
        x = v
        while x.op == 'field':
            x = x.a[0]
        return x.op == 'sym' and x.a[0] == 'self', str(v.a[1])
    if v.op == 'mcall':
        return v.a[1] in TEXT, v.a[1]
    return False, v.op


def P02(ctx):
    P = subject.cli()
    skip = []
    for mod, fn, tk in the_parsers(P):
        toks = tokens(P, mod)
        if fn is None or tk is None or not toks or 'unknown' in toks.values():
            ctx.missing('the parser of the %s' % mod)
            continue
        skip += [fn, tk]
        tokenizer(ctx, P, mod, tk, toks)
        main_loop(ctx, P, mod, fn, tk, toks)
        if mod == 'workflow':
            entities(ctx, P, toks)
    other_loops(ctx, P, skip)
    parents(ctx, P)
    faults(ctx, P)
