"""Normal forms ("shapes") of byte encoders and decoders extracted by the abstract interpreter."""
from .terms import *
from .wire import *
from .interp import width_of, uncast

BITS = {'le': 'le', 'be': 'be', 'ne': 'ne'}


class Bad(Exception):
    """a recognised but inconsistent construct"""


def strip(t):
    while t.op == 'cast' or (t.op == 'ctor' and t.a[0] in ('Ok', 'Some') and len(t.a) > 1):
        t = t.a[1]
    return t


def kindname(ty, end):
    w = width_of(ty)
    return ty if w == 1 else ty + end


def norm(t, I):
    """Byte-valued term -> list of parts, or None when outside the recognised forms."""
    o = t.op
    if o == 'cat' and t.a[0] == 'v':
        out = []
        for p in t.a[1]:
            n = norm(p, I)
            if n is None:
                return None
            out += n
        return out
    if o in ('le', 'be', 'ne'):
        if t.a[0] in ('?', 'UNKNOWN') or width_of(t.a[0]) is None:
            return None
        return [('num', kindname(t.a[0], o), t.a[1])]
    if o == 'one':
        return [('num', 'u8', t.a[0])]
    if o == 'list':
        return [('num', 'u8', x) for x in t.a]
    if o == 'rep' and t.a[1] is Int(0):
        return []
    if o == 'zeros' and t.a[0] is Int(0):
        return []
    if o == 'call' and t.a[0].endswith('Uint8Array') and len(t.a) == 1:
        return []
    if o == 'for':
        b = norm(t.a[2], I)
        return None if b is None else [('each', t.a[0], t.a[1], b, t.a[3] if len(t.a) > 3 else FALSE)]
    if o == 'ite':
        a, b = norm(t.a[1], I), norm(t.a[2], I)
        if a is None or b is None:
            return None
        if a == b:
            return a
        if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0] == 'num' and a[0][1] == b[0][1]:
            return [('num', a[0][1], Ite(t.a[0], a[0][2], b[0][2]))]
        return [('if', t.a[0], a, b)]
    if o == 'utf8':
        return [('utf8', t.a[0])]
    if o == 'mcall' and t.a[1] == 'encode' and t.a[0].op == 'new' and 'TextEncoder' in show(t.a[0]):
        return [('utf8', t.a[2])]
    if o == 'wr' or o == 'setat':
        return norm_wr(t, I)
    if o == 'lout':
        return norm_lout(t, I)
    return [('bytes', t)]


def chain(t, stop):
    ws = []
    while t.op in ('wr', 'setat') and t is not stop:
        if t.op == 'wr':
            ws.append((t.a[2], ('num', t.a[1], t.a[3]), width_of(t.a[1].replace('le', '').replace('be', ''))))
        else:
            ws.append((t.a[1], ('bytes', t.a[2]), None))
        t = t.a[0]
    return ws[::-1], t


def norm_wr(t, I):
    ws, base = chain(t, None)
    if base.op != 'zeros':
        return None
    pos = Lin()
    out = []
    rest = list(ws)
    while rest:
        hit = [w for w in rest if lin(w[0]).add(pos, -1).const() == 0]
        if not hit:
            raise Bad('bytes are written at offset %s but the next free offset is %s' % (show(rest[0][0]), pos))
        w = hit[-1]
        rest.remove(w)
        if w[1][0] == 'bytes':
            n = norm(w[1][1], I)
            if n is None:
                return None
            out += n
            pos = pos.add(lin_len(w[1][1]))
        else:
            out.append(w[1])
            pos = pos.add(Lin({}, w[2]))
    total = lin(base.a[0])
    d = total.add(pos, -1)
    if d.const() is not None and d.const() != 0:
        raise Bad('buffer of %s bytes is filled with %s bytes' % (total, pos))
    if d.const() is None:
        return None
    return out


def same_lv(a, b):
    return a is b or (a.op == b.op == 'lv' and a.a[0] == b.a[0] and a.a[1] == b.a[1])


def norm_lout(t, I):
    uid, key, init, nxt, base, brk = t.a
    info = I.loopinfo.get(uid)
    if info is None or init.op != 'zeros':
        return None
    ph = [p for k, p in info['ph'].items() if '.'.join(k) == key]
    if not ph:
        return None
    ws, b0 = chain(nxt, ph[0])
    if not same_lv(b0, ph[0]) or not ws:
        return None
    lv = None
    for a, v in lin(ws[0][0]).c.items():
        if a.op == 'lv' and a.a[0] == uid and v == 1:
            lv = a
    if lv is None:
        if lin(ws[0][0]).const() is not None and base.op != 'list':
            raise Bad('every iteration writes at the same offset %s' % show(ws[0][0]))
        # offset = index * width
        return norm_indexed(t, ws, I, info)
    k = [k for k, p in info['ph'].items() if same_lv(p, lv)][0]
    nk = info['next'][k]
    if nk is None:
        return None
    if lv is not info['ph'][k] or any(x.op == 'is' and x.a[0] in ('Error', 'Err') for x in subterms(nk)):
        nk = success(nk)        # nxt is the success form already
    step = lin(nk).add(lin(lv), -1)
    pos = lin(lv)
    out = []
    for off, part, w in ws:
        d = lin(off).add(pos, -1).const()
        if d is None:
            return None
        if d != 0:
            raise Bad('an iteration writes at %s although the previous write ended at %s' % (show(off), pos))
        if part[0] == 'bytes':
            n = norm(part[1], I)
            if n is None:
                return None
            out += n
            pos = pos.add(lin_len(part[1]))
        else:
            out.append(part)
            pos = pos.add(Lin({}, w))
    written = pos.add(lin(lv), -1)
    if lin(info['init'][k]).const() != 0:
        raise Bad('the first item is written at offset %s' % show(info['init'][k]))
    dd = step.add(written, -1)
    if dd.key() != Lin().key():
        if dd.const() is not None:
            raise Bad('the offset advances by %s per item while an item takes %s bytes' % (step, written))
        return None
    tot = lin(init.a[0])
    if written.const() is not None:
        need = lin(mk('len', base)).scale(written.const())
        if tot.key() != need.key():
            if set(tot.c) == set(need.c):
                raise Bad('buffer of %s bytes for items taking %s bytes' % (tot, need))
            return None
    elif not (init.a[0].op == 'sum'):
        return None
    return [('each', info['level'], base, out, brk)]


def norm_indexed(t, ws, I, info):
    uid, key, init, nxt, base, brk = t.a
    if len(ws) != 1 or ws[0][2] is None:
        return None
    off, part, w = ws[0]
    l = lin(off)
    if l.k != 0 or len(l.c) != 1:
        return None
    a, v = next(iter(l.c.items()))
    if a.op != 'idx':
        return None
    if v != w:
        raise Bad('items of %d bytes are written every %d bytes' % (w, v))
    tot, need = lin(init.a[0]), lin(mk('len', base)).scale(w)
    if tot.key() != need.key():
        raise Bad('buffer of %s bytes for items taking %s bytes' % (tot, need))
    return [('each', info['level'], base, [part], brk)]


# ------------------------------------------------------------------ encoder shape
def vname(t, v, e):
    t = uncast(t)
    if t is v:
        return 'v'
    if e is not None and t is e:
        return 'e'
    return None


def enc_shape(parts, v, I):
    """Canonical text of an encoded value v."""
    return ' '.join(part_shape(p, v, None, I) for p in parts)


def part_shape(p, v, e, I):
    if p[0] == 'num':
        k, x = p[1], p[2]
        n = vname(x, v, e)
        if n:
            return '%s(%s)' % (k, n)
        x0 = uncast(x)
        if x0.op == 'ite' and vname(x0.a[0], v, e) and x0.a[1] is Int(1) and x0.a[2] is Int(0):
            return '%s(%s?1:0)' % (k, vname(x0.a[0], v, e))
        if x0.op == 'len':
            ps = norm(x0.a[0], I)
            if ps is not None and len(ps) == 1:
                return '%s(len %s)' % (k, part_shape(ps[0], v, e, I))
        if vname(x0, v, e) is None and x0.op in ('int',):
            return '%s(%s)' % (k, show(x0))
        return '%s(%s)' % (k, anon(x0, v, e))
    if p[0] == 'utf8':
        return 'utf8(%s)' % (vname(p[1], v, e) or anon(p[1], v, e))
    if p[0] == 'each':
        el = mk('elem', p[1], p[2])
        if p[4] is not FALSE:
            return 'partial[...]'
        return 'each %s[%s]' % (vname(p[2], v, e) or anon(p[2], v, e), ' '.join(part_shape(q, v, el, I) for q in p[3]))
    if p[0] == 'bytes':
        t = p[1]
        t0 = t
        if t0.op == 'proj' and t0.a[0] == 'Ok':
            t0 = t0.a[2]
        if t0.op == 'mcall' and t0.a[1] in ('abduct', 'encode') and vname(t0.a[0], v, e):
            return 'enc(%s)' % vname(t0.a[0], v, e)
        return 'bytes(%s)' % anon(t, v, e)
    if p[0] == 'if':
        return 'if[%s | %s]' % (' '.join(part_shape(q, v, e, I) for q in p[2]), ' '.join(part_shape(q, v, e, I) for q in p[3]))
    return '?'


def anon(t, v, e):
    s = subst(t, {k: mk('sym', n) for k, n in ((e, 'e'), (v, 'v')) if k is not None})
    return show(s)[:160]


# ------------------------------------------------------------------ decoder shape
def num_eval(t, env):
    l = lin(t)
    r = l.k
    for a, v in l.c.items():
        if a not in env:
            return None
        r += v * env[a]
    return r


def cond_eval(c, env):
    o = c.op
    if o == 'bool':
        return c.a[0]
    if o == 'not':
        x = cond_eval(c.a[0], env)
        return None if x is None else not x
    if o == 'and':
        r = [cond_eval(x, env) for x in c.a]
        return False if False in r else None if None in r else True
    if o == 'or':
        r = [cond_eval(x, env) for x in c.a]
        return True if True in r else None if None in r else False
    if o == '<':
        a, b = num_eval(c.a[0], env), num_eval(c.a[1], env)
        return None if a is None or b is None else a < b
    if o == '==':
        a, b = num_eval(c.a[0], env), num_eval(c.a[1], env)
        return None if a is None or b is None else a == b
    return None


def find_loop(I, body):
    """uid of the loop whose placeholders occur in the term"""
    for x in subterms(body):
        if x.op == 'lv' and x.a[0] in I.loopinfo:
            return x.a[0]
    return None


class Stream:
    """The read position of a decoding loop: either an offset into a fixed buffer or a shrinking buffer."""

    def __init__(self, I, uid, item):
        self.I, self.uid, self.info = I, uid, I.loopinfo[uid]
        info = self.info
        self.pos = self.buf = None
        self.mode = None
        for r in subterms(item):
            if r.op in ('rd', 'slice', 'index'):
                base = r.a[1] if r.op == 'rd' else r.a[0]
                if base.op == 'lv' and base.a[0] == uid:
                    self.mode, self.buf = 'shrink', base
                    break
                off = r.a[2] if r.op == 'rd' else r.a[1]
                ls = [x for x in subterms(off) if x.op == 'lv' and x.a[0] == uid]
                for x in ls:
                    k = [k for k, p in info['ph'].items() if p is x]
                    if k and info['next'].get(k[0]) is not None:
                        self.mode, self.buf, self.pos, self.key = 'offset', base, x, k[0]
                        break
                if self.mode:
                    break
        if self.mode == 'shrink':
            self.key = [k for k, p in info['ph'].items() if p is self.buf][0]

    def step(self):
        nx = self.info['next'][self.key]
        if nx is None:
            return None
        if self.mode == 'offset':
            return lin(nx).add(lin(self.pos), -1)
        n = nx
        if n.op == 'index' and n.a[1].op == 'range':
            lo, hi = range_of(self.I, n.a[1], n.a[0])
            n = mk('slice', n.a[0], lo, hi)
        if n.op == 'slice' and n.a[0] is self.buf and lin(n.a[2]).key() == lin_len(self.buf).key():
            return lin(n.a[1])
        return None

    def start(self):
        i = self.info['init'][self.key]
        if self.mode == 'offset':
            return lin(i)
        return Lin()

    def rel(self, base, off):
        """offset of a read relative to the stream position"""
        if base is not self.buf:
            return None
        if self.mode == 'offset':
            return lin(off).add(lin(self.pos), -1)
        return lin(off)

    def env(self, remaining, extra=()):
        e = dict(extra)
        if self.mode == 'offset':
            e[self.pos] = 1000
            e[mk('len', self.buf)] = 1000 + remaining
        else:
            e[mk('len', self.buf)] = remaining
        return e

    def exits(self, remaining, extra=()):
        """Does the iteration that starts with this many bytes left leave the loop (three valued)?"""
        info = self.info
        cs = list(info['brk'])
        if info['cond'] is not None:
            cs.append(Not(info['cond']))
        env = self.env(remaining, extra)
        r = [cond_eval(c, env) for c in cs]
        if True in r:
            return True
        if None in r or not cs:
            return None
        return False

    def post(self):
        if self.info['post']:
            return True
        return False


def dec_shape(t, buf, I):
    """Canonical text of the value decoded from the bytes buf (the success result of a decoder)."""
    t = strip(t)
    r = scalar(t, buf, None, I)
    if r:
        return r
    if t.op == 'cat' and t.a[0] == 'v' and len(t.a[1]) == 1 and t.a[1][0].op == 'for':
        f = t.a[1][0]
        body = f.a[2]
        item = body.a[1][0].a[0] if body.op == 'cat' and len(body.a[1]) == 1 and body.a[1][0].op == 'one' else None
        if item is None:
            return None
        uid = find_loop(I, item)
        if uid is None:
            return None
        s = Stream(I, uid, item)
        if not s.mode:
            return None
        return loop_shape(s, item, buf, I)
    return None


def is_utf8(t):
    if t.op == 'call' and t.a[0].split('::')[-1] in ('from_utf8_lossy', 'from_utf8'):
        return t.a[1]
    if t.op == 'proj' and t.a[0] == 'Ok':
        return is_utf8(t.a[2])
    if t.op == 'mcall' and t.a[1] == 'decode' and 'TextDecoder' in show(t.a[0]):
        return t.a[2]
    return None


def unround(t):
    while t.op == 'mcall' and show(t.a[0]) == 'Math' and t.a[1] in ('round', 'floor', 'trunc') and len(t.a) == 3:
        t = t.a[2]
    return uncast(t)


def scalar(t, buf, rel, I):
    """rel: None -> absolute offsets in buf; else a function (base, off) -> Lin."""
    t = strip(t)
    if t.op == 'rd':
        off = lin(t.a[2]) if rel is None and t.a[1] is buf else rel(t.a[1], t.a[2]) if rel else None
        if off is None:
            return None
        return '%s(%s)' % (t.a[0], 'v' if off.key() == Lin().key() else 'v@%s' % off)
    b = bool_read(t)
    if b:
        s = scalar(b, buf, rel, I)
        return s.replace('(v', '(v?1:0') if s else None
    u = is_utf8(t)
    if u is not None:
        u = strip(u)
        if rel is None and u is buf:
            return 'utf8(v)'
    return None


def bool_read(t):
    if t.op == 'not' and t.a[0].op == '==' and t.a[0].a[1] is Int(0):
        x = unround(t.a[0].a[0])
        return x if x.op == 'rd' else None
    if t.op == '==' and t.a[1] is Int(1):
        x = unround(t.a[0])
        return x if x.op == 'rd' else None
    if t.op == '<' and t.a[0] is Int(0):
        x = unround(t.a[1])
        return x if x.op == 'rd' else None
    if t.op == 'ite' and t.a[1] is TRUE and t.a[2] is FALSE:
        return bool_read(t.a[0])
    return None


def loop_shape(s, item, buf, I):
    step = s.step()
    if step is None:
        return None
    if s.start().key() != Lin().key():
        raise Bad('decoding starts at offset %s' % s.start())
    item = strip(item)
    root = s.buf if s.mode == 'offset' else s.info['init'][s.key]
    root = strip_copy(root)
    if root is not buf:
        return None
    x = scalar(item, buf, s.rel, I)
    if x:
        w = width_of((bool_read(item) or item).a[0].replace('le', '').replace('be', ''))
        if '@' in x:
            raise Bad('an item is read at %s of its position' % x)
        if step.key() != Lin({}, w).key():
            raise Bad('the read position advances by %s per item of %d bytes' % (step, w))
        check_exit(s, [(w, {})])
        return 'each v[%s]' % x.replace('(v', '(e')
    # length prefixed items
    sl = None
    for y in subterms(item):
        if y.op in ('slice', 'index') and y.a[0] is s.buf:
            if y.op == 'index':
                if y.a[1].op != 'range':
                    continue
                lo, hi = range_of(I, y.a[1], y.a[0])
            else:
                lo, hi = y.a[1], y.a[2]
            sl = (y, lo, hi)
            break
    if sl is None:
        return None
    y, lo, hi = sl
    lo_r, n = s.rel(s.buf, lo), lin(hi).add(lin(lo), -1)
    ls = [a for a in n.c if a.op == 'rd']
    if len(ls) != 1 or len(n.c) != 1 or n.k != 0:
        if len(ls) == 1:
            raise Bad('an item of announced length L is cut as %s bytes' % n)
        return None
    L = ls[0]
    o = s.rel(L.a[1], L.a[2])
    w = width_of(L.a[0].replace('le', '').replace('be', ''))
    if o is None or w is None:
        return None
    if o.key() != Lin().key():
        raise Bad('the item length is read at offset %s of the item' % o)
    if lo_r.key() != Lin({}, w).key():
        raise Bad('the item body starts at %s but its length prefix takes %d bytes' % (lo_r, w))
    # step: w + L, possibly through the length of the slice
    want = Lin({L: 1}, w)
    if step.key() != want.key():
        raise Bad('the read position advances by %s per item while an item takes %s' % (step, want))
    check_exit(s, [(w, {L: 0}), (w + 7, {L: 7})])
    u = is_utf8(item)
    if u is not None and strip_copy(strip(u)) is y:
        return 'each v[%s(len utf8(e)) utf8(e)]' % L.a[0]
    return 'each v[%s(len enc(e)) enc(e)]' % L.a[0]


def strip_copy(t):
    """a full copy of a buffer is the buffer"""
    while True:
        if t.op == 'index' and t.a[1].op == 'range':
            lo, hi = t.a[1].a[0], t.a[1].a[1]
            lo0 = not isinstance(lo, T) or lo.op == 'unit' or lo is Int(0)
            hi0 = not isinstance(hi, T) or hi.op in ('unit', 'nohi') or lin(hi).key() == lin_len(t.a[0]).key()
            if lo0 and hi0:
                t = t.a[0]
                continue
        if t.op == 'slice' and t.a[1] is Int(0) and lin(t.a[2]).key() == lin_len(t.a[0]).key():
            t = t.a[0]
            continue
        return t


def check_exit(s, items):
    for w, ex in items:
        z, a, b = s.exits(0, ex), s.exits(w, ex), s.exits(2 * w, ex)
        if None in (a, b):
            return
        head = z is True and a is False and b is False
        post = a is True and b is False
        if head:
            continue
        if post:
            # empty input must not enter the loop
            env = s.env(0)
            if s.mode == 'offset':
                env = {mk('len', s.buf): 0}
            pre = [cond_eval(c, env) for c in s.info['pre']]
            if False in pre:
                continue
            if None in pre:
                continue
            raise Bad('an empty sequence enters the item loop')
        if z is None:
            return
        raise Bad('the item loop stops with %s' % ('items left' if a is True or b is True else 'nothing left to read not recognised'))


# ------------------------------------------------------------------ success values
def is_error(t):
    """an error value (the failure channel of either language)"""
    if t.op == 'ctor' and t.a[0] in ('Err', 'Error'):
        return True
    if t.op in ('caught', 'threw'):
        return True
    if t.op == 'field' and (is_error(t.a[0]) or show(t.a[0]) == 'undefined'):
        return True
    if t.op == 'new' and 'Error' in show(t.a[0]):
        return True
    if t.op == 'call' and t.a[0] in ('Error', 'new Error'):
        return True
    return False


def goods(t, conds=(), out=None):
    """[(conditions, value)] of the non-error alternatives of a result."""
    if out is None:
        out = []
    if t.op == 'ite':
        c = t.a[0]
        # a value tested to be an error and returned as it is
        if c.op == 'is' and c.a[0] in ('Error', 'Err') and t.a[1] is c.a[1]:
            return goods(t.a[2], conds + (Not(c),), out)
        goods(t.a[1], conds + (c,), out)
        goods(t.a[2], conds + (Not(c),), out)
        return out
    if not is_error(t):
        out.append((conds, t))
    return out


def good(t):
    g = goods(t)
    return g[-1][1] if g else None


def success(t, depth=6):
    """The value under the assumption that nothing failed: no part is an error, error variables stay unset."""
    for _ in range(depth):
        m = {}
        for x in subterms(t):
            if x.op == 'is' and x.a[0] in ('Error', 'Err'):
                m[x] = FALSE
            elif x.op in ('lv', 'lout') and x.a[2].op == 'uninit':
                m[x] = x.a[2]
            elif x.op == 'is' and x.a[0] == 'undefined' and x.a[1].op == 'uninit':
                m[x] = TRUE
            elif x.op == 'threw':
                m[x] = FALSE
        if not m:
            return t
        t = subst(t, m)
    return t
