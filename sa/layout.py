"""Byte layouts of the generated run-time, extracted from its source: value codecs, field records, message header."""
import functools
from . import subject
from .codec import *
from .codec import Bad
from .wire import install, lin, Lin, lin_len, canon, entails_le, assume
from .interp import Interp, Limit
from .program import Ty
from .terms import *

SCALARS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'bool', 'String']
TYPES = SCALARS + ['Vec<%s>' % s for s in SCALARS]
TSNAME = {'String': 'StrUTF8'}
for _s in SCALARS:
    TSNAME.setdefault(_s, _s)
    TSNAME['Vec<%s>' % _s] = 'ArrayStrUTF8' if _s == 'String' else 'Array' + _s[0].upper() + _s[1:]

GENERIC = {'EncodeEnum': 'enum', 'DecodeEnum': 'enum', 'Encode': 'struct', 'Decode': 'struct'}


class Res:
    """outcome of an extraction: shape | bad (message) | none (why)"""

    def __init__(self, shape=None, bad=None, none=None, loc=None, extra=None):
        self.shape, self.bad, self.none, self.loc, self.extra = shape, bad, none, loc, extra or {}

    def __repr__(self):
        return 'Res(%s)' % (self.shape or self.bad or self.none)


def guarded(f):
    @functools.wraps(f)
    def g(*a, **k):
        try:
            return f(*a, **k)
        except Bad as e:
            return Res(bad=str(e))
        except Limit as e:
            return Res(none='limit: %s' % e)
        except RecursionError:
            return Res(none='recursion limit')
    return g


def storage_owner(fn):
    return (fn.owner or '').split('::')[-1] == 'Storage'


def tkey(fn):
    """u8, Vec<String>, T:struct, Vec<T>:enum, ..."""
    t = (fn.trait or '').split('<')[0].split('::')[-1]
    o = fn.owner.replace(' ', '')
    return o + ':' + GENERIC[t] if o in ('T', 'Vec<T>') else o


# ------------------------------------------------------------------ Rust value codecs
def is_none_payload(p):
    return not p


def split_record(parts):
    """[id][rank][size][payload] -> dict or raises Bad"""
    if len(parts) < 3 or any(p[0] != 'num' for p in parts[:3]):
        return None
    (_, ik, iv), (_, rk, rv), (_, sk, sv) = parts[:3]
    return dict(idkind=ik, id=iv, rankkind=rk, rank=rv, sizekind=sk, size=sv, payload=parts[3:])


def parts_len(parts, I):
    """length of encoded parts as a linear form"""
    from .interp import width_of
    r = Lin()
    for p in parts:
        if p[0] == 'num':
            r = r.add(Lin({}, width_of(p[1].replace('le', '').replace('be', ''))))
        elif p[0] == 'each':
            l = parts_len(p[3], I)
            if l is None or l.const() is None:
                return None
            r = r.add(lin(mk('len', p[2])).scale(l.const()))
        elif p[0] == 'utf8':
            r = r.add(lin(mk('len', mk('utf8', p[1]))))
        elif p[0] == 'bytes':
            r = r.add(lin_len(p[1]))
        else:
            return None
    return r


def size_matches(size, payload, I, kind=None, conds=()):
    """True / False / None: is the announced size the length of the payload"""
    want = parts_len(payload, I)
    w = kind_width(kind) if kind else None
    if w is not None and w < 8 and want is not None and want.const() is None:
        # a size that the width of the size field cannot hold is cut off
        from .wire import from_lin
        if not entails_le(from_lin(want), Int((1 << (8 * w)) - 1), list(conds)):
            return False
    s = size
    while s.op == 'cast' or (s.op == 'call' and s.a[0] in ('BigInt', 'Number')):
        s = s.a[1]
    if s.op == 'len':
        n = norm(s.a[0], I)
        if n is not None and n == payload:
            return True
    want = parts_len(payload, I)
    if want is None:
        return None
    got = lin(s)
    if s.op == 'len':
        n = norm(s.a[0], I)
        if n is not None:
            got = parts_len(n, I) or got
    d = got.add(want, -1)
    if d.key() == Lin().key():
        return True
    if all(_known_len(a) for a in d.c):
        return False
    return None


def _known_len(a):
    return a.op == 'len' and a.a[0].op in ('sym', 'utf8', 'field', 'proj')


@functools.lru_cache(None)
def rs_encoders():
    p = subject.rs_static()
    out = {}
    for f in p.all_fns:
        if f.name == 'get_buf_to_store' and f.trait and f.trait.split('<')[0].split('::')[-1] in ('Encode', 'EncodeEnum') and f.node.get('body'):
            out[tkey(f)] = f
    return out


@functools.lru_cache(None)
def rs_decoders():
    p = subject.rs_static()
    out = {}
    for f in p.all_fns:
        if f.name == 'get_from_storage' and f.trait and f.trait.split('<')[0].split('::')[-1] in ('Decode', 'DecodeEnum') and f.node.get('body'):
            out[tkey(f)] = f
    return out


def rs_run(fn, args, selfv=None, types=()):
    I = install(Interp(subject.rs_static(), opaque=lambda f: storage_owner(f) and f.name != fn.name))
    for t, ty in types:
        I.types[t] = Ty(ty)
    r, st = I.run_fn(fn, args, selfv=selfv)
    return I, r


@functools.lru_cache(None)
@guarded
def rs_enc(key):
    """shape of the value bytes + record description of one Rust encoder"""
    fn = rs_encoders().get(key)
    if fn is None:
        return Res(none='no encoder')
    idt = mk('sym', 'id')
    I, r = rs_run(fn, [ctor('Some', idt)], types=[(idt, 'u16')])
    v = mk('sym', 'self')
    gs = goods(r)
    loc = fn.loc()
    if not gs:
        return Res(none='no success value', loc=loc)
    rec, shape, recs, sizes = None, None, [], []
    gs = list(gs)[::-1]
    while gs:
        c, g = gs.pop()
        n = norm(strip(g), I)
        if n is None:
            return Res(none='bytes not recognised: ' + show(g)[:120], loc=loc)
        rec = split_record(n)
        if rec is None or rec['rank'].op == 'ite':
            # several size classes: one case per choice
            q = next((x for x in n if x[0] == 'if'), None)
            q = q[1] if q else next((x[2].a[0] for x in n[:3] if x[0] == 'num' and x[2].op == 'ite'), None)
            if q is not None and len(c) < 12:
                gs += [(tuple(c) + ((q if v else Not(q)),), assume(g, q, v)) for v in (True, False)]
                continue
        if rec is None:
            return Res(none='no field record: ' + show(g)[:120], loc=loc)
        s = enc_shape(rec['payload'], v, I)
        if shape is not None and s != shape:
            return Res(none='several encodings', loc=loc)
        shape = s
        recs.append(rec)
        sizes.append(size_matches(rec['size'], rec['payload'], I, rec['sizekind'], c))
    # without an id only the value bytes are produced
    I2, r2 = rs_run(fn, [mk('ctor', 'None')])
    plain = None
    g2 = goods(r2)
    if len(g2) == 1:
        n2 = norm(strip(g2[0][1]), I2)
        plain = enc_shape(n2, v, I2) if n2 is not None else None
    return Res(shape, loc=loc, extra=dict(rec=rec, I=I, plain=plain, recs=recs, idok=all(uncast(x['id']) is idt for x in recs), size=False if False in sizes else None if None in sizes else True))


@functools.lru_cache(None)
@guarded
def rs_dec(key):
    fn = rs_decoders().get(key)
    if fn is None:
        return Res(none='no decoder')
    b = mk('sym', 'buf')
    I, r = rs_run(fn, [mk('ctor', 'Buffer', b), mk('sym', 'id')], types=[(b, 'Vec')])
    return dec_result(r, b, I, fn.loc())


def dec_result(r, b, I, loc):
    shape, empties = None, []
    gs = goods(r)
    for c, g in gs:
        g = strip(g)
        if g.op == 'cat' and not g.a[1] or g.op == 'list' and not g.a:
            if entails_le(mk('len', b), Int(0), c) or any(x is Eq(mk('len', b), Int(0)) for x in c):
                continue
            return Res(bad='an empty sequence is returned for input that is not known to be empty', loc=loc)
        if is_error(g):
            continue
        s = dec_shape(g, b, I) or dec_generic(g, b, I)
        if s is None:
            # alternatives that only pass an error on
            if any(x.op == 'exists' or (x.op == 'is' and x.a[0] in ('Err', 'Error')) for x in c):
                continue
            return Res(none='value not recognised: ' + show(g)[:140], loc=loc)
        if shape is not None and shape != s:
            return Res(none='several decodings: %s / %s' % (shape, s), loc=loc)
        shape = s
    if shape is None:
        return Res(none='no success value', loc=loc)
    return Res(shape, loc=loc)


def dec_generic(g, b, I):
    """T::extract(buf) / T::defaults() filled from Storage::new(buf)"""
    for x in subterms(g):
        if x.op == 'call' and len(x.a) > 1 and x.a[0].split('::')[-1] in ('extract', 'new', 'get_from_storage', 'decode'):
            a = x.a[1]
            if a is b or strip_copy(a) is b:
                return 'enc(v)'
    for e in I.events:
        if e.kind == 'call' and (e.name or '').split('::')[-1] in ('extract', 'new') and e.args and strip_copy(e.args[0]) is b:
            return 'enc(v)'
    return None


# ------------------------------------------------------------------ TypeScript value codecs
def ts_class(name):
    p = subject.ts_static()
    for o, ms in p.methods.items():
        if o.split('::')[-1] == name:
            return ms
    return None


def ts_run(fn, args, selfv=None, opaque=None):
    I = install(Interp(subject.ts_static(), opaque=opaque))
    r, st = I.run_fn(fn, args, selfv=selfv)
    return I, r


@functools.lru_cache(None)
@guarded
def ts_enc(name):
    c = ts_class(name)
    fn = c and c.get('static encode')
    if not fn:
        return Res(none='no encoder')
    v = mk('sym', 'v')
    I, r = ts_run(fn, [v])
    shape = None
    for c, g in goods(r):
        n = norm(g, I)
        if n is None:
            return Res(none='bytes not recognised: ' + show(g)[:120], loc=fn.loc())
        s = enc_shape(n, v, I)
        if s == '':
            continue        # nothing to append
        if shape is not None and s != shape:
            return Res(none='several encodings', loc=fn.loc())
        shape = s
    if shape is None:
        return Res(none='no success value', loc=fn.loc())
    return Res(shape, loc=fn.loc())


@functools.lru_cache(None)
@guarded
def ts_dec(name):
    c = ts_class(name)
    fn = c and c.get('static decode')
    if not fn:
        return Res(none='no decoder')
    v = mk('sym', 'v')
    I, r = ts_run(fn, [v])
    return dec_result(r, v, I, fn.loc())


def ts_size(name):
    c = ts_class(name)
    fn = c and c.get('static getSize')
    if not fn:
        return None
    I, r = ts_run(fn, [])
    return r.a[0] if r.op == 'int' else None


# ------------------------------------------------------------------ field records
@functools.lru_cache(None)
@guarded
def storage_reader(lang):
    """How the decoder cuts a struct body into fields: kinds of id, rank and size, per rank."""
    p = subject.rs_static() if lang == 'rs' else subject.ts_static()
    b = mk('sym', 'buf')
    for f in p.all_fns:
        if not storage_owner(f) or not f.node.get('body'):
            continue
        ps = f.node.get('params') or f.node.get('p') or []
        I = install(Interp(p))
        I.types[b] = Ty('Buffer' if lang == 'ts' else 'Vec')
        try:
            I.run_fn(f, [b] + [mk('sym', 'arg%d' % i) for i in range(max(0, len(ps) - 1))], selfv=mk('sym', 'self'))
        except Exception:
            continue
        for e in I.events:
            if e.kind == 'call' and e.name in ('insert', 'set') and len(e.args) == 2 and e.loops:
                r = reader_of(I, e, b, f)
                if r is not None:
                    return r
    return Res(none='no loop that stores the fields of a body')


def reader_of(I, e, b, f):
    uids = [u for u in I.loopinfo if any(x.op == 'lv' and x.a[0] == u for a in e.args for x in subterms(a))]
    if not uids:
        return None
    uid = uids[0]
    info = I.loopinfo[uid]
    posk = None
    for k, ph in info['ph'].items():
        if ph.a[2] is Int(0) and contains(e.args[1], ph):
            posk, pos = k, ph
    if posk is None:
        return None
    nxt = info['next'][posk]
    # the rank: the one byte value that is compared with constants
    ranks = {}
    cand = None
    for x in subterms(e.args[1]):
        if x.op == '==' and x.a[1].op == 'int' and x.a[0].op == 'rd':
            cand = x.a[0]
            ranks[x.a[1].a[0]] = 1
    for c in e.pc:
        for x in subterms(c):
            if x.op == '==' and x.a[1].op == 'int' and x.a[0].op == 'rd':
                cand = cand or x.a[0]
                if x.a[0] is cand:
                    ranks[x.a[1].a[0]] = 1
    if cand is None:
        return None
    rel = lambda t: lin(t).add(lin(pos), -1)
    out = {'ranks': {}, 'loc': f.loc()}
    out['rank'] = (cand.a[0], rel(cand.a[2]))
    for r in sorted(ranks):
        m = {cand: Int(r)}
        for c in e.pc:
            pass
        gid = pick(subst(e.args[0], m))
        gb = pick(subst(e.args[1], m))
        gn = pick(subst(nxt, m))
        if gid is None or gb is None or gn is None:
            if gid is None and gb is None:
                continue        # this rank is refused
            return None
        gid = uncast(gid)
        if gid.op != 'rd':
            return None
        gb = strip(gb)
        if gb.op == 'index' and gb.a[1].op == 'range':
            from .wire import range_of
            lo, hi = range_of(I, gb.a[1], gb.a[0])
        elif gb.op == 'slice':
            lo, hi = gb.a[1], gb.a[2]
        else:
            return None
        n = lin(hi).add(lin(lo), -1)
        if len(n.c) != 1 or n.k:
            raise Bad('rank %d: a field body of %s bytes is cut out' % (r, n))
        L = uncast(next(iter(n.c)))
        if L.op != 'rd':
            return None
        out['ranks'][r] = dict(id=(gid.a[0], rel(gid.a[2])), size=(L.a[0], rel(L.a[2])), body=rel(lo), step=rel(gn), L=L)
    if not out['ranks']:
        return None
    return Res('reader', loc=f.loc(), extra=out)


def pick(t):
    gs = [g for c, g in goods(t) if not any(x is FALSE for x in c)]
    gs = list(dict.fromkeys(gs))
    return gs[0] if len(gs) == 1 else (gs[-1] if gs else None)


def kind_width(k):
    from .interp import width_of
    return width_of(k.replace('le', '').replace('be', ''))


@functools.lru_cache(None)
@guarded
def ts_record():
    """Convertor.getBuffer: what is written per size class -> {class name: (idkind, rank, sizekind)}"""
    c = ts_class('Convertor')
    fn = c and c.get('getBuffer')
    if not fn:
        return Res(none='no field record writer')
    p = subject.ts_static()
    es = [u for u in p.items if u.split('::')[-1] == 'ESize' and p.items[u][0]['k'] == 'tsenum']
    if not es:
        return Res(none='no size classes')
    names = [v[0] for v in p.items[es[0]][0]['v']]
    out = {}
    for nm in names:
        I = install(Interp(p))
        I.hooks['append'] = 'append'
        idt, size, val = mk('sym', 'id'), mk('sym', 'size'), mk('sym', 'value')
        I.types[val] = Ty('ArrayBufferLike')
        t = enum_value(I, p, es[0], nm)
        r, st = I.run_fn(fn, [idt, t, size, val], selfv=mk('sym', 'self'))
        ok = None
        for cc, g in goods(r):
            n = norm(g, I)
            if n is None or g is val:
                continue
            ok = split_record(n)
        if ok is None:
            return Res(none='record of %s not recognised: %s' % (nm, show(r)[:200]), loc=fn.loc())
        out[nm] = dict(ok, idok=uncast(ok['id']) is idt, sizeok=uncast(ok['size']) is size or ok['size'].op == 'call' and ok['size'].a[1] is size,
                       valok=ok['payload'] == [('bytes', val)])
    return Res('writer', loc=fn.loc(), extra=out)


def enum_value(I, p, u, nm):
    for vn, ve in p.items[u][0]['v']:
        if vn == nm:
            return I.lit(ve) if ve and ve['k'] == 'lit' else ctor(vn)
    return None


# ------------------------------------------------------------------ message header
def seq_kinds(parts):
    return [(p[1], p[2]) if p[0] == 'num' else (p[0], p[1]) for p in parts]


@functools.lru_cache(None)
@guarded
def header_writer(lang):
    """The writer of a packed message -> parts of the header as (kind, meaning)"""
    if lang == 'rs':
        p = subject.rs_static()
        fn = [f for f in p.all_fns if f.name == 'pack_buffer' and not f.owner]
        if not fn:
            return Res(none='no message packer')
        fn = fn[0]
        a = {n: mk('sym', n) for n in ('id', 'signature', 'sequence', 'body', 'uuid')}
        order = ['id', 'signature', 'sequence', 'body', 'uuid']
        I = install(Interp(p, opaque=lambda f: 'Middleware' in (f.owner or '')))
        for n, t in (('id', 'u32'), ('signature', 'u16'), ('sequence', 'u32'), ('body', 'Vec')):
            I.types[a[n]] = Ty(t)
        r, st = I.run_fn(fn, [a[n] for n in order])
        outs = [(r, I, a, fn)]
    else:
        outs = []
        for cls in ('Convertor', 'Enum'):
            c = ts_class(cls)
            fn = c and c.get('pack')
            if not fn:
                return Res(none='no message packer in %s' % cls)
            a = {n: mk('sym', n) for n in ('sequence', 'uuid')}
            I = install(Interp(subject.ts_static(), opaque=lambda f: 'Middleware' in (f.owner or '') or f.name in ('encode',) and (f.owner or '').split('::')[-1] in ('Enum', 'Convertor')))
            I.hooks['append'] = 'append'
            r, st = I.run_fn(fn, [a['sequence'], a['uuid']])
            outs.append((r, I, a, fn))
    forms = []
    for r, I, a, fn in outs:
        got = None
        for c, g in goods(r):
            n = norm(strip(g), I)
            if n is None or not n or n[0][0] != 'num':
                continue
            got = n
        if got is None:
            return Res(none='packed bytes not recognised in %s: %s' % (fn.qual(), show(r)[:160]), loc=fn.loc())
        forms.append([meaning(x, got, I) for x in got])
    if any(f != forms[0] for f in forms):
        return Res(bad='the packers disagree: %s' % ' / '.join(map(str, forms)), loc=outs[0][3].loc())
    return Res('writer', loc=outs[0][3].loc(), extra=dict(parts=forms[0]))


def meaning(p, all_parts, I):
    if p[0] != 'num':
        return ('body', '')
    if x_len(p) is not None:
        n = norm(x_len(p), I)
        if n is not None and p in all_parts and n == all_parts[all_parts.index(p) + 1:]:
            return (p[1], 'len')
    k, x = p[1], uncast(p[2])
    while x.op == 'call' and x.a[0] in ('BigInt', 'Number'):
        x = x.a[1]
    s = show(x)
    if x.op == 'sym':
        return (k, x.a[0])
    if x.op == 'len':
        return (k, 'len' if any(q[0] == 'bytes' and (q[1] is x.a[0] or same_bytes(q[1], x.a[0])) for q in all_parts) else 'len of something else: ' + s[:60])
    if x.op in ('mcall', 'field') or x.op == 'call':
        m = x.a[1] if x.op in ('mcall', 'field') else x.a[0]
        if m in ('getId', 'get_id'):
            return (k, 'id')
        if m in ('signature', 'get_signature'):
            return (k, 'signature')
        if 'getTime' in s or 'now' in s or 'as_secs' in s or 'as_millis' in s or 'duration_since' in s:
            return (k, 'ts')
    l = lin(x)
    if l.k == 0 and len(l.c) == 1:
        a = next(iter(l.c))
        if a.op == 'len':
            return meaning(('num', k, a), all_parts, I)
    return (k, '?' + s[:60])


def x_len(p):
    x = uncast(p[2])
    while x.op == 'call' and x.a[0] in ('BigInt', 'Number'):
        x = x.a[1]
    if x.op != 'len':
        l = lin(x)
        if l.k == 0 and len(l.c) == 1:
            x = next(iter(l.c))
    return x.a[0] if x.op == 'len' else None


def same_bytes(a, b):
    return strip_copy(strip(a)) is strip_copy(strip(b))


@functools.lru_cache(None)
@guarded
def header_reader(lang):
    """field -> (kind, offset)"""
    b = mk('sym', 'buf')
    if lang == 'rs':
        p = subject.rs_static()
        fn = [f for f in p.all_fns if f.name == 'get_header_from_buffer']
        if not fn:
            return Res(none='no header reader')
        fn = fn[0]
        I = install(Interp(p))
        I.types[b] = Ty('Vec')
        r, st = I.run_fn(fn, [b])
        g = good(r)
        g = g and strip(g)
        if g is None or g.op != 'slit':
            return Res(none='header not recognised', loc=fn.loc())
        fields = dict(g.a[1])
    else:
        c = ts_class('MessageHeader')
        fn = c and c.get('constructor')
        if not fn:
            return Res(none='no header reader')
        I = install(Interp(subject.ts_static()))
        I.types[b] = Ty('Buffer')
        s = mk('sym', 'self')
        r, st = I.run_fn(fn, [b], selfv=s)
        fields = {}
        for k, v in st.env.items():
            if len(k) == 2 and k[0].endswith('self'):
                fields[k[1]] = v
        if not fields:
            for e in I.events:
                if e.kind == 'set':
                    fields[(e.name or '').split('.')[-1]] = e.args[-1]
    out = {}
    for n, v in fields.items():
        if not isinstance(v, T):
            continue
        x = pick(v)
        while x is not None and (x.op == 'cast' or x.op == 'call' and x.a[0] in ('Number', 'BigInt') or x.op == 'proj' and x.a[0] == 'Ok'):
            x = x.a[2] if x.op == 'proj' else x.a[1]
            if x.op == 'call' and x.a[0].endswith('try_from'):
                x = x.a[1]
        if x is not None and x.op == 'rd' and strip_copy(x.a[1]) is b:
            out[n] = (x.a[0], lin(x.a[2]).const())
    if not out:
        return Res(none='header fields not recognised', loc=fn.loc())
    return Res('reader', loc=fn.loc(), extra=dict(fields=out))


# ------------------------------------------------------------------ optional values (Rust)
@functools.lru_cache(None)
@guarded
def rs_option():
    """[(what, ok)]: an absent value is an empty body, a present one is its own encoding, and back."""
    out = []
    e, d = rs_encoders().get('Option<T>'), rs_decoders().get('Option<T>')
    if not e or not d:
        return Res(none='no codec of optional values')
    idt = mk('sym', 'id')
    some = ctor('Some', idt)
    I, r = rs_run(e, [some], selfv=mk('ctor', 'None'), types=[(idt, 'u16')])
    g = good(r)
    n = norm(strip(g), I) if g is not None else None
    rec = n and split_record(n)
    if rec is None:
        return Res(none='absent value not recognised', loc=e.loc())
    out.append(('an absent value is written as an empty body', not rec['payload'] and uncast(rec['size']) is Int(0) and uncast(rec['id']) is idt, e.loc(), rec))
    v = mk('sym', 'inner')
    I, r = rs_run(e, [some], selfv=ctor('Some', v), types=[(idt, 'u16')])
    calls = [x for x in subterms(r) if x.op == 'mcall' and x.a[0] is v]
    out.append(('a present value is written with the id of the field', any(x.a[1] == 'get_buf_to_store' and some in x.a[2:] for x in calls) and
                all(c.op == 'mcall' for _, c in goods(r)), e.loc(), None))
    b = mk('sym', 'buf')
    I, r = rs_run(d, [mk('ctor', 'Buffer', b), idt], types=[(b, 'Vec')])
    empty = subst(r, {mk('len', b): Int(0)})
    g0 = [strip(x) for _, x in goods(empty)]
    out.append(('an empty body is read as an absent value', len(g0) == 1 and show(g0[0]) == 'None', d.loc(), None))
    full = subst(r, {mk('len', b): Int(5)})
    g1 = [x for _, x in goods(full)]
    ok = bool(g1) and all(x.op == 'ctor' and x.a[0] == 'Ok' and x.a[1].op == 'ctor' and x.a[1].a[0] == 'Some' and
                          any(y.op == 'call' and any(isinstance(z, T) and contains(z, b) for z in y.a[1:]) for y in subterms(x)) for x in g1)
    out.append(('a body with bytes is decoded as the value itself', ok, d.loc(), None))
    return Res('option', extra=dict(items=out))
