"""Generated code: the program the renderers derive for the schematic protocol (sa/gen.py, sa/model.py), checked member by member.

Each member of the schematic model stands for one case the generator tells apart (kind of field x optional x repeated x
place of the entity), so a rule checked on it holds for every protocol made of such members.
"""
import re
from .. import gen, layout, subject
from ..codec import goods, is_error
from ..interp import Interp
from ..program import Ty
from ..schema import Stuck
from ..terms import *

OPQ = {'encode', 'decode', 'defaults', 'set', 'get', 'from', 'extract', 'extract_from_storage', 'abduct', 'getStorage', 'collect'}
TSPRIM = {'bool': 'boolean', 'i64': 'bigint', 'u64': 'bigint', 'str': 'string'}


def derive(ctx, lang):
    try:
        d = gen.derived(lang)
    except Stuck as e:
        ctx.undecided('derive', '%s: %s' % (lang, e))
        return None
    for e in d.errors:
        ctx.bad('parse', lang, 'the code generated for the schematic protocol does not parse: %s' % str(e)[:200], d.loc('render'))
    if d.errors:
        return None
    ctx.count('bytes of derived %s program' % {'rs': 'Rust', 'ts': 'TypeScript'}[lang], len(d.text))
    return d


def own(e):
    return '::'.join(['crate'] + e.path + [e.name])


def run(P, fn, args=None, keep=()):
    I = Interp(P, opaque=lambda f: f is not fn and f.name in OPQ and f.name not in keep)
    I.generics = True
    v, st = I.run_fn(fn, args)
    return I, v, st


def method(P, o, name):
    return P.methods.get(o, {}).get(name)


def fns_of(P, o, name):
    out = {}
    for f in P.all_fns:
        if f.name == name and f.owner and (f.owner == o or f.owner.split('<')[0] == o):
            out[(f.node.get('l'), f.trait)] = f
    return list(out.values())


def prim_ty(lang, p):
    if lang == 'rs':
        return 'String' if p == 'str' else p
    return TSPRIM.get(p, 'number')


def want_ty(lang, f):
    """type a field of the model has in the generated code"""
    if f._ref is None:
        b = prim_ty(lang, f.kind)
    else:
        b = own(f._ref)
        if lang == 'ts' and f._ref.ty == 'Enum':
            b = '::'.join(['crate'] + f._ref.path + ['I' + f._ref.name])
    if f.repeated:
        b = 'Vec<%s>' % b
    if f.optional and lang == 'rs':
        b = 'Option<%s>' % b
    return b


def want_var(lang, v):
    b = own(v._ref) if v._ref is not None else prim_ty(lang, v._prim)
    return 'Vec<%s>' % b if v.repeated else b


def norm_ty(P, s, mod, o):
    if s is None:
        return '?'
    if P.lang == 'ts':
        s = s.replace('|undefined', '').replace('| undefined', '').strip()
    t = P.ty_str(P.parse_type(s, mod, o))
    return t.replace('Vec<any>', 'Vec<?>')


def atoms(*ts):
    seen, out = set(), []
    for t in ts:
        for x in subterms(t, seen):
            if x.op == 'is' or x.op in ('==', '<', 'exists', 'threw'):
                out.append(x)
    return out


def decide(t, f):
    """t with every atomic condition x decided by f(x) (True / False / None: left open)"""
    for _ in range(8):
        m = {}
        for x in atoms(t):
            r = f(x)
            if r is not None:
                m[x] = TRUE if r else FALSE
        if not m:
            return t
        t2 = subst(t, m)
        if t2 is t:
            return t
        t = t2
    return t


def leaves(t):
    return [v for _, v in goods(t)]


def fails(t, failing):
    """every alternative of t is an error (or one of the failing results passed on)"""
    if t.op == 'ite':
        return fails(t.a[1], failing) and fails(t.a[2], failing)
    return is_error(t) or t.op == 'never' or t in failing or (t.op == 'proj' and t.a[0] in ('Err', 'Error'))


# ---------------------------------------------------------------- Rust structs

def rs_reads(t):
    """[(type, id)] of storage reads in a value"""
    out = []
    for x in subterms(t):
        if x.op == 'call' and x.a[0].endswith('::get_from_storage'):
            i = [y.a[1].a[0] for y in x.a[1:] if y.op == 'ctor' and y.a[0] == 'Some' and y.a[1].op == 'int']
            out.append((x, x.a[0][:-len('::get_from_storage')], i[0] if i else None))
    return out


def rs_struct(ctx, d, S, rule='rust-struct'):
    P, o = d.prog, own(S)
    it = P.items.get(o)
    if it is None:
        ctx.bad(rule, S.name + ':declared', 'no Rust type is generated for struct %s' % o, d.loc('structs'))
        return
    decl = {n: t for n, t in it[0]['f']}
    ctx.check(set(decl) == {f.name for f in S.fields}, rule, o + ':fields', 'declared fields of %s are %s, the protocol has %s' % (o, sorted(decl), sorted(f.name for f in S.fields)), d.loc('structs'))
    for f in S.fields:
        if f.name in decl:
            t = norm_ty(P, decl[f.name], it[1], o)
            ctx.check(t == want_ty('rs', f), 'rust-field-type', case(f), 'field %s of kind %s is declared as %s, expected %s' % (f.name, case(f), t, want_ty('rs', f)), d.loc('get_declare_type_ref'))
    ab, ex = method(P, o, 'abduct'), method(P, o, 'extract_from_storage')
    if ab is None or ex is None:
        ctx.bad(rule, 'codec', 'no %s generated for struct %s' % ('encoder' if ab is None else 'decoder', o), d.loc('structs'))
        return
    rs_write(ctx, d, S, ab)
    rs_read(ctx, d, S, ex)


def case(f):
    b = f.kind if f._ref is None else ('struct' if f._ref.ty == 'Struct' else 'enum')
    return b + ('[]' if f.repeated else '') + ('?' if f.optional else '') + ('' if f._ref is None else ('' if f._ref.parent == 0 else ' of a group'))


def rs_write(ctx, d, S, ab):
    P, rule = d.prog, 'rust-write'
    I, v, st = run(P, ab)
    loc = d.loc('get_field_abduct' if d.g.fn('RustRender.get_field_abduct') else 'structs')
    for some in (True, False):
        def f(x):
            if x.op == 'is' and x.a[0] in ('Ok',):
                return True
            if x.op == 'is' and x.a[0] in ('Err',):
                return False
            if x.op == 'is' and x.a[0] == 'Some':
                return some
            if x.op == 'is' and x.a[0] == 'None':
                return not some
        r = decide(v, f)
        ls = leaves(r)
        if not ls:
            ctx.bad(rule, own(S) + ':result', 'encoding %s fails although every field was written' % own(S), loc)
            return
        for l in ls:
            if l.op == 'ctor' and l.a[0] == 'Ok' and len(l.a) > 1:
                l = l.a[1]
            facts, odd = [], []
            for p in parts_of(l, 'v') if l.op == 'cat' else ([] if l.op == 'list' and not l.a else [l]):
                x = p
                while x.op == 'proj' and x.a[0] == 'Ok':
                    x = x.a[2]
                ids = [y.a[1].a[0] for y in subterms(x) if y.op == 'ctor' and y.a[0] == 'Some' and len(y.a) > 1 and y.a[1].op == 'int']
                own_f = {y.a[1] for y in subterms(x) if y.op == 'field' and y.a[0].op == 'sym' and y.a[0].a[0] == 'self'}
                m = x.a[1] if x.op == 'mcall' else x.a[0] if x.op == 'call' else None
                if len(ids) == 1 and len(own_f) <= 1 and m:
                    facts.append((ids[0], own_f.pop() if own_f else None, m))
                else:
                    odd.append(p)
            if odd:
                ctx.undecided(rule, '%s: %s' % (S.name, show(odd[0])[:100]))
                continue
            for fl in S.fields:
                mine = [x for x in facts if x[1] == fl.name]
                byid = [x for x in facts if x[0] == fl.id]
                k = case(fl)
                if not mine and not some and fl.optional and len(byid) == 1 and byid[0][1] is None:
                    ctx.ok(rule, k)      # the record of an absent value
                    continue
                ctx.check(len(mine) == 1, rule, k + ':once', 'a %s field is written %d times by the encoder of its struct' % (k, len(mine)), loc)
                for i, _, m in mine:
                    ctx.check(i == fl.id, rule, k + ':id', 'a %s field is written under another id than its own' % k, loc)
                ctx.check(len(byid) <= 1, rule, k + ':unique', 'the id of a %s field is written for %d fields' % (k, len(byid)), loc)


def rs_empty(x):
    """id of the record whose emptiness the condition tests"""
    if x.op in ('==', '<'):
        n = [y for y in x.a if y.op == 'len']
        c = [y for y in x.a if y.op == 'int']
        if len(n) == 1 and len(c) == 1 and (c[0].a[0] == 0 and (x.op == '==' or x.a[0] is c[0]) or c[0].a[0] == 1 and x.op == '<' and x.a[1] is c[0]):
            g = [y for y in subterms(n[0]) if y.op == 'mcall' and y.a[1] == 'get' and len(y.a) == 3 and y.a[2].op == 'int']
            if len(g) == 1:
                return (g[0].a[2].a[0], x.op == '<' and x.a[0] is c[0])
    return None


def rs_ok(empty=None, but=None):
    """every read succeeds, every record is there; the record `empty` (or all but one) is empty"""
    def f(x):
        if x.op == 'is' and x.a[0] in ('Ok', 'Some'):
            return True
        if x.op == 'is' and x.a[0] in ('Err', 'None'):
            return False
        e = rs_empty(x)
        if e:
            return (e[0] == empty or empty == 'others' and e[0] != but) != e[1]
    return f


def rs_read(ctx, d, S, ex):
    P, rule = d.prog, 'rust-read'
    I, v, st = run(P, ex)
    loc = d.loc('structs')
    ok = rs_ok()
    r = decide(v, ok)
    if not leaves(r) or any(is_error(l) for l in leaves(r)) or not all(l.op == 'ctor' and l.a[0] == 'Ok' for l in leaves(r)):
        ctx.bad(rule, own(S) + ':result', 'decoding %s fails although every field was read: %s' % (own(S), show(r)[:80]), loc)
    vals = {}
    for k, x in st.env.items():
        if len(k) == 2 and k[0].endswith('#self'):
            vals[k[1]] = x
    for fl in S.fields:
        k = case(fl)
        if fl.name not in vals:
            ctx.bad(rule, k + ':assigned', 'a %s field is not set by the decoder of its struct' % k, loc)
            continue
        x = decide(vals[fl.name], ok)
        for l in leaves(x):
            rd = rs_reads(l)
            some = l.op == 'ctor' and l.a[0] == 'Some' and len(l.a) == 2
            if some:
                l = l.a[1]
            if l.op == 'proj' and l.a[0] == 'Ok' and l.a[2].op == 'call' and len(rd) == 1 and rd[0][0] is l.a[2]:
                _, ty, i = rd[0]
                if some:
                    ty = 'Option<%s>' % ty
                ctx.check(i == fl.id, rule, k + ':id', 'a %s field is read under another id than its own' % k, loc)
                ctx.check(norm_ty(P, ty, d.prog.items[own(S)][1], own(S)) == want_ty('rs', fl), rule, k + ':type', 'a %s field is read as %s' % (k, ty), loc)
            elif l.op == 'field' and l.a[1] == fl.name or not rd:
                ctx.bad(rule, k + ':value', 'decoding can succeed while a %s field keeps %s' % (k, 'its old value' if l.op == 'field' else show(l)[:60]), loc)
            else:
                ctx.undecided(rule, '%s: %s' % (k, show(l)[:100]))
        # an empty record is the absent value, and only of the field's own record
        if any(rs_empty(a) for a in atoms(vals[fl.name])):
            y = decide(vals[fl.name], rs_ok(fl.id))
            ctx.check(not fl.optional and y is x or fl.optional and all(l.op == 'none' or show(l) == 'None' or l in leaves(x) for l in leaves(y)), rule, k + ':absent', 'an empty record makes a %s field %s' % (k, show(y)[:60]), loc)
            base0 = rs_ok()
            gone = lambda a: (a.a[0] in ('None',)) if a.op == 'is' and len(a.a) > 1 and a.a[1].op == 'mcall' and a.a[1].a[1] == 'get' and a.a[1].a[-1].op == 'int' and a.a[1].a[-1].a[0] == fl.id else base0(a)
            ctx.check(fails(decide(v, gone), ()), rule, k + ':missing', 'decoding succeeds although the record of a %s field is missing' % k, loc)
            z = decide(vals[fl.name], rs_ok('others', fl.id))
            ctx.check(z is x, rule, k + ':others', 'a %s field depends on the records of other fields' % k, loc)
        # a failed read is reported
        for X, _, _ in {y[0]: y for y in rs_reads(vals[fl.name])}.values():
            i = [y for y in rs_reads(X) if y[2] == fl.id]
            if not i:
                continue
            base = rs_ok()

            def one(a):
                if a.op == 'is' and a.a[0] in ('Ok', 'Err') and len(a.a) > 1 and a.a[1] is X:
                    return a.a[0] == 'Err'
                return base(a)
            w = decide(v, one)
            ctx.check(fails(w, ()), rule, k + ':error', 'a %s field that cannot be read does not make decoding fail' % k, loc)


# ---------------------------------------------------------------- TypeScript structs

def ts_norm(t):
    """`this` whatever was assigned to its fields before"""
    def f(x):
        if x.op == 'upd' and x.a[0].op == 'sym' and x.a[0].a[0] == 'self':
            return x.a[0]
        return x
    return rewrite(t, f)


CODEC = re.compile(r'^(?:crate[.:]+)?Protocol[.:]+Primitives[.:]+(\w+)[.:]+(encode|decode|getSize)(\(.*\))?$')
SELFARR = re.compile(r'^(crate[\w.:]+?)[.:]+defaults\(\)[.:]+(encode|decode)SelfArray')


def short(t):
    return show(t).replace('::', '.')


def ts_codec(t):
    s = full(t)
    m = CODEC.match(s)
    if m:
        return (m.group(1), m.group(2))
    m = SELFARR.match(s)
    if m:
        return ('array of ' + m.group(1).replace('.', '::'), m.group(2))
    if t.op == 'field' and t.a[1] in ('encodeSelfArray', 'decodeSelfArray'):
        b = t.a[0]
        if b.op in ('new',):
            return ('array of ' + str(b.a[0]), t.a[1][:6])
        if b.op == 'mcall' and b.a[1] == 'defaults':
            return ('array of ' + full(b.a[0]).replace('.', '::'), t.a[1][:6])
    return None


def full(t):
    if t.op == 'sym':
        return t.a[0]
    if t.op == 'field':
        return full(t.a[0]) + '.' + str(t.a[1])
    if t.op in ('mcall', 'call'):
        return (full(t.a[0]) + '.' + t.a[1] if t.op == 'mcall' else t.a[0]) + '()'
    return show(t)


def ts_kind(f):
    """codec name of a model field in TypeScript, or None"""
    if f._ref is not None:
        return None
    t = 'String' if f.kind == 'str' else f.kind
    return layout.TSNAME['Vec<%s>' % t if f.repeated else t]


def ts_struct(ctx, d, S):
    P, o, rule = d.prog, own(S), 'ts-struct'
    it = P.items.get(o)
    if it is None:
        ctx.bad(rule, S.name + ':declared', 'no TypeScript class is generated for struct %s' % o, d.loc('structs'))
        return
    decl = {f['n']: f['ty'] for f in it[0]['fields']}
    itf = P.items.get('::'.join(['crate'] + S.path + ['I' + S.name]))
    idecl = {m['n']: m['ty'] for m in itf[0]['members']} if itf else {}
    for f in S.fields:
        for dc, what in ((decl, 'class'), (idecl, 'interface')):
            if f.name not in dc:
                ctx.bad(rule, case(f) + ':declared:' + what, 'a %s field is not declared in the TypeScript %s of its struct' % (case(f), what), d.loc('structs'))
            else:
                t = norm_ty(P, dc[f.name], it[1], o)
                ctx.check(t == want_ty('ts', f), 'ts-field-type', case(f) + ':' + what, 'field %s of kind %s is declared as %s, expected %s' % (f.name, case(f), t, want_ty('ts', f)), d.loc('get_type_ref'))
    extra = {n for n in idecl} - {f.name for f in S.fields}
    ctx.check(not extra, rule, 'extra', 'the interface of %s declares fields the protocol does not have: %s' % (o, sorted(extra)), d.loc('structs'))
    en, de = method(P, o, 'encode'), method(P, o, 'decode')
    if en is None or de is None:
        ctx.bad(rule, 'codec', 'no %s generated for struct %s' % ('encoder' if en is None else 'decoder', o), d.loc('structs'))
        return
    ts_write(ctx, d, S, en)
    ts_read(ctx, d, S, de)
    ts_ctor(ctx, d, S)


def ts_ctor(ctx, d, S):
    """the private codec of an enum field has the class of the enum"""
    P, o, rule = d.prog, own(S), 'ts-enum-codec'
    en = [f for f in S.fields if f._ref is not None and f._ref.ty == 'Enum']
    if not en:
        return
    fn = [x for x in P.all_fns if x.name == 'constructor' and x.owner == o]
    if not fn:
        return ctx.bad(rule, 'constructor', 'no constructor for %s' % o, d.loc('struct_constructor'))
    I, v, st = run(P, fn[0])
    vals = {k[1]: x for k, x in st.env.items() if len(k) == 2 and k[0].endswith('#self')}
    for f in en:
        x = vals.get('_' + f.name)
        c = None
        if x is not None:
            for y in subterms(x):
                if y.op == 'new':
                    c = str(y.a[0])
        if c is None:
            ctx.undecided(rule, f.name)
        else:
            ctx.check(c == own(f._ref), rule, case(f), 'the codec of a %s field is %s, expected %s' % (case(f), c, own(f._ref)), d.loc('struct_constructor'))


def ts_records(t, I):
    """field records assembled by encode(): terms, one per record"""
    t = ts_norm(t)
    if t.op == 'mcall' and t.a[1] == 'collect' and len(t.a) > 2:
        return t.a[2]
    return None


def same_this(x):
    return x.op == 'sym' and x.a[0] == 'self'


def ts_write(ctx, d, S, en):
    P, rule, loc = d.prog, 'ts-write', d.loc('get_field_encode')
    I, v, st = run(P, en)
    l = ts_records(v, I)
    if l is None or l.op != 'list':
        if S.fields:
            ctx.undecided(rule, '%s: %s' % (S.name, show(v)[:80]))
        return
    recs = []
    for c in l.a:
        n0 = len(I.events)
        r = I.apply(c, [], st.fork(), None) if c.op in ('closure', 'fnref') else c
        recs.append((ts_norm(r), I.events[n0:]))
    seen = {}
    for r, ev in recs:
        alts = [('any', r)]
        absent = decide(r, lambda x: True if x.op == 'is' and x.a[0] == 'undefined' else None)
        present = decide(r, lambda x: False if x.op == 'is' and x.a[0] == 'undefined' else None)
        fact = ts_record(present)
        if fact is None:
            ctx.undecided(rule, '%s: %s' % (S.name, show(present)[:120]))
            continue
        i, name, codec, rank, size = fact
        if name and name.startswith('_') and any(f.name == name[1:] for f in S.fields):
            name = name[1:]
            # the codec object must hold the current value of the field
            sets = [e for e in I.events if e.kind == 'call' and e.name == 'set' and full(e.recv) == 'self._' + name and len(e.args) == 1 and full(ts_norm(e.args[0])) == 'self.' + name]
            if not sets and codec == 'enum':
                codec = 'stale enum'
        seen.setdefault(name, []).append((i, codec, rank, size, absent, present))
    for f in S.fields:
        k, fs = case(f), seen.get(f.name, [])
        ctx.check(len(fs) == 1, rule, k + ':once', 'a %s field is written %d times by the encoder of its struct' % (k, len(fs)), loc)
        for i, codec, rank, size, absent, present in fs:
            ctx.check(i == f.id, rule, k + ':id', 'a %s field is written under another id than its own' % k, loc)
            if f._ref is None:
                want = ts_kind(f)
            elif f.repeated:
                want = 'array of ' + own(f._ref)
            else:
                want = 'enum' if f._ref.ty == 'Enum' else 'struct'
            if codec is None:
                ctx.undecided(rule, k + ': codec')
            else:
                ctx.check(codec == want, rule, k + ':codec', 'a %s field is written as %s, expected %s' % (k, codec, want), loc)
            variable = f._ref is not None or f.repeated or f.kind == 'str'
            if variable and rank is not None:
                ctx.check(rank in ('u64', 'u32'), rule, k + ':class', 'the size of a %s field is announced with size class %s although its body has no bound' % (k, rank), loc)
            ctx.check(size is not False, rule, k + ':size', 'the announced size of a %s field is not the size of its body' % k, loc)
            if f.optional:
                a = ts_record(absent)
                ctx.check(a is not None and a[0] == f.id and a[2] == 'nothing', rule, k + ':absent', 'an absent %s field is not written as an empty record under its id' % k, loc)
            else:
                ctx.check(absent is present or ts_record(absent) is not None and ts_record(absent)[:4] == ts_record(present)[:4], rule, k + ':conditional', 'a %s field is written differently when it is undefined' % k, loc)


def ts_record(r):
    """(id, field, codec, size class, size ok) of a record built by getBuffer / getBufferFromBuf"""
    if r.op != 'mcall' or not same_this(r.a[0]) or r.a[1] not in ('getBuffer', 'getBufferFromBuf'):
        return None
    a = list(r.a[2:])
    if not a or a[0].op != 'int' or len(a) < 4:
        return None
    rank = full(a[1]).split('.')[-1]
    if r.a[1] == 'getBufferFromBuf':
        c = ts_codec(a[2])
        f = a[3]
        if f.op != 'field' or not same_this(f.a[0]):
            return None
        return a[0].a[0], f.a[1], c[0] if c and c[1] == 'encode' else None, rank, None
    size, body = a[2], a[3]
    if body.op == 'new' and 'Uint8Array' in str(body.a[0]) and len(body.a) == 1:
        return a[0].a[0], None, 'nothing', rank, size.op == 'int' and size.a[0] == 0
    if body.op == 'mcall' and body.a[1] in ('encode', 'collect') and body.a[0].op == 'field' and same_this(body.a[0].a[0]):
        ok = size.op == 'len' and size.a[0] is body
        n = body.a[0].a[1]
        return a[0].a[0], n, 'enum' if n.startswith('_') else 'struct', rank, ok
    c = None
    if body.op == 'mcall':
        m = CODEC.match(full(mk('field', body.a[0], body.a[1])))
        c = (m.group(1), m.group(2)) if m else None
    fs = [x for x in body.a[2:] if x.op == 'field' and same_this(x.a[0])] if body.op == 'mcall' else []
    if len(fs) != 1:
        return None
    ok = None
    if c:
        m = CODEC.match(full(mk('field', size.a[0], size.a[1]))) if size.op == 'mcall' else None
        if m:
            ok = m.group(1) == c[0] and m.group(2) == 'getSize'
        elif size.op == 'len':
            ok = size.a[0] is body
    return a[0].a[0], fs[0].a[1], c[0] if c else None, rank, ok


def storage_get(t):
    """id of storage.get(id)"""
    if t.op == 'mcall' and t.a[1] == 'get' and len(t.a) == 3 and t.a[2].op == 'int':
        s = t.a[0]
        if s.op == 'mcall' and s.a[1] == 'getStorage':
            return t.a[2].a[0]
    return None


def ts_read(ctx, d, S, de):
    P, rule, loc = d.prog, 'ts-read', d.loc('get_field_decode')
    I, v, st = run(P, de)
    v = ts_norm(v)
    vals = {k[1]: ts_norm(x) for k, x in st.env.items() if len(k) == 2 and k[0].endswith('#self')}
    decodes = {}
    for e in I.events:
        if e.kind == 'call' and e.name == 'decode' and e.recv is not None and e.args:
            i = storage_get(ts_norm(e.args[0]))
            if i is not None:
                decodes.setdefault(ts_norm(e.recv), []).append((i, ts_norm(e.val) if e.val is not None else None))

    def dec(empty):
        def f(x):
            if x.op == 'is' and x.a[0] in ('Error',):
                return False
            if x.op == 'is' and x.a[0] == 'undefined' and storage_get(x.a[1]) is not None:
                return False
            if x.op == '==' and any(y.op == 'len' and storage_get(y.a[0]) is not None for y in x.a) and any(y.op == 'int' and y.a[0] == 0 for y in x.a):
                return empty
            if x.op == '<' and x.a[0].op == 'int' and x.a[0].a[0] == 0 and x.a[1].op == 'len' and storage_get(x.a[1].a[0]) is not None:
                return not empty
            if x.op == '<' and x.a[1].op == 'int' and x.a[1].a[0] == 1 and x.a[0].op == 'len' and storage_get(x.a[0].a[0]) is not None:
                return empty
        return f
    for empty in (False, True):
        r = decide(v, dec(empty))
        ctx.check(leaves(r) and not any(is_error(l) for l in leaves(r)) and r.op != 'ite', rule, own(S) + ':result', 'decoding %s fails although every field was read: %s' % (own(S), show(r)[:80]), loc)
    for f in S.fields:
        k = case(f)
        if f.name not in vals:
            ctx.bad(rule, k + ':assigned', 'a %s field is not set by the decoder of its struct' % k, loc)
            continue
        x = decide(vals[f.name], dec(False))
        for l in leaves(x):
            ts_value(ctx, d, S, f, l, decodes, v, I, rule, loc)
        y = decide(vals[f.name], dec(True))
        if f.optional:
            ctx.check(all(show(l) == 'undefined' for l in leaves(y)) or y.op == 'never', rule, k + ':absent', 'an empty record does not make a %s field undefined: %s' % (k, show(y)[:60]), loc)
            may = 'list' if f.repeated else 'text' if ts_kind(f) == 'StrUTF8' else None
            if may:      # the value itself may take no byte at all
                ctx.check(not any(show(l) == 'undefined' for l in leaves(y)), 'ts-optional-empty', may, 'an optional field holding an empty %s is read back as absent' % may, loc)
        elif f._ref is not None and f._ref.ty == 'Enum' and not f.repeated:
            ctx.check(y is x or show(y) == 'slit(, ())', rule, k + ':unset', 'an unset %s field is read as %s' % (k, show(y)[:60]), loc)
        else:
            ctx.check(y is x, rule, k + ':empty', 'a %s field is read as %s when its record is empty' % (k, show(y)[:60]), loc)


def ts_value(ctx, d, S, f, l, decodes, v, I, rule, loc):
    k = case(f)
    fact = None
    src = None
    if l.op == 'mcall' and l.a[1] == 'getValue' and len(l.a) == 5 and l.a[3].op == 'int':
        c = ts_codec(l.a[4])
        fact = (l.a[3].a[0], c[0] if c and c[1] == 'decode' else None)
        src = l
    elif l.op == 'new' and l in decodes:
        fact = (decodes[l][0][0], 'struct ' + str(l.a[0]))
        ids = {i for i, _ in decodes[l]}
        fact = (f.id if f.id in ids else min(ids), fact[1])
        src = [r for i, r in decodes[l] if i == fact[0]][0]
    elif l.op == 'mcall' and l.a[1] == 'defaults' and l in decodes:
        ids = {i for i, _ in decodes[l]}
        fact = (f.id if f.id in ids else min(ids), 'struct ' + full(l.a[0]).replace('.', '::'))
        src = [r for i, r in decodes[l] if i == fact[0]][0]
    elif l.op == 'mcall' and l.a[1] == 'get' and l.a[0].op == 'field' and same_this(l.a[0].a[0]) and l.a[0] in decodes:
        n = l.a[0].a[1]
        fact = (decodes[l.a[0]][0][0], 'enum ' + n)
        src = decodes[l.a[0]][0][1]
    if fact is None:
        if l.op == 'field' and same_this(l.a[0]) and l.a[1] == f.name or l.op in ('slit', 'int', 'str') or l.op == 'new' or show(l) == 'undefined':
            ctx.bad(rule, k + ':value', 'decoding can succeed while a %s field is %s' % (k, 'unchanged' if l.op == 'field' else 'set to ' + show(l)[:60]), loc)
        else:
            ctx.undecided(rule, '%s: %s' % (k, show(l)[:120]))
        return
    ctx.check(fact[0] == f.id, rule, k + ':id', 'a %s field is read under another id than its own' % k, loc)
    if f._ref is None:
        want = ts_kind(f)
    elif f.repeated:
        want = 'array of ' + own(f._ref)
    else:
        want = 'enum _' + f.name if f._ref.ty == 'Enum' else 'struct ' + own(f._ref)
    if fact[1] is None:
        ctx.undecided(rule, k + ': codec')
    else:
        ctx.check(fact[1] == want, rule, k + ':codec', 'a %s field is read as %s, expected %s' % (k, fact[1], want), loc)
    # a failure is passed on
    if src is not None:
        w = decide(v, lambda a: (a.a[1] is src) if a.op == 'is' and a.a[0] == 'Error' else None)
        bad = [x for x in subterms(v) if x.op == 'is' and x.a[0] == 'Error' and x.a[1] is src]
        if bad or True:
            def fin(a):
                if a.op == 'is' and a.a[0] == 'Error':
                    return a.a[1] is src
                if a.op == 'is' and a.a[0] == 'undefined' and storage_get(a.a[1]) is not None:
                    return False
                if a.op == '==' and any(y.op == 'len' for y in a.a):
                    return False
                if a.op == '<' and a.a[0].op == 'int' and a.a[1].op == 'len':
                    return True
            ctx.check(fails(decide(v, fin), (src,)), rule, k + ':error', 'a %s field that cannot be read does not make decoding fail' % k, loc)


def G01(ctx):
    for lang, f in (('rs', rs_struct), ('ts', ts_struct)):
        d = derive(ctx, lang)
        if d is None:
            continue
        n = 0
        for S in d.model.structs:
            f(ctx, d, S)
            n += len(S.fields)
        ctx.count('schematic fields (%s)' % {'rs': 'Rust', 'ts': 'TypeScript'}[lang], n)
        ctx.floor('%s field obligations' % lang, sum(n for r, n in ctx.obl.items() if r.startswith('rust' if lang == 'rs' else 'ts')), 300)


# ---------------------------------------------------------------- enums

def run1(P, fn, args=None, selfv=None, keep=(), more=()):
    """fn run with every other generated or run-time member opaque but those of `keep`"""
    names = (OPQ | set(more)) - set(keep)
    I = Interp(P, opaque=lambda f: f is not fn and f.name in names)
    I.generics = True
    v, st = I.run_fn(fn, args, selfv=selfv)
    return I, v, st


def succeed(x):
    if x.op == 'is' and x.a[0] in ('Ok', 'Some'):
        return True
    if x.op == 'is' and x.a[0] in ('Err', 'None', 'Error'):
        return False


def rs_enum(ctx, d, E):
    """{variant: index written}, {index read: variant}; None where nothing could be derived"""
    P, o, rule, loc = d.prog, own(E), 'rust-enum', d.loc('enums')
    it = P.items.get(o)
    if it is None:
        ctx.bad(rule, E.name + ':declared', 'no Rust type is generated for enum %s' % o, loc)
        return {}, {}
    decl = {v['n'] if isinstance(v, dict) else v[0]: v for v in it[0]['v']}
    for v in E.variants:
        k = vcase(v)
        if v.name not in decl:
            ctx.bad(rule, k + ':declared', 'a variant of type %s is not declared in the Rust enum' % k, loc)
            continue
        fs = rs_variant_fields(decl[v.name])
        t = norm_ty(P, fs[0], it[1], o) if len(fs) == 1 else str(fs)
        ctx.check(t == want_var('rs', v), rule, k + ':type', 'a variant of type %s is declared with %s' % (k, t), loc)
    wr, rd = {}, {}
    ab, ex = method(P, o, 'abduct'), method(P, o, 'extract')
    if ab is None or ex is None:
        ctx.bad(rule, 'codec', 'no %s generated for enum %s' % ('encoder' if ab is None else 'decoder', o), loc)
        return wr, rd
    for v in E.variants:
        k, x = vcase(v), mk('sym', 'payload')
        I, val, st = run1(P, ab, selfv=mk('ctor', v.name, x))
        ls = leaves(decide(val, succeed))
        if not ls or any(not (l.op == 'ctor' and l.a[0] == 'Ok') for l in ls):
            ctx.bad(rule, k + ':written', 'a variant of type %s cannot be written: %s' % (k, show(val)[:80]), loc)
            continue
        for l in ls:
            ps = parts_of(l.a[1], 'v')
            if len(ps) < 1 or ps[0].op not in ('le', 'be') or ps[0].a[1].op != 'int':
                ctx.undecided(rule, '%s: written as %s' % (k, show(l)[:80]))
                continue
            ctx.check(ps[0].op == 'le' and ps[0].a[0] == 'u16', rule, k + ':index-bytes', 'the index of a variant of type %s is written as %s %s' % (k, ps[0].op, ps[0].a[0]), loc)
            body = ps[1:]
            b = body[0] if len(body) == 1 else None
            good = b is not None and b.op == 'proj' and b.a[0] == 'Ok' and b.a[2].op == 'mcall' and b.a[2].a[1] in ('encode', 'abduct') and b.a[2].a[0] is x
            ctx.check(good, rule, k + ':body', 'the payload of a variant of type %s is written as %s' % (k, ', '.join(show(y) for y in body)[:80]), loc)
            wr[v.name] = ps[0].a[1].a[0]
        # a payload that cannot be encoded is an error
        fl = decide(val, lambda a: None if a.op != 'is' else True if a.a[0] == 'Err' else False if a.a[0] == 'Ok' else None)
        ctx.check(fails(fl, ()), rule, k + ':write-error', 'a variant of type %s is written although its payload could not be encoded' % k, loc)
    I, val, st = run1(P, ex)
    xs = {}
    for y in subterms(val):
        if y.op == 'mcall' and y.a[1].startswith('get_') or y.op == 'call' and y.a[0].split('::')[-1] in ('from_le_bytes', 'from_be_bytes', 'from_ne_bytes') or y.op in ('rd', 'unle', 'unbe', 'fromle', 'frombe'):
            if y.op == 'mcall' and y.a[1] not in ('get_u8', 'get_u16', 'get_u16_le', 'get_u16_ne', 'get_u32_le', 'get_i16_le', 'get_u64_le', 'get_u32'):
                continue
            xs[y] = 1
    xs = list(xs)
    if len(xs) != 1:
        ctx.undecided(rule, '%s: index read by %s' % (o, [show(y)[:60] for y in xs]))
        return wr, rd
    X = xs[0]
    how = X.a[1] if X.op == 'mcall' else X.a[0]
    ctx.check(how in ('get_u16_le',) or 'u16::from_le_bytes' in str(how) or X.op == 'fromle', rule, 'index-read', 'the index of an enum value is read by %s, it is written as 16 bit little endian' % how, loc)
    short_ = lambda a: False if a.op == '<' and a.a[0].op == 'len' else None
    seen = {}
    for i in list(range(len(E.variants))) + [len(E.variants), 65535]:
        r = subst(val, {X: Int(i)})
        r = decide(r, lambda a: short_(a) if short_(a) is not None else succeed(a))
        ls = leaves(r)
        if i >= len(E.variants):
            ctx.check(fails(r, ()), rule, 'unknown', 'an index no variant has is read as %s' % show(r)[:60], loc)
            continue
        if not ls or any(is_error(l) for l in ls):
            ctx.bad(rule, vcase(E.variants[i]) + ':read', 'the index of a variant of type %s is not read' % vcase(E.variants[i]), loc)
            continue
        for l in ls:
            c = l.a[1] if l.op == 'ctor' and l.a[0] == 'Ok' else None
            if c is None or c.op != 'ctor':
                ctx.undecided(rule, '%s: index %d read as %s' % (o, i, show(l)[:60]))
                continue
            n = str(c.a[0]).split('::')[-1]
            rd[i] = n
            vs = [v for v in E.variants if v.name == n]
            if not vs:
                ctx.bad(rule, 'foreign', 'index %d of %s is read as %s' % (i, o, n), loc)
                continue
            b = c.a[1]
            src = b.a[2] if b.op == 'proj' and b.a[0] == 'Ok' else None
            if src is None or src.op != 'call' or not src.a[0].endswith(('::decode', '::extract')):
                ctx.bad(rule, vcase(vs[0]) + ':payload', 'a variant of type %s is read as %s' % (vcase(vs[0]), show(b)[:60]), loc)
                continue
            ty = norm_ty(P, src.a[0].rsplit('::', 1)[0], it[1], o)
            ctx.check(ty == want_var('rs', vs[0]), rule, vcase(vs[0]) + ':decoder', 'the payload of a variant of type %s is read as %s' % (vcase(vs[0]), ty), loc)
            g = src.a[1]
            ok = g.op == 'index' and g.a[1].op == 'range' and show(g.a[0]) == 'buf' and show(g.a[1].a[0]) in ('U16_LEN', '2', 'sizes::U16_LEN') and show(g.a[1].a[1]) == 'nohi()'
            ctx.check(ok, rule, vcase(vs[0]) + ':slice', 'the payload of a variant of type %s is read from %s' % (vcase(vs[0]), show(g)[:60]), loc)
            # a payload that cannot be read is an error
            w = decide(subst(val, {X: Int(i)}), lambda a: None if a.op != 'is' else True if a.a[0] == 'Err' else False if a.a[0] == 'Ok' else None)
            ctx.check(fails(w, ()), rule, vcase(vs[0]) + ':read-error', 'a variant of type %s whose payload cannot be read is not an error' % vcase(vs[0]), loc)
    return wr, rd


def rs_variant_fields(v):
    """types of the payload of a declared Rust variant"""
    fs = v.get('f') if isinstance(v, dict) else v[1]
    out = []
    for f in fs or []:
        out.append(f[1] if isinstance(f, (list, tuple)) else f)
    return out


def vcase(v):
    b = v._prim if v._ref is None else ('struct' if v._ref.parent == 0 else 'struct of a group')
    return b + ('[]' if v.repeated else '')


def ts_class(v):
    if v._ref is not None and v.repeated:
        return 'array of ' + own(v._ref)
    if v._ref is not None:
        return own(v._ref)
    t = 'String' if v._prim == 'str' else v._prim
    return layout.TSNAME['Vec<%s>' % t if v.repeated else t]


def cls_of(P, E, t):
    """class of a signed value, normalised"""
    n = None
    if t.op == 'new':
        n = str(t.a[0])
    elif t.op == 'mcall' and t.a[1] in ('defaults', 'getSignature'):
        n = full(t.a[0]).replace('.', '::')
    elif t.op == 'call' and t.a[0].split('::')[-1] in ('defaults', 'getSignature'):
        n = t.a[0].rsplit('::', 1)[0]
    if n is None:
        return None
    last = n.split('::')[-1]
    if 'Primitives' in n.split('::') or last in TSP:
        return last
    if n in P.items:
        return n
    return norm_ty(P, n, P.items[own(E)][1], own(E))


TSP = set(layout.TSNAME.values())


def ts_enum(ctx, d, E):
    P, o, rule, loc = d.prog, own(E), 'ts-enum', d.loc('enums')
    it = P.items.get(o)
    if it is None:
        ctx.bad(rule, E.name + ':declared', 'no TypeScript class is generated for enum %s' % o, loc)
        return {}, {}
    itf = P.items.get('::'.join(['crate'] + E.path + ['I' + E.name]))
    decl = {m['n']: m['ty'] for m in itf[0]['members']} if itf else {}
    for v in E.variants:
        k = vcase(v)
        if v.name not in decl:
            ctx.bad(rule, k + ':declared', 'a variant of type %s is not declared in the TypeScript interface' % k, loc)
            continue
        t = norm_ty(P, decl[v.name], it[1], o)
        want = want_var('rs', v) if v._ref is not None else want_ty_prim(v)
        ctx.check(t == want, rule, k + ':type', 'a variant of type %s is declared as %s' % (k, t), loc)
    wr, rd, op = {}, {}, {}
    ms = {n: method(P, o, n) for n in ('set', 'get', 'getOptionValue', 'getAllowed')}
    for n, f in ms.items():
        if f is None:
            ctx.bad(rule, n, 'no %s generated for enum %s' % (n, o), loc)
            return wr, rd
    I, val, st = run1(P, ms['getAllowed'], more=('getSignature',))
    allowed = [cls_of(P, E, x) for x in val.a] if val.op == 'list' else None
    if allowed is None:
        ctx.undecided(rule, '%s: getAllowed' % o)
    for v in E.variants:
        k, x = vcase(v), mk('sym', 'payload')
        if allowed is not None:
            ctx.check(ts_class(v) in allowed, rule, k + ':allowed', 'the signature of a variant of type %s is not among the allowed ones' % k, loc)
        I, val, st = run1(P, ms['set'], [mk('slit', '', tuple((w.name, x if w is v else mk('ctor', 'undefined')) for w in E.variants))], keep=('set',))
        calls = [e for e in I.events if e.kind == 'call' and e.name == 'setValue' and not impossible(e, v.name)]
        if len(calls) != 1:
            ctx.check(False, rule, k + ':written', 'setting a variant of type %s stores %d values' % (k, len(calls)), loc)
            continue
        a = calls[0].args[0]
        if a.op != 'new' or str(a.a[0]).split('::')[-1] != 'Option' or a.a[1].op != 'int':
            ctx.undecided(rule, '%s: set by %s' % (k, show(a)[:80]))
            continue
        sg = a.a[2]
        wr[v.name] = a.a[1].a[0]
        if v._ref is not None and not v.repeated:
            ctx.check(sg is x, rule, k + ':stored', 'a variant of type %s is stored as %s' % (k, show(sg)[:60]), loc)
        else:
            ctx.check(cls_of(P, E, sg) == ts_class(v), rule, k + ':codec', 'a variant of type %s is written by %s' % (k, cls_of(P, E, sg)), loc)
            if cls_of(P, E, sg) == ts_class(v):
                ctx.check(len(sg.a) == 2 and sg.a[1] is x, rule, k + ':stored', 'a variant of type %s is stored as %s' % (k, show(sg)[:60]), loc)
    names = {v.name: v for v in E.variants}
    I, gv, gst = run1(P, ms['get'], keep=('get',))
    X = [y for y in subterms(gv) if y.op == 'mcall' and y.a[1] == 'getValueIndex']
    for i in range(len(E.variants)):
        k = vcase(E.variants[i])
        I, val, st = run1(P, ms['getOptionValue'], [Int(i)])
        dead = val.op == 'never' or not leaves(val)
        thrown = [e for e in I.events if e.kind == 'throw' and not any(c is FALSE for c in e.pc)]
        if dead or thrown:
            ctx.bad(rule, k + ':read', 'the index of a variant of type %s is not known to the reader' % k, loc)
        else:
            c = cls_of(P, E, val)
            if c is None:
                ctx.undecided(rule, '%s: option %d is %s' % (o, i, show(val)[:60]))
            else:
                op[i] = c
        if X:
            r = subst(gv, {x: Int(i) for x in X})
            if r.op == 'slit':
                got = [n for n, y in r.a[1] if y.op == 'mcall' and y.a[1] == 'getValue']
                for n in got:
                    rd.setdefault(i, n)
                ctx.check(len(got) == 1, rule, k + ':get', 'index of a variant of type %s is handed out as %s' % (k, got), loc)
            else:
                ctx.undecided(rule, '%s: get' % o)
    if not X:
        ctx.undecided(rule, '%s: get without getValueIndex' % o)
    I, val, st = run1(P, ms['getOptionValue'], [Int(len(E.variants))])
    ctx.check(val.op == 'never' or not leaves(val) or is_error(val), rule, 'unknown', 'an index no variant has is read as %s' % show(val)[:60], loc)
    for i, n in rd.items():
        if n in names and i in op:
            ctx.check(op[i] == ts_class(names[n]), rule, vcase(names[n]) + ':decoder', 'the payload of a variant of type %s is read by %s' % (vcase(names[n]), op[i]), loc)
    return wr, rd


def want_ty_prim(v):
    b = TSPRIM.get(v._prim, 'number')
    return 'Vec<%s>' % b if v.repeated else b


def impossible(e, name):
    return any(c is FALSE for c in e.pc)


def G02(ctx):
    maps = {}
    for lang, f in (('rs', rs_enum), ('ts', ts_enum)):
        d = derive(ctx, lang)
        if d is None:
            continue
        n = 0
        L = {'rs': 'Rust', 'ts': 'TypeScript'}[lang]
        if lang == 'ts':
            k = ts_signatures(ctx, d.prog, d.loc('structs')) + ts_signatures(ctx, subject.ts_static(), 'cli/src/protocol/render/typescript/static')
            ctx.floor('TypeScript classes with a signature', k, 30)
        for E in d.model.enums:
            wr, rd = f(ctx, d, E)
            maps[lang, own(E)] = wr
            n += len(wr)
            ctx.check(len(set(wr.values())) == len(wr), lang + '-index', own(E) + ':unique', '%s: two variants of %s are written with one index: %s' % (L, own(E), wr), d.loc('enums'))
            for v, i in sorted(wr.items()):
                if rd:
                    vs = [x for x in E.variants if x.name == v][0]
                    ctx.check(rd.get(i) == v, lang + '-index', vcase(vs) + ':back', '%s: a variant of type %s is written with an index that is read as %s' % (L, vcase(vs), 'another variant' if rd.get(i) else 'nothing'), d.loc('enums'))
        ctx.count('variants written and read (%s)' % L, n)
        ctx.floor('%s variants' % L, n, 25)
        for E in d.model.enums:
            if ('rs', own(E)) in maps and ('ts', own(E)) in maps:
                a, b = maps['rs', own(E)], maps['ts', own(E)]
                for v in E.variants:
                    if v.name in a and v.name in b:
                        ctx.check(a[v.name] == b[v.name], 'index', vcase(v) + ':languages', 'a variant of type %s has index %d in Rust and %d in TypeScript' % (vcase(v), a[v.name], b[v.name]), d.loc('enums'))


def ts_signatures(ctx, P, loc):
    """the signature a class states and the one its instances state agree (an enum compares the two)"""
    by = {}
    for f in P.all_fns:
        if f.name == 'getSignature' and f.owner and f.node.get('body'):
            by.setdefault(f.owner, {})[bool(f.node.get('self'))] = f
    n = 0
    for o, m in sorted(by.items()):
        if len(m) < 2:
            continue
        vs = []
        for k in (True, False):
            I = Interp(P)
            v, st = I.run_fn(m[k])
            vs.append(v)
        n += 1
        ctx.check(vs[0] is vs[1], 'ts-signature', o.split('::')[-1], 'instances of %s state the signature %s, the class %s' % (o, show(vs[0])[:40], show(vs[1])[:40]), loc)
    return n


# ---------------------------------------------------------------- messages

def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            for x in walk(v):
                yield x
    elif isinstance(n, list):
        for v in n:
            for x in walk(v):
                yield x


def const_int(P, mod, n):
    if n.get('k') == 'paren':
        return const_int(P, mod, n['e'])
    if n.get('k') == 'cast':
        return const_int(P, mod, n['e'])
    if n.get('k') == 'lit' and n.get('t') == 'int':
        return int(str(n['v']).replace('_', ''), 0)
    if n.get('k') == 'path':
        r = P.resolve(mod, n['p'].split('::'))
        it = P.items.get(r) if r else None
        if it and it[0].get('k') in ('const', 'static') and it[0].get('e'):
            return const_int(P, it[1], it[0]['e'])
    return None


def entities(d):
    return [(E, 'enum') for E in d.model.enums] + [(S, 'struct') for S in d.model.structs]


def ecase(E, kind):
    return kind + ['', ' of a group', ' of a nested group'][min(len(E.path), 2)]


def value(P, f):
    I = Interp(P)
    v, st = I.run_fn(f)
    return v


def rs_messages(ctx, d):
    P, rule = d.prog, 'rust-message'
    bufs = [k for k in P.methods if k.startswith('Buffer<') and 'get_msg' in P.methods[k]]
    if len(bufs) != 1:
        ctx.bad(rule, 'reader', '%d message readers are generated' % len(bufs), d.loc('buffer'))
        return None
    rd = P.methods[bufs[0]]
    sig = value(P, rd['get_signature']) if 'get_signature' in rd else None
    fn = rd['get_msg']
    ids = {}
    n = 0
    loc = d.loc('buffer')
    for E, kind in entities(d):
        k, o = ecase(E, kind), own(E)
        got = {}
        for m in ('get_id', 'get_signature'):
            for f in fns_of(P, o, m):
                v = value(P, f)
                if m == 'get_id':
                    ctx.check(v.op == 'int' and v.a[0] == E.id, rule, k + ':id', 'a %s states %s as its id, not its own' % (k, show(v)[:40]), d.loc(kind + 's'))
                    got.setdefault(f.trait, v)
                else:
                    ctx.check(v is sig, rule, k + ':signature', 'a %s is sent with signature %s, the reader expects %s' % (k, show(v)[:40], show(sig)[:40] if sig is not None else None), d.loc(kind + 's'))
        ctx.check(any((t or '').endswith('Encode') for t in got), rule, k + ':sender', 'no id is generated for sending a %s' % k, d.loc(kind + 's'))
        I, val, st = run1(P, fn, [Int(E.id)])
        r = decide(val, succeed)
        ls = leaves(r)
        if not ls or any(is_error(l) for l in ls):
            ctx.bad(rule, k + ':read', 'a %s is not known to the reader of messages' % k, loc)
            continue
        for l in ls:
            path, x = [], l.a[1] if l.op == 'ctor' and l.a[0] == 'Ok' else l
            while x.op == 'ctor' and len(x.a) == 2:
                path.append(str(x.a[0]).split('::')[-1])
                x = x.a[1]
            src = x.a[2] if x.op == 'proj' and x.a[0] == 'Ok' else None
            if src is None or src.op != 'call':
                ctx.undecided(rule, '%s: %s' % (k, show(l)[:80]))
                continue
            n += 1
            ctx.check(path == E.path + [E.name], rule, k + ':delivered', 'a %s is delivered as %s, not under its own name' % (k, '::'.join(path)), loc)
            dec = src.a[0]
            ctx.check(dec.rsplit('::', 1)[0] == o and dec.rsplit('::', 1)[1] == 'extract', rule, k + ':decoder', 'a %s is decoded by %s' % (k, dec), loc)
            ctx.check(len(src.a) == 2 and src.a[1].op == 'sym', rule, k + ':body', 'a %s is decoded from %s' % (k, show(src.a[1])[:60]), loc)
        w = decide(val, lambda a: None if a.op != 'is' else a.a[0] == 'Err' if a.a[0] in ('Err', 'Ok') else None)
        ctx.check(fails(w, ()), rule, k + ':error', 'a %s that cannot be decoded is not reported as an error' % k, loc)
        # the list of messages names it with its own type
        lst = P.items.get('::'.join(['crate'] + E.path + ['AvailableMessages']))
        mem = {v['n']: rs_variant_fields(v) for v in lst[0]['v']} if lst else {}
        t = norm_ty(P, mem[E.name][0], lst[1], None) if len(mem.get(E.name, [])) == 1 else None
        ctx.check(t == o, rule, k + ':listed', 'a %s is listed as message with type %s' % (k, t), d.loc('get_messages_list'))
    unknown = [i for i in (0, 1, 7, 999999) if i not in {E.id for E, _ in entities(d)}]
    for i in unknown:
        I, val, st = run1(P, fn, [Int(i)])
        ctx.check(fails(decide(val, succeed), ()), rule, 'unknown', 'an id no message has is decoded as %s' % show(val)[:60], loc)
    ctx.count('messages delivered (Rust)', n)
    ctx.floor('messages delivered (Rust)', n, 40)
    return sig


def ts_messages(ctx, d):
    P, rule, loc = d.prog, 'ts-message', d.loc('buffer')
    cl = [k for k in P.methods if 'getMessage' in P.methods[k] and k.startswith('crate') and P.methods[k]['getMessage'].node.get('body')]
    if len(cl) != 1:
        ctx.bad(rule, 'reader', '%d message readers are generated' % len(cl), loc)
        return None
    rd = P.methods[cl[0]]
    sig = value(P, rd['signature']) if 'signature' in rd else None
    fn = rd['getMessage']
    n = 0
    seq, ts = mk('sym', 'seq'), mk('sym', 'ts')

    def read(i):
        h = mk('slit', 'H', (('id', Int(i)), ('sequence', seq), ('ts', ts)))
        I, val, st = run1(P, fn, [h])
        return I, ts_norm(val), st
    for E, kind in entities(d):
        k, o = ecase(E, kind), own(E)
        for m in ('getId', 'signature'):
            fs = [f for f in fns_of2(P, o, m)]
            ctx.check(fs, rule, k + ':' + m, 'no %s is generated for a %s' % (m, k), d.loc(kind + 's'))
            for f in fs:
                v = value(P, f)
                if m == 'getId':
                    ctx.check(v.op == 'int' and v.a[0] == E.id, rule, k + ':id', 'a %s states %s as its id, not its own' % (k, show(v)[:40]), d.loc(kind + 's'))
                else:
                    ctx.check(v is sig, rule, k + ':signature', 'a %s is sent with signature %s, the reader expects %s' % (k, show(v)[:40], show(sig)[:40] if sig is not None else None), d.loc(kind + 's'))
        I, val, st = read(E.id)
        r = decide(val, succeed)
        ls = leaves(r)
        if not ls or any(is_error(l) for l in ls):
            ctx.bad(rule, k + ':read', 'a %s is not known to the reader of messages' % k, loc)
            continue
        for l in ls:
            mem = dict(l.a[1]) if l.op == 'slit' else {}
            if not {'header', 'msg'} <= set(mem):
                ctx.undecided(rule, '%s: %s' % (k, show(l)[:80]))
                continue
            path, x = [], mem['msg']
            while x.op == 'slit' and len(x.a[1]) == 1 and not (path and path == E.path + [E.name]):
                path.append(x.a[1][0][0])
                x = x.a[1][0][1]
            n += 1
            ctx.check(path == E.path + [E.name], rule, k + ':delivered', 'a %s is delivered as %s, not under its own name' % (k, '.'.join(path)), loc)
            inst = x
            if kind == 'enum':
                inst = x.a[0] if x.op == 'mcall' and x.a[1] == 'get' else None
            c = cls_of(P, E, inst) if inst is not None else None
            if c is None:
                ctx.undecided(rule, '%s: message %s' % (k, show(x)[:60]))
                continue
            ctx.check(c == o, rule, k + ':decoder', 'a %s is decoded by %s' % (k, c), loc)
            dec = [e for e in I.events if e.kind == 'call' and e.name == 'decode' and e.recv is not None and ts_norm(e.recv) is inst]
            ctx.check(len(dec) == 1 and len(dec[0].args) == 1 and show(dec[0].args[0]) == 'buffer', rule, k + ':body', 'a %s is decoded %d times from the body' % (k, len(dec)), loc)
            h = dict(mem['header'].a[1]) if mem['header'].op == 'slit' else {}
            ctx.check(h.get('id') is Int(E.id) and h.get('sequence') is seq and h.get('timestamp') is ts, rule, k + ':header', 'a %s is delivered with header %s' % (k, {a: show(b) for a, b in h.items()}), loc)
            if 'getRef' in mem and mem['getRef'].op in ('closure', 'fnref'):
                g = ts_norm(I.apply(mem['getRef'], [], st.fork(), None))
                g = decide(g, succeed)
                ctx.check(g is x, rule, k + ':ref', 'the reference to a %s handed out with a message is %s' % (k, show(g)[:60]), loc)
            if dec:
                errs = ts_norm(dec[0].val) if dec[0].val is not None else None
                w = decide(val, lambda a: True if a.op == 'is' and a.a[0] == 'Error' else None)
                ctx.check(fails(w, (errs,)), rule, k + ':error', 'a %s that cannot be decoded is not reported as an error' % k, loc)
        lst = P.items.get('::'.join(['crate'] + E.path + ['IAvailableMessages']))
        mm = {m['n']: m['ty'] for m in lst[0]['members']} if lst else {}
        t = norm_ty(P, mm[E.name], lst[1], None) if E.name in mm else None
        want = '::'.join(['crate'] + E.path + ['I' + E.name]) if kind == 'enum' else o
        ctx.check(t == want, rule, k + ':listed', 'a %s is listed as message with type %s' % (k, t), d.loc('get_messages_list'))
    for i in (0, 1, 7, 999999):
        if i in {E.id for E, _ in entities(d)}:
            continue
        I, val, st = read(i)
        ctx.check(val.op == 'never' or fails(decide(val, succeed), ()), rule, 'unknown', 'an id no message has is decoded as %s' % show(val)[:60], loc)
    ctx.count('messages delivered (TypeScript)', n)
    ctx.floor('messages delivered (TypeScript)', n, 40)
    return sig


def fns_of2(P, o, name):
    return [f for f in P.all_fns if f.name == name and f.owner == o and f.node.get('body')]


def G03(ctx):
    sigs = {}
    for lang, f in (('rs', rs_messages), ('ts', ts_messages)):
        d = derive(ctx, lang)
        if d is not None:
            sigs[lang] = f(ctx, d)
            if sigs[lang] is not None:
                ctx.check(sigs[lang].op == 'int' and sigs[lang].a[0] == gen.SIG, 'signature', lang, 'the reader expects signature %s, the renderer was given %d' % (show(sigs[lang])[:40], gen.SIG), d.loc('buffer'))
    # every place that makes a renderer gives it the same signature
    P = subject.cli()
    n, vals = 0, {}
    for f in P.all_fns:
        for c in walk(f.node):
            if c.get('k') != 'call' or c['f'].get('k') != 'path' or not c['f']['p'].endswith('::new'):
                continue
            r = P.resolve(f.mod, c['f']['p'].split('::'))
            if not r or not r.endswith(('::render::rust::RustRender::new', '::render::typescript::TypescriptRender::new')) or 'workflow_render' in r or len(c['a']) != 2:
                continue
            n += 1
            v = const_int(P, f.mod, c['a'][1])
            if v is None:
                ctx.undecided('signature', '%s: signature of a renderer' % f.qual())
            else:
                vals.setdefault(v, []).append((f, c))
    ctx.count('places that make a protocol renderer', n)
    ctx.floor('places that make a protocol renderer', n, 4)
    if vals:
        most = max(sorted(vals), key=lambda v: len(vals[v]))
        for v, fs in vals.items():
            for f, c in fs:
                ctx.check(v == most, 'signature', f.qual() + ':' + c['f']['p'], '%s renders the protocol with signature %d, elsewhere it is %d' % (f.qual(), v, most), f.loc())
