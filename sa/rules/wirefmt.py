"""Wire format: value codecs, field records, message header; per language and across languages."""
from .. import layout as L
from ..wire import Lin

GEN = ['T:struct', 'T:enum', 'Vec<T>:struct', 'Vec<T>:enum']


def use(ctx, rule, key, r):
    """record a failed extraction; True when there is something to compare"""
    if r.bad:
        ctx.bad(rule, key, r.bad, r.loc)
        return False
    if r.none:
        if r.none in ('no encoder', 'no decoder'):
            ctx.bad(rule, key, r.none + ' for ' + key)
        else:
            ctx.undecided(rule, '%s: %s' % (key, r.none))
        return False
    return True


def rust_values(ctx):
    n = 0
    for t in L.TYPES + GEN:
        e, d = L.rs_enc(t), L.rs_dec(t)
        ctx.count('Rust value codecs (encoder and decoder)')
        a, b = use(ctx, 'rust-encode', t, e), use(ctx, 'rust-decode', t, d)
        if a and b:
            n += 1
            ctx.check(e.shape == d.shape, 'rust-value', t, '%s is written as [%s] but read as [%s]' % (t, e.shape, d.shape), d.loc)
        if a:
            x = e.extra
            if x['plain'] is not None:
                ctx.check(x['plain'] == e.shape, 'rust-plain', t, 'without a field id %s is written as [%s], with one as [%s]' % (t, x['plain'], e.shape), e.loc)
            ctx.check(x['idok'], 'rust-field-id', t, 'the record of a %s field does not start with the id of the field' % t, e.loc)
            if x['size'] is None:
                ctx.undecided('rust-size', t)
            else:
                ctx.check(x['size'], 'rust-size', t, 'the announced size of a %s field is not the length of its bytes' % t, e.loc)
    return n


def records(ctx, lang):
    """field records: the written layout is the one the reader cuts"""
    rd = L.storage_reader(lang)
    if not use(ctx, lang + '-record-reader', 'reader', rd):
        if rd.none and rd.none.startswith('no loop'):
            ctx.undecided(lang + '-record-reader', rd.none)
        return None
    x = rd.extra
    rule = lang + '-record'
    ids = set()
    rk, roff = x['rank']
    for r, m in sorted(x['ranks'].items()):
        ctx.count('field record size classes read (%s)' % lang)
        ik, ioff = m['id']
        ids.add(ik)
        sk, soff = m['size']
        iw, rw, sw = L.kind_width(ik), L.kind_width(rk), L.kind_width(sk)
        loc = rd.loc
        ctx.check(ioff.key() == Lin().key(), rule, 'id-offset:%d' % r, 'the field id is read at offset %s of the record' % ioff, loc)
        pos_ok = roff.const() is not None and soff.const() == roff.const() + rw
        ctx.check(pos_ok, rule, 'size-offset:%d' % r, 'size class %d: the size is read at offset %s, the size class byte at %s' % (r, soff, roff), loc)
        ctx.check(sw is not None and sw * 8 == r, rule, 'size-width:%d' % r, 'size class %d is followed by a %s size' % (r, sk), loc)
        if pos_ok and sw:
            ctx.check(m['body'].key() == Lin({}, soff.const() + sw).key(), rule, 'body-offset:%d' % r, 'size class %d: the body starts at %s although the size ends at %d' % (r, m['body'], soff.const() + sw), loc)
            ctx.check(m['step'].key() == Lin({m['L']: 1}, soff.const() + sw).key(), rule, 'next:%d' % r, 'size class %d: the next record is expected at %s' % (r, m['step']), loc)
    ctx.check(len(ids) == 1, rule, 'ids', 'the kind of the field id depends on the size class: %s' % sorted(ids), rd.loc)
    return dict(id=sorted(ids)[0], rank=(rk, roff.const()), ranks={r: m['size'][0] for r, m in x['ranks'].items()}, loc=rd.loc)


def match_record(ctx, rule, key, rec, rd, loc):
    """a written record header against what a reader expects"""
    if rd is None:
        return
    ctx.check(rec['idkind'] == rd['id'], rule, key + ':id', 'field ids are written as %s and read as %s' % (rec['idkind'], rd['id']), rd['loc'])
    rank = L.uncast(rec['rank'])
    ctx.check(rec['rankkind'] == rd['rank'][0] and L.kind_width(rec['idkind']) == rd['rank'][1], rule, key + ':class',
              'the size class is written as %s after the id and read as %s at offset %s' % (rec['rankkind'], rd['rank'][0], rd['rank'][1]), loc)
    if rank.op == 'int':
        r = rank.a[0]
        if r not in rd['ranks']:
            ctx.bad(rule, key + ':rank', 'size class %d is written but not understood by the reader' % r, loc)
        else:
            ctx.check(rd['ranks'][r] == rec['sizekind'], rule, key + ':size', 'size class %d announces a %s size but %s is written' % (r, rd['ranks'][r], rec['sizekind']), loc)
    else:
        ctx.undecided(rule, key + ': size class is not a constant')


def W01(ctx):
    n = rust_values(ctx)
    ctx.floor('Rust value codecs compared', n, 20)
    rd = records(ctx, 'rs')
    k = 0
    for t in L.TYPES + GEN:
        e = L.rs_enc(t)
        if e.shape:
            k += 1
            for rec in e.extra['recs']:
                match_record(ctx, 'rust-record-match', t, rec, rd, e.loc)
    ctx.count('Rust field writers matched with the field reader', k)
    o = L.rs_option()
    if use(ctx, 'rust-optional', 'Option', o):
        for what, ok, loc, rec in o.extra['items']:
            ctx.check(ok, 'rust-optional', what.replace(' ', '-'), 'not established: ' + what, loc)
            if rec:
                match_record(ctx, 'rust-record-match', 'absent', rec, rd, loc)
        # a present value must differ from the absent one, which is an empty body
        if all(ok for what, ok, _, _ in o.extra['items'] if what in ('an absent value is written as an empty body', 'an empty body is read as an absent value')):
            loc = [l for w, _, l, _ in o.extra['items'] if w == 'an empty body is read as an absent value'][0]
            for t in L.TYPES + GEN:
                sh = L.rs_enc(t).shape
                if not sh:
                    continue
                may = 'list' if sh.startswith('each ') else 'text' if sh == 'utf8(v)' else 'structure without fields' if t == 'T:struct' else None
                ctx.check(may is None, 'rust-optional-empty', may or t, 'an optional field holding an empty %s is read back as absent' % may, loc)


def W02(ctx):
    n = 0
    for t in L.TYPES:
        nm = L.TSNAME[t]
        e, d = L.ts_enc(nm), L.ts_dec(nm)
        r = L.rs_enc(t)
        ctx.count('TypeScript value codecs (encoder and decoder)')
        a, b = use(ctx, 'ts-encode', nm, e), use(ctx, 'ts-decode', nm, d)
        if a and b:
            n += 1
            ctx.check(e.shape == d.shape, 'ts-value', nm, '%s is written as [%s] but read as [%s]' % (nm, e.shape, d.shape), d.loc)
        if a and r.shape:
            ctx.check(e.shape == r.shape, 'cross-value', nm, '%s is [%s] in TypeScript and [%s] in Rust' % (nm, e.shape, r.shape), e.loc)
        elif b and r.shape:
            ctx.check(d.shape == r.shape, 'cross-value', nm, '%s is read as [%s] in TypeScript and written as [%s] by Rust' % (nm, d.shape, r.shape), d.loc)
        sz = L.ts_size(nm)
        if a and sz is not None:
            import re
            m = re.match(r'^([uif])(\d+)(le|be)?\(', e.shape)
            if m:
                ctx.check(int(m.group(2)) == sz * 8, 'ts-size', nm, 'the size announced for %s is %d bytes, its encoding takes %d' % (nm, sz, int(m.group(2)) // 8), e.loc)
    ctx.floor('TypeScript value codecs compared', n, 20)
    rd = records(ctx, 'ts')
    rr = L.storage_reader('rs')
    w = L.ts_record()
    if use(ctx, 'ts-record-writer', 'writer', w):
        rs = None
        if rr.shape:
            rs = dict(id=next(iter(rr.extra['ranks'].values()))['id'][0], rank=(rr.extra['rank'][0], rr.extra['rank'][1].const()),
                      ranks={r: m['size'][0] for r, m in rr.extra['ranks'].items()}, loc=rr.loc)
        for nm, rec in sorted(w.extra.items()):
            ctx.count('field record size classes written (ts)')
            match_record(ctx, 'ts-record-match', nm, rec, rd, w.loc)
            match_record(ctx, 'cross-record', 'ts-to-rust:' + nm, rec, rs, w.loc)
            ctx.check(rec['idok'], 'ts-record', nm + ':id', 'the record does not start with the field id', w.loc)
            ctx.check(rec['valok'], 'ts-record', nm + ':value', 'the record does not end with exactly the value bytes', w.loc)
            ctx.check(rec['sizeok'], 'ts-record', nm + ':size', 'the record does not carry the announced size', w.loc)
    if rd:
        for t in L.TYPES:
            e = L.rs_enc(t)
            if e.shape:
                for rec in e.extra['recs']:
                    match_record(ctx, 'cross-record', 'rust-to-ts:' + t, rec, rd, e.loc)
    arrays(ctx)


def arrays(ctx):
    """TypeScript sequences of structs / enums: same item layout as Rust"""
    from ..codec import norm, enc_shape, goods, is_error, success
    from ..terms import mk, subst
    c = L.ts_class('Convertor')
    for m, rsname in (('encodeSelfArray', 'Vec<T>:struct'),):
        fn = c and c.get(m)
        if not fn:
            continue
        try:
            v = mk('sym', 'v')
            I, r = L.ts_run(fn, [v])
            for cc, g in goods(success(r)):
                n = norm(g, I)
                s = n and enc_shape(n, v, I)
                if s and s.startswith('each'):
                    want = L.rs_enc(rsname).shape
                    ctx.check(s == want, 'cross-value', 'array-of-structs', 'a sequence of structs is [%s] in TypeScript and [%s] in Rust' % (s, want), fn.loc())
                elif g.op not in ('cat', 'uninit') and n != []:
                    ctx.undecided('cross-value', 'array of structs: %s' % (s or L.show(g)[:100]))
        except L.Bad as e:
            ctx.bad('cross-value', 'array-of-structs', str(e), fn.loc())


    fn = c and c.get('decodeSelfArray')
    if fn:
        from ..codec import Stream, loop_shape, find_loop
        try:
            v = mk('sym', 'v')
            I, r = L.ts_run(fn, [v])
            done = False
            for e in I.events:
                if e.kind == 'call' and e.name == 'decode' and e.args and e.args[0].op == 'slice' and e.loops:
                    uid = find_loop(I, e.args[0])
                    s = uid and Stream(I, uid, e.args[0])
                    sh = s and s.mode and loop_shape(s, e.args[0], v, I)
                    if sh:
                        done = True
                        want = L.rs_enc('Vec<T>:struct').shape
                        ctx.check(sh == want, 'cross-value', 'array-of-structs-read', 'a sequence of structs is read as [%s] in TypeScript and written as [%s] in Rust' % (sh, want), fn.loc())
            if not done:
                ctx.undecided('cross-value', 'reader of an array of structs')
        except L.Bad as e:
            ctx.bad('cross-value', 'array-of-structs-read', str(e), fn.loc())


def W03(ctx):
    """message header: writer and reader of each language, and both languages"""
    forms = {}
    for lang in ('rs', 'ts'):
        w, r = L.header_writer(lang), L.header_reader(lang)
        a, b = use(ctx, 'header-writer', lang, w), use(ctx, 'header-reader', lang, r)
        off, lay = 0, {}
        if a:
            for k, what in w.extra['parts']:
                ctx.count('header fields written (%s)' % lang)
                if k == 'body':
                    lay['body'] = ('bytes', off)
                    continue
                if what.startswith('?'):
                    ctx.undecided('header-writer', '%s: %s' % (lang, what))
                    what = what[:20]
                lay[what] = (k, off)
                off += L.kind_width(k) or 0
            for need in ('id', 'signature', 'sequence', 'len', 'body'):
                if not any(q.startswith('?') for q in lay):
                    ctx.check(need in lay, 'header-writer', '%s:%s' % (lang, need), 'a packed message does not carry its %s (%s)' % (need, sorted(lay)), w.loc)
            forms[lang] = lay
        if b:
            for what, (k, o) in sorted(r.extra['fields'].items()):
                ctx.count('header fields read (%s)' % lang)
                if o is None:
                    ctx.undecided('header-reader', '%s.%s: offset not constant' % (lang, what))
                    continue
                name = 'len' if what.startswith('len') else 'ts' if what.startswith('ts') or what == 'timestamp' else what
                for wl in [l for l in (lang, 'ts' if lang == 'rs' else 'rs') if l in forms or l == lang]:
                    pass
                if a and name in lay:
                    ctx.check(lay[name] == (k, o), 'header', '%s:%s' % (lang, what), 'header field %s is written as %s at %d but read as %s at %d' % ((what,) + lay[name] + (k, o)), r.loc)
                elif a and not any(q.startswith('?') for q in lay):
                    ctx.bad('header', '%s:%s' % (lang, what), 'header field %s is read but not written' % what, r.loc)
    if len(forms) == 2:
        for k in sorted(set(forms['rs']) | set(forms['ts'])):
            ctx.check(forms['rs'].get(k) == forms['ts'].get(k), 'cross-header', k, 'header field %s is %s in Rust and %s in TypeScript' % (k, forms['rs'].get(k), forms['ts'].get(k)))
    body_cut(ctx)


def body_cut(ctx):
    pass
