"""H04: the hashes both sides compare are computed from the same inputs."""
from .. import subject, proj, gen
from ..interp import Interp
from ..schema import Stuck
from ..terms import *
from ..worlds import norm
from .producer import side, hashes, both, fulfilled, message_sends, struct_named, absent, present, LNAME, PROTO_HASH, FLOW_HASH, HASH_REQUEST
from . import consumer

OPEN = ('open', 'read', 'read_to_string')


def H04(ctx):
    digest(ctx)
    stores(ctx)
    protocol_text(ctx)
    for lang in ('rs', 'ts'):
        presented(ctx, lang)
        compared(ctx, lang)


# ---------------------------------------------------------------- where hashes come from
def digest(ctx):
    """the digest covers every byte that is read, up to the end"""
    P = subject.cli()
    n = 0
    for fn in P.all_fns:
        if not mentions_digest(fn.node.get('body')):
            continue
        n += 1
        I = Interp(P)
        value = norm(I.run_fn(fn)[0])
        ups = [e for e in I.events if e.kind == 'call' and e.name.split('::')[-1] in ('update', 'digest', 'chain_update', 'copy')]
        if not ups:
            ctx.undecided('digest', '%s: what is digested' % fn.qual())
            continue
        for e in ups:
            one_update(ctx, fn, I, e)
        spelled(ctx, fn, value)
    # functions that open a file and digest it: all of it, not its name
    for fn in {(f.file, f.node.get('l')): f for f in P.all_fns if f.file.endswith('.rs')}.values():
        if not any(x.get('k') in ('call', 'mcall') and (str((x.get('f') or {}).get('p', '')) if isinstance(x.get('f'), dict) else '').split('::')[-1] in ('open', 'read') for x in walk(fn.node.get('body'))):
            continue
        I = Interp(P)
        value = norm(I.run_fn(fn)[0])
        ups = [e for e in I.events if e.kind == 'call' and e.name.split('::')[-1] in ('update', 'digest', 'chain_update', 'copy')]
        if not ups:
            continue
        n += 1
        for e in ups:
            one_update(ctx, fn, I, e)
            src = [x for x in subterms(norm(e.args[-1])) if x.op in ('call', 'mcall')]
            opened = [x for x in src if x.op == 'call' and (x.a[0].endswith('File::open') or x.a[0].split('::')[-1] in ('read', 'read_to_string') and 'fs' in x.a[0])]
            rd = [x for x in src if x.op == 'mcall' and x.a[1] in READS]
            if not opened:
                ctx.check(not rd, 'digest', 'elsewhere', '%s: what is digested, %s, is not read from the file that was opened' % (fn.qual(), show(norm(e.args[-1]))[:100]), e.where())
            for r in rd:
                for x in subterms(r.a[0] if not isinstance(r.a[0], str) else r.a[1]):
                    if x.op in ('call', 'mcall', 'take', 'skip'):
                        nm = x.op if x.op in ('take', 'skip') else str(x.a[0] if x.op == 'call' else x.a[1]).split('::')[-1]
                        if nm in ('take', 'skip', 'seek', 'lines', 'chain', 'step_by'):
                            ctx.bad('digest', 'limited', '%s: the hash covers only %s(..) of the file' % (fn.qual(), nm), e.where())
        spelled(ctx, fn, value)
    ctx.count('functions that compute a digest', n)
    ctx.floor('functions that compute a digest', n, 1)


READS = ('read', 'read_to_string', 'read_to_end')


def one_update(ctx, fn, I, e):
    a = norm(e.args[-1]) if e.args else UNIT
    whole = [x for x in subterms(a) if x.op in ('call', 'mcall') and str(x.a[0] if x.op == 'call' else x.a[1]).split('::')[-1] in READS]
    if a.op == 'index' and a.a[1].op == 'range':
        r = a.a[1]
        cnt = norm(r.a[1])
        if r.a[1].op == 'nohi' and (r.a[0].op == 'nolo' or r.a[0] is Int(0)):
            ctx.ok('digest', 'whole')
            return
        reads = counted(cnt, I)
        if not reads:
            ctx.bad('digest', 'part', 'the hash of a file covers only %s of what is read' % show(r)[:60], e.where())
            return
        ctx.check(r.a[0].op == 'nolo' or r.a[0] is Int(0), 'digest', 'part', 'the hash of a file covers only the part %s of what was read' % show(r)[:100], e.where())
        zero = (mk('==', cnt, Int(0)), mk('==', Int(0), cnt), norm(mk('==', cnt, Int(0))))
        some = [norm(Not(z)) for z in zero] + [mk('<', Int(0), cnt), norm(mk('<', Int(0), cnt)), norm(mk('<=', Int(1), cnt))]
        for c in [c for x in e.pc for c in conj_(norm(x))]:
            if not any(x is cnt or x in reads for x in subterms(c)):
                continue
            fine = c.op == 'is' and c.a[0] == 'Ok' or c.op == 'is' and 'Ok' in c.a or any(c is x for x in some)
            ctx.check(fine, 'digest', 'skipped', 'bytes read from a file are digested only if %s' % show(c)[:100], e.where())
        if cnt.op == 'lv':
            return
        for li in I.loopinfo.values():
            for b in li.get('brk') or []:
                b = norm(b)
                if not any(x in reads for x in subterms(b)):
                    continue
                ctx.check(any(c is z for c in conj_(b) for z in zero), 'digest', 'early', 'reading a file for its hash ends as soon as %s' % show(b)[-100:], e.where())
    elif whole or a.op in ('sym', 'param'):
        ctx.ok('digest', 'whole')
    else:
        ctx.undecided('digest', '%s: what is digested is %s' % (fn.qual(), show(a)[:80]))


def counted(cnt, I):
    """the reads a count of bytes comes from"""
    if cnt.op == 'proj' and cnt.a[0] == 'Ok' and cnt.a[2].op == 'mcall' and cnt.a[2].a[1] == 'read':
        return [cnt.a[2]]
    if cnt.op == 'lv':
        out = []
        li = I.loopinfo.get(cnt.a[0]) or {}
        nx = [norm(v) for k, v in (li.get('next') or {}).items() if k == cnt.a[1]]
        for v in [norm(cnt.a[2])] + nx:
            while v.op == 'ite':
                v = v.a[1]
            r = counted(v, I) if v is not cnt else []
            if not r and v is not cnt:
                return []
            out += r
        return out
    return []


def spelled(ctx, fn, value):
    """all of the digest is written out"""
    for x in subterms(value):
        if x.op == 'mcall' and x.a[1] == 'encode' or x.op == 'call' and x.a[0].split('::')[-1] == 'encode':
            arg = norm(x.a[-1] if not isinstance(x.a[-1], tuple) else x.a[-1][-1])
            while arg.op == 'uid':
                arg = norm(x.a[-2])
            ctx.check(arg.op not in ('index', 'take', 'skip', 'str', 'int'), 'digest', 'spelled', '%s: only the part %s of the digest becomes the hash' % (fn.qual(), show(arg)[-80:]), fn.loc())


def conj_(c):
    if c.op == 'and':
        out = []
        for x in (c.a[0] if isinstance(c.a[0], tuple) else c.a):
            out += conj_(x)
        return out
    return [c]


def mentions_digest(n):
    if isinstance(n, dict):
        if n.get('k') == 'path' and 'SHA' in str(n.get('p', '')).upper():
            return True
        return any(mentions_digest(v) for v in n.values())
    if isinstance(n, list):
        return any(mentions_digest(v) for v in n)
    return False


def stores(ctx):
    """the hash of a model is the digest of the file the model is parsed from"""
    P = subject.cli()
    makers = {}
    n = 0
    for fn in {(f.file, f.node.get('l')): f for f in P.all_fns}.values():
        if not calls_store(fn.node.get('body')) or fn.name == 'new' and fn.owner and fn.owner.endswith('Store'):
            continue
        I = Interp(P)
        I.run_fn(fn)
        src = None
        for e in I.events:
            if e.kind == 'lit' and e.name.split('::')[-1] == 'Parser':
                src = dict(e.val.a[1]).get('src')
        if src is None:
            src = mk('field', mk('sym', 'self'), 'src')
        for e in I.events:
            if e.kind != 'lit' or e.name.split('::')[-1] != 'Store':
                continue
            h = dict(e.val.a[1]).get('hash')
            if h is None:
                continue
            n += 1
            which = 'workflow' if '::workflow::' in e.name else 'protocol'
            h = norm(h)
            made = [x for x in subterms(h) if x.op == 'mcall' and x.a[1] in ('finish', 'encode') or x.op == 'call' and x.a[0].split('::')[-1] in ('encode', 'digest')]
            if h.op == 'str':
                ctx.bad('source', which, 'the hash of the %s is the constant %s' % (which, show(h)), e.where())
                continue
            if not made:
                ctx.undecided('source', '%s: %s' % (which, show(h)[:100]))
                continue
            files = [norm(x.args[0]) for x in I.events if x.kind == 'call' and x.name in ('File::open', 'fs::read') and x.args]
            if not files:
                ctx.undecided('source', '%s: the file' % which)
                continue
            ctx.check(all(x is src for x in files), 'source', which, 'the hash of the %s is that of the file %s, the model is read from %s' % (which, show(files[0])[:60], show(src)[:60]), e.where())
            makers[which] = e
    ctx.count('places that give a model its hash', n)
    ctx.floor('places that give a model its hash', n, 2)
    # the model gives out what it was given
    for fn in {(f.file, f.node.get('l')): f for f in P.all_fns if f.name == 'get_hash'}.values():
        I = Interp(P)
        v = norm(I.run_fn(fn)[0])
        ctx.check(v is mk('field', mk('sym', 'self'), 'hash'), 'given', fn.file.split('/cli/src/')[-1], '%s gives %s instead of the hash of the model' % (fn.qual(), show(v)[:60]), fn.loc())
        ctx.count('methods that give out a hash')
    for fn in {(f.file, f.node.get('l')): f for f in P.all_fns if f.owner and f.owner.endswith('Store') and f.node.get('self')}.values():
        for s in walk(fn.node.get('body')):
            if s.get('k') == 'assign' and isinstance(s.get('a'), dict) and s['a'].get('k') == 'field' and s['a'].get('n') == 'hash':
                ctx.bad('given', '%s:set' % fn.qual(), '%s changes the hash of the model' % fn.qual(), fn.loc())


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def calls_store(n):
    for x in walk(n):
        if x.get('k') == 'call' and isinstance(x.get('f'), dict) and str(x['f'].get('p', '')).endswith('Store::new'):
            return True
    return False


def protocol_text(ctx):
    for lang in ('rs', 'ts'):
        d = gen.derived(lang)
        if d.errors:
            ctx.undecided('protocol', '%s: %s' % (lang, d.errors[0]))
            continue
        fs = [f for f in d.prog.all_fns if f.name == 'hash' and not f.owner]
        if len(fs) != 1:
            ctx.undecided('protocol', '%s: %d functions hash()' % (lang, len(fs)))
            continue
        v = norm(Interp(d.prog).run_fn(fs[0])[0])
        ctx.check(v is Str(d.model.store.hash), 'protocol', lang, 'hash() of the generated %s protocol gives %s instead of the hash of the model' % (LNAME[lang], show(v)[:60]), fs[0].loc())


# ---------------------------------------------------------------- where they are compared
def presented(ctx, lang):
    """what consumers present"""
    N = LNAME[lang] + ' consumer'
    s = consumer.rust() if lang == 'rs' else consumer.ts()
    ctx.derived(s.p)
    if lang == 'rs':
        I = s.I
    else:
        fn = s.entries().get('connected')
        if fn is None:
            ctx.missing('what the TypeScript consumer does once the client is connected')
            return
        I = s.run(fn)
    found = {}
    for e in I.events:
        for a in list(e.args) + ([e.recv] if e.recv is not None else []):
            for x in subterms(norm(a)):
                if x.op in ('slit', 'new') and struct_named(x)[0] == HASH_REQUEST:
                    found[x] = (struct_named(x)[1], e)
    if not found:
        ctx.bad('presented', lang, '%s: the hashes are never presented' % N)
        return
    for x, (fs, e) in found.items():
        for f, want in (('protocol', PROTO_HASH), ('workflow', FLOW_HASH)):
            v = fs.get(f)
            ctx.count('hashes presented')
            if v is None or norm(v).op != 'str':
                ctx.undecided('presented', '%s: %s is %s' % (lang, f, show(v)[:60] if v is not None else '-'))
                continue
            ctx.check(norm(v) is Str(want), 'presented', '%s:%s' % (lang, f), '%s: as hash of the %s is presented %s' % (N, f, {PROTO_HASH: 'the hash of the protocol', FLOW_HASH: 'the hash of the workflow'}.get(norm(v).a[0], show(v)[:60])), e.where())


def compared(ctx, lang):
    """what producers make of them"""
    s = side(lang)
    ctx.derived(s.p)
    N = LNAME[lang] + ' producer'
    for p, f in ((1, 1), (0, 1), (1, 0), (0, 0)):
        w = s.world(HASH_REQUEST, both(fulfilled, hashes(s, p, f)))
        label = '%s:%s' % (lang, {(1, 1): 'match', (0, 1): 'protocol', (1, 0): 'workflow', (0, 0): 'both'}[p, f])
        ctx.count('hashes compared (cases)')
        ans = [(x, struct_named(x[1])[1]) for x in message_sends(s, w, s.I.events) if struct_named(x[1])[0] == 'InternalServiceGroup.HashResponse']
        if not ctx.check(len(ans) == 1, 'compared', label, '%s: the hashes of a consumer (%s) are answered %d times instead of once' % (N, label.split(':')[1], len(ans)), ans[0][0][0].where() if ans else None):
            continue
        err = ans[0][1].get('error')
        if err is None or not (absent(err) or present(err)):
            ctx.undecided('compared', '%s: error of the answer: %s' % (label, show(err)[:100] if err is not None else '-'))
            continue
        ctx.check(absent(err) == bool(p and f), 'compared', label, '%s: a consumer that presents %s is answered %s an error' % (N, 'the hashes of this protocol and workflow' if p and f else 'another hash (%s)' % label.split(':')[1], 'without' if absent(err) else 'with'), ans[0][0][0].where())
