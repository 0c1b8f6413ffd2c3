"""F01: files of users are not overwritten; D01: what is written depends on the input only."""
import posixpath, re
from .. import subject, wf, gen
from ..interp import Interp
from ..schema import Stuck
from ..terms import *
from ..worlds import norm
from ..wf import ROOT

LNAME = {'rs': 'Rust', 'ts': 'TypeScript'}
# where users write their code: (folders with one file per handler, single files, index files the generator keeps)
USER = {('producer', 'rs'): (('events', 'beacons', 'responses'), ('context.rs',), 'mod.rs'),
        ('producer', 'ts'): (('events', 'beacons', 'responses'), ('context.ts',), 'index.ts'),
        ('consumer', 'rs'): (('broadcasts', 'events'), ('context.rs',), 'mod.rs'),
        ('consumer', 'ts'): ((), (), 'index.ts')}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def functions(P):
    return list({(f.file, f.node.get('l')): f for f in P.all_fns}.values())


def rel(path):
    return path[len(ROOT) + 1:] if isinstance(path, str) and path.startswith(ROOT + '/') else str(path)


def is_user(side, lang, path):
    dirs, single, index = USER[side, lang]
    p = rel(path)
    d, b = posixpath.split(p)
    return d in dirs and b != index or p in single


def models():
    yield 'events declared', wf.WorkflowModel()
    m = wf.WorkflowModel()
    m.events[:] = [e for e in m.events if e.reference.a[0] not in ('connected', 'disconnected')]
    yield 'default events', m


def F01(ctx):
    for side, lang in USER:
        for label, m in models():
            user_files(ctx, side, lang, label, m)
    helper(ctx)
    others(ctx)


def user_files(ctx, side, lang, label, m):
    N = '%s %s' % (LNAME[lang], side)
    key = lambda p: '%s-%s:%s' % (side, lang, rel(p))
    first, _ = wf.emit(side, lang, (), m)
    users = [p for p in first.files if is_user(side, lang, p)]
    dirs, single, _ = USER[side, lang]
    for d in list(dirs) + list(single):
        if not any(rel(p) == d or rel(p).startswith(d + '/') for p in users) and not any(is_user(side, lang, p) and (rel(p) == d or rel(p).startswith(d + '/')) for p, _, _ in first.unsure if isinstance(p, str)):
            ctx.missing('%s: files of users in %s' % (N, d))
    sets = [('all', set(first.files) | {ROOT})]
    alone = set()
    for (p, t, over, fn), asked in zip(first.order, first.asked):
        if p in users and any(q != p and q in first.files for q in asked):
            alone.add(p)
    sets += [(p, {p}) for p in sorted(alone)]
    for what, ex in sets:
        again, _ = wf.emit(side, lang, ex, m)
        watched = [p for p in users if p in ex]
        for p in watched:
            ctx.count('files of users')
            w = [x for x in again.order if x[0] == p and x[2] is not False]
            ctx.check(not w, 'overwritten', key(p), '%s: %s, which users fill in, is written although it exists' % (N, rel(p)), w[0][3].loc() if w else None)
        for q, call, fn in again.removed:
            hit = [p for p in watched if isinstance(q, str) and (p == q or p.startswith(q.rstrip('/') + '/'))]
            ctx.check(not hit, 'removed', key(hit[0]) if hit else 'none', '%s: %s(%s) takes away %s, which users fill in' % (N, call, rel(q), rel(hit[0]) if hit else ''), fn.loc())
        for q, e, fn in again.unsure:
            if not isinstance(q, str) or not is_user(side, lang, q):
                continue
            inner = [x for c in e.pc for x in subterms(norm(c)) if x.op in ('call', 'mcall') and str(x.a[1] if x.op == 'mcall' else x.a[0]).split('::')[-1] in
                     ('read_to_string', 'metadata', 'len', 'modified', 'open', 'read', 'symlink_metadata', 'permissions', 'contains', 'is_symlink', 'read_dir')]
            if inner:
                ctx.bad('overwritten', key(q), '%s: %s, which users fill in, is written although it exists, depending on %s' % (N, rel(q), show(inner[0])[:100]), e.where())
            else:
                ctx.undecided('overwritten', '%s: condition of writing %s' % (N, rel(q)))
    ctx.count('generated files', len(first.files))
    for s in first.stuck:
        if 'parse of' not in s:
            ctx.undecided('derive', s)


def helper(ctx):
    """a write that must not overwrite leaves an existing file alone"""
    P = subject.cli()
    for fn in [f for f in functions(P) if f.name == 'write' and not f.owner]:
        I = Interp(P)
        I.run_fn(fn)
        for e in I.events:
            if e.kind != 'call' or not (e.name.split('::')[-1] in wf.DESTROY or e.name.split('::')[-1] == 'open'):
                continue
            ctx.count('places that change files')
            pc = under(And(*[norm(c) for c in e.pc]), lambda x: TRUE if x.op == 'mcall' and x.a[1] == 'exists' else FALSE if x.op == 'sym' and x.a[0] == 'overwrite' else None)
            ctx.check(pc is FALSE, 'helper', fn.qual(), '%s: %s also when the file exists and must not be overwritten' % (fn.qual(), e.name), e.where())


def under(t, facts):
    def f(x):
        y = facts(x)
        if y is not None:
            return y
        y = rebuild(x.op, x.a)
        if y is not x:
            z = facts(y)
            return y if z is None else z
        return x
    return rewrite(t, f, {})


def others(ctx):
    """calls that take files away outside the generators of projects"""
    P = subject.cli()
    roots = [f for f in functions(P) if f.name == 'action' and f.owner and 'Files' in f.owner] + [f for f in functions(P) if '/workflow/render/render.rs' in f.file and not f.owner]
    roots += [f for f in functions(P) if f.owner and 'ArgsOptionFiles' in f.owner and f.name == 'new']
    n = 0
    for fn in roots:
        I = Interp(P, opaque=lambda f: f.name in ('parse',) or f.name == 'render' and f is not fn or f.name == 'write' and not f.owner)
        I.run_fn(fn)
        n += 1
        for e in I.events:
            if e.kind != 'call' or not e.args:
                continue
            last = e.name.split('::')[-1]
            if not (last in wf.DESTROY or last == 'open' and wf.opens_for_writing(e) or e.name.endswith('File::create') or e.name.endswith('fs::write')):
                continue
            a = norm(e.args[0])
            fields = {x.a[1] for x in subterms(a) if x.op == 'field'} | {x.a[0] for x in subterms(a) if x.op == 'sym'}
            proj_ = [f for f in fields if 'consumer' in str(f) or 'producer' in str(f)]
            ctx.count('places that change files')
            ctx.check(not proj_, 'removed', '%s:%s' % (fn.qual(), last), '%s: %s(%s) takes away a folder users have their code in' % (fn.qual(), last, show(a)[:60]), e.where())
    ctx.floor('places files are handled from', n, 3)


# ---------------------------------------------------------------- D01
ND = ('Instant::now', 'SystemTime::now', 'Local::now', 'Utc::now', 'rand::random', 'thread_rng', 'rand::rng', 'new_v4', 'now_v1', 'process::id', 'thread::current', 'env::var', 'env::vars', 'env::var_os', 'env::temp_dir',
      'RandomState::new', 'read_dir', 'available_parallelism', 'modified', 'created', 'accessed', 'as_ptr', 'UNIX_EPOCH', 'hostname', 'getrandom')
TIME = ('elapsed', 'as_millis', 'as_secs', 'as_micros', 'as_nanos', 'as_secs_f64', 'as_secs_f32', 'duration_since', 'subsec_millis', 'to_string', 'now')
ITER = ('iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'intersection', 'union', 'difference', 'symmetric_difference')
UNORDERED = ('HashMap', 'HashSet')
NOORDER = ('any', 'all', 'count', 'len', 'sum', 'min', 'max', 'is_empty', 'contains', 'contains_key', 'product')


def D01(ctx):
    P = subject.cli()
    sources(ctx, P)
    unordered(ctx, P)
    globals_(ctx, P)
    whole(ctx, P)
    texts(ctx)


def named(x, names):
    if x.op == 'call':
        n = x.a[0]
    elif x.op == 'mcall':
        n = x.a[1]
    else:
        return False
    return isinstance(n, str) and any(n == q or n.endswith('::' + q) or ('::' not in q and n.split('::')[-1] == q) for q in names)


def sources(ctx, P):
    """no clock, random number, environment or address reaches anything but what is printed"""
    tainted = set()             # functions that give such a value
    fns = functions(P)
    runs = {}
    n = 0
    quick = [f for f in fns if any(nd_name(x) for x in walk(f.node.get('body')))]
    done = set()
    while True:
        todo = [f for f in fns if (f in quick or any(x.get('k') in ('call', 'mcall') and callname(x) in tainted for x in walk(f.node.get('body')))) and (f, len(tainted)) not in done]
        if not todo:
            break
        before = len(tainted)
        for fn in todo:
            done.add((fn, before))
            if fn not in runs:
                I = Interp(P, opaque=lambda f: f is not fn and size(f) > 60)
                try:
                    v, _ = I.run_fn(fn)
                except Exception as e:
                    ctx.undecided('sources', '%s: %s' % (fn.qual(), e))
                    continue
                runs[fn] = I, norm(v)
            I, v = runs[fn]
            dirty = lambda t: [x for x in subterms(norm(t)) if named(x, ND) or tainted and named(x, tuple(tainted))]
            for e in I.events:
                if e.kind in ('print', 'return', 'throw'):
                    continue
                name = (e.name or '').split('::')[-1]
                if e.kind == 'call' and (name in TIME or any(e.name == q or e.name.endswith(q) for q in ND) or name in tainted):
                    continue
                hit = [x for a in list(e.args) + [c for c in e.pc] + ([e.recv] if e.recv is not None and e.kind != 'call' else []) for x in dirty(a)]
                if e.kind in ('lit', 'new') and e.val is not None:
                    hit += dirty(e.val)
                ctx.check(not hit, 'sources', '%s:%s' % (fn.qual(), hit[0].a[0] if hit and hit[0].op == 'call' else ''), '%s: %s depends on %s' % (fn.qual(), e.name or e.kind, show(hit[0])[:60] if hit else ''), e.where())
            hit = dirty(v) if str(fn.node.get('ret')).replace(' ', '') not in ('()', 'None', 'Result<(),String>') else []
            if hit and fn.name != 'main':
                tainted.add(fn.name)
        if len(tainted) == before:
            break
    for fn in fns:
        n += 1
        for x in walk(fn.node.get('body')):
            if x.get('k') == 'lit' and x.get('t') == 'str' and ':p}' in str(x.get('v')) or x.get('k') == 'lit' and x.get('t') == 'str' and ':#p}' in str(x.get('v')):
                ctx.bad('sources', '%s:address' % fn.qual(), '%s: an address is made text' % fn.qual(), fn.loc())
    ctx.count('functions of the generator', n)
    ctx.floor('functions of the generator', n, 200)
    ctx.count('functions that read the clock', len(quick))


def size(f):
    return sum(1 for _ in walk(f.node.get('body')))


def callname(x):
    if x.get('k') == 'mcall':
        return x.get('n')
    f = x.get('f')
    return str(f.get('p', '')).split('::')[-1] if isinstance(f, dict) else ''


def nd_name(x):
    if x.get('k') == 'call' and isinstance(x.get('f'), dict):
        n = str(x['f'].get('p', ''))
    elif x.get('k') == 'mcall':
        n = str(x.get('n'))
    elif x.get('k') == 'path':
        n = str(x.get('p'))
    else:
        return False
    return any(n == q or n.endswith('::' + q) or '::' not in q and n.split('::')[-1] == q or '::' in q and n == q.split('::')[-1] and False for q in ND)


def unordered(ctx, P):
    fields, fret = {}, {}
    for k, (node, mod, file) in P.items.items():
        if node.get('k') == 'struct':
            for f in node.get('f') or []:
                if isinstance(f, list) and len(f) == 2 and any(u in str(f[1]) for u in UNORDERED):
                    fields[f[0]] = str(f[1])
    fns = functions(P)
    for fn in fns:
        if any(u in str(fn.node.get('ret')) for u in UNORDERED):
            fret[fn.name] = str(fn.node.get('ret'))
    acting = [f for f in fns if f.name == 'action' and f.owner and acts(P, f)]
    n = 0
    for fn in fns:
        body = fn.node.get('body')
        local = {}
        for q in fn.node.get('params') or []:
            name, ty = param(q)
            if name and any(u in str(ty) for u in UNORDERED):
                local[name] = str(ty)
        for x in walk(body):
            if x.get('k') == 'let' and isinstance(x.get('pat'), dict) and x['pat'].get('n'):
                ty = str(x['pat'].get('ty') or '')
                if any(u in ty for u in UNORDERED):
                    local[x['pat']['n']] = ty
                elif not ty and unordered_init(x.get('init'), fret):
                    local[x['pat']['n']] = 'HashMap<?>'

        def kind(e):
            while isinstance(e, dict):
                k = e.get('k')
                if k in ('ref', 'paren', 'un', 'deref', 'try', 'await', 'cast'):
                    e = e.get('e')
                elif k == 'mcall' and e.get('n') in ('clone', 'as_ref', 'as_mut', 'borrow', 'unwrap', 'to_owned') + ITER:
                    e = e.get('e')
                elif k == 'mcall':
                    return fret.get(e.get('n'))
                elif k == 'call':
                    return fret.get(callname(e))
                elif k == 'field':
                    return fields.get(e.get('n'))
                elif k == 'path':
                    return local.get(e.get('p'))
                else:
                    return None
            return None
        inner = set()
        for x in walk(body):
            if x.get('k') == 'for' and kind(x.get('e')):
                n += 1
                for y in walk(x.get('e')):
                    inner.add(id(y))
                judge_loop(ctx, fn, x, kind(x.get('e')), acting, body)
        chains = {}
        parents = {}
        for x in walk(body):
            for v in x.values():
                if isinstance(v, dict):
                    parents[id(v)] = x
        for x in walk(body):
            if x.get('k') == 'mcall' and x.get('n') in ITER and id(x) not in inner and kind(x):
                if kind(x.get('e')) is None:
                    continue
                n += 1
                methods, top = [], x
                while True:
                    p = parents.get(id(top))
                    if isinstance(p, dict) and p.get('k') == 'mcall' and p.get('e') is top:
                        methods.append(p.get('n'))
                        top = p
                    elif isinstance(p, dict) and p.get('k') in ('try', 'paren', 'ref'):
                        top = p
                    else:
                        break
                what = '%s: the order of a %s' % (fn.qual(), kind(x).split('<')[0])
                if any(m in NOORDER for m in methods) or 'dyn CtrlArg' in kind(x) and len(acting) <= 1:
                    ctx.ok('unordered', fn.qual())
                    continue
                p = parents.get(id(top))
                if isinstance(p, dict) and p.get('k') == 'let' and isinstance(p.get('pat'), dict):
                    name, ty = p['pat'].get('n'), str(p['pat'].get('ty') or '')
                    if any(u in ty for u in UNORDERED + ('BTree',)) or sorted_later(body, name):
                        ctx.ok('unordered', fn.qual())
                        continue
                if any('BTree' in str(y) or 'Hash' in str(y) for y in [top.get('tf'), top.get('g'), top.get('ty')] if y):
                    ctx.ok('unordered', fn.qual())
                    continue
                ctx.bad('unordered', fn.qual(), '%s decides the order of what is made of it (%s)' % (what, '.'.join([x.get('n')] + methods)), '%s:%s' % (fn.file.split('/cli/src/')[-1], x.get('l')))
    ctx.count('iterations over unordered collections', n)


def param(q):
    if isinstance(q, list) and len(q) >= 2:
        a, b = q[0], q[1]
        return (a.get('n') if isinstance(a, dict) else a), b
    if isinstance(q, dict):
        pt = q.get('pat') if isinstance(q.get('pat'), dict) else {}
        return q.get('n') or pt.get('n'), q.get('t') or q.get('ty') or pt.get('ty')
    return None, None


def unordered_init(e, fret):
    for x in walk(e):
        if x.get('k') == 'call' and isinstance(x.get('f'), dict):
            p = str(x['f'].get('p', ''))
            if any(('%s::' % u) in p or p.startswith(u) for u in UNORDERED) or callname(x) in fret:
                return x is e or True
        if x.get('k') == 'mcall' and x.get('n') == 'collect' and any(u in str(x.get('tf') or x.get('g') or '') for u in UNORDERED):
            return x is e
    return False


def sorted_later(body, name):
    return any(x.get('k') == 'mcall' and str(x.get('n')).startswith('sort') and isinstance(x.get('e'), dict) and x['e'].get('p') == name for x in walk(body))


def acts(P, fn):
    """does the action of an option do more than print"""
    I = Interp(P, opaque=lambda f: f is not fn)
    I.run_fn(fn)
    return any(e.kind == 'call' and e.name.split('::')[-1] in ('write', 'render', 'parse', 'remove_file') for e in I.events)


def judge_loop(ctx, fn, x, ty, acting, body):
    if 'dyn CtrlArg' in ty and len(acting) <= 1:
        ctx.ok('unordered', fn.qual())
        return
    targets = []
    for y in walk(x.get('b')):
        k = y.get('k')
        if k == 'mcall' and y.get('n') in ('push', 'push_str', 'extend', 'append', 'write', 'write_all', 'render', 'push_back', 'extend_from_slice', 'write_str', 'write_fmt'):
            targets.append(y['e'].get('p') if isinstance(y.get('e'), dict) else None)
        elif k == 'call' and callname(y) in ('write', 'render'):
            targets.append(None)
        elif k in ('assign', 'opassign', 'assignop') and isinstance(y.get('a'), dict):
            targets.append(y['a'].get('p'))
        elif k == 'mac' and y.get('n') in ('write', 'writeln'):
            targets.append(None)
    left = [t for t in targets if not (t and sorted_later(body, t))]
    if not left:
        ctx.ok('unordered', fn.qual())
        return
    ctx.bad('unordered', fn.qual(), '%s: the order of a %s decides the order of what is made of it' % (fn.qual(), ty.split('<')[0]), '%s:%s' % (fn.file.split('/cli/src/')[-1], x.get('l')))


def globals_(ctx, P):
    n = 0
    for k, (node, mod, file) in P.items.items():
        if node.get('static') or 'thread_local' in str(node.get('n')):
            n += 1
            ty = str(node.get('ty'))
            name = k.split('::')[-1]
            if (node.get('mut') or any(q in ty for q in ('Atomic', 'Mutex', 'RwLock', 'Cell'))) and any(x.get('k') == 'path' and str(x.get('p')).split('::')[-1] == name for f in functions(P) for x in walk(f.node.get('body'))):
                ctx.bad('global', k.split('::')[-1], 'state that outlives one run of a function: %s' % k, '%s:%s' % (file, node.get('l')))
    ctx.count('globals', n)
    ctx.ok('global', 'none')


def whole(ctx, P):
    """what is in a file afterwards is what was to be written, also if it existed before"""
    for fn in [f for f in functions(P) if f.name == 'write' and not f.owner]:
        I = Interp(P)
        I.run_fn(fn)
        opens = [e for e in I.events if e.kind == 'call' and (e.name.split('::')[-1] == 'open' and wf.opens_for_writing(e) or e.name.endswith('File::create') or e.name.endswith('fs::write'))]
        ctx.count('functions that write files')
        if not opens:
            ctx.undecided('whole', '%s: how files are opened' % fn.qual())
        for e in opens:
            flags = {}
            if e.recv is not None:
                for x in subterms(e.recv):
                    if x.op == 'mcall' and len(x.a) > 2:
                        flags[x.a[1]] = norm(x.a[2])
            clean = flags.get('truncate') is TRUE or flags.get('create_new') is TRUE or e.name.endswith(('File::create', 'fs::write'))
            if flags.get('append') is TRUE:
                clean = False
            if not clean:
                # or: it cannot exist here
                gone = [r for r in I.events if r.kind == 'call' and r.name.split('::')[-1] == 'remove_file']
                facts = lambda x: TRUE if x.op == 'mcall' and x.a[1] == 'exists' else FALSE if x.op == 'is' and x.a[1].op in ('call', 'mcall') and any(x.a[1] is r.val for r in gone) and x.a[0] == 'Ok' else TRUE if x.op == 'is' and x.a[0] == 'Err' and any(x.a[1] is r.val for r in gone) else None
                pc = under(And(*[norm(c) for c in e.pc]), facts)
                clean = pc is FALSE
            ctx.check(clean, 'whole', fn.qual(), '%s: an existing file keeps what is behind the new content' % fn.qual(), e.where())
        conts = [e for e in I.events if e.kind == 'call' and e.name.split('::')[-1] in ('write_all', 'write') and e.args and norm(e.args[-1]).op != 'bool']
        for e in conts:
            a = norm(e.args[-1])
            ctx.check(a.op == 'sym' or a.op in ('bytes', 'utf8', 'mcall') and a.a[0].op == 'sym', 'whole', '%s:content' % fn.qual(), '%s: what is written is %s instead of the content' % (fn.qual(), show(a)[:80]), e.where()) if a.op in ('sym', 'bytes', 'utf8', 'index', 'cat') else ctx.undecided('whole', '%s: content %s' % (fn.qual(), show(a)[:60]))


def texts(ctx):
    """the text of a file does not depend on where it is written or on what is there already"""
    for side, lang in USER:
        for label, m in models():
            first, _ = wf.emit(side, lang, (), m)
            again, _ = wf.emit(side, lang, set(first.files) | {ROOT}, m)
            N = '%s %s' % (LNAME[lang], side)
            for p, t in sorted(again.files.items()):
                ctx.count('generated files')
                if p in first.files:
                    ctx.check(first.files[p] == t, 'repeat', '%s-%s:%s' % (side, lang, rel(p)), '%s: %s has another content when it is generated again' % (N, rel(p)), None)
            for p, t in sorted(first.files.items()):
                if isinstance(t, str):
                    ctx.check(not re.search(r'(?<![\w.])%s(?![\w])' % ROOT, t), 'place', '%s-%s:%s' % (side, lang, rel(p)), '%s: the text of %s depends on the folder it is written to' % (N, rel(p)), None)
