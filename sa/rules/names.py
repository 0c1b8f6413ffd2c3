"""G05: whatever generated sources refer to is there, under that name and with that shape."""
import functools, os, posixpath, re
from .. import front, proj, subject, wf
from ..schema import Stuck
from .diagram import models
from .files import walk

SHOWN = {'rs': 'Rust', 'ts': 'TypeScript'}
RS_TYPES = set('''bool char str u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64 String Vec Option Result Box Some None Ok Err Self Send Sync Sized Copy Clone Drop Fn FnMut FnOnce Iterator
IntoIterator From Into TryFrom TryInto FromIterator ToString ToOwned AsRef AsMut Default Debug Display PartialEq Eq PartialOrd Ord Hash Extend DoubleEndedIterator ExactSizeIterator Unpin Pin Future
drop Future'''.split()) - {'Pin', 'Future', 'Display', 'Hash', 'Debug'}
RS_WORDS = set('dyn mut impl fn as for where const static ref in move pub crate self super async await unsafe extern true false _ type'.split())
RS_MACROS = set('println eprintln print eprint format vec panic assert assert_eq assert_ne debug_assert debug_assert_eq write writeln unreachable unimplemented todo matches include_str concat stringify env option_env dbg cfg compile_error line file column module_path thread_local'.split())
TS_GLOBALS = set('''Promise Error Map Set WeakMap WeakSet Array Object JSON Date Math Number String Boolean Symbol BigInt RegExp Uint8Array Int8Array Uint16Array Int16Array Uint32Array Int32Array Float32Array
Float64Array BigInt64Array BigUint64Array Uint8ClampedArray ArrayBuffer DataView TypeError RangeError SyntaxError console setTimeout clearTimeout setInterval clearInterval setImmediate queueMicrotask undefined
NaN Infinity isNaN isFinite parseInt parseFloat globalThis process Buffer TextEncoder TextDecoder require module exports this super arguments Reflect Proxy Iterator Generator Intl WebAssembly performance crypto
encodeURIComponent decodeURIComponent window self global null true false new typeof void delete await async'''.split())
TS_TYPES = TS_GLOBALS | set('''string number boolean any unknown never object symbol bigint Record Partial Required Readonly Pick Omit Exclude Extract NonNullable ReturnType Parameters ConstructorParameters InstanceType Awaited
ReadonlyArray ReadonlyMap ReadonlySet PromiseLike Iterable IterableIterator AsyncIterable Function keyof typeof readonly extends infer in is asserts unique new abstract NodeJS const ArrayBufferLike ArrayLike ArrayBufferView SharedArrayBuffer Uppercase Lowercase Capitalize Uncapitalize ThisType AsyncIterator AsyncGenerator AsyncIterableIterator IteratorResult PropertyKey TemplateStringsArray ErrorOptions AggregateError BufferSource'''.split())


@functools.lru_cache(None)
def runtime(lang):
    """the names of the part of a protocol that does not depend on what is declared"""
    out = set()
    d = os.path.join(front.REPO, 'cli', 'src', 'protocol', 'render')
    for r, _, fs in os.walk(d):
        for f in fs:
            t = open(os.path.join(r, f), errors='replace').read()
            out |= set(re.findall(r'\bpub(?:\([a-z]+\))?\s+(?:async\s+)?(?:struct|enum|trait|fn|mod|const|static|type)\s+(\w+)' if lang == 'rs' else r'\bexport\s+(?:abstract\s+|async\s+|declare\s+)*(?:class|function|const|let|type|interface|enum|namespace)\s+(\w+)', t))
    return out



def protocol_names(p):
    """{path} of all structures and enums of the protocol, and its groups"""
    m = p.model.protocol
    out, groups = set(), {()}
    for x in list(m.structs) + list(m.enums):
        out.add(tuple(x.f['path']) + (x.f['name'],))
    for g in m.groups:
        groups.add(tuple(m.path(g.f['id'])))
    return out, groups


class Names(object):
    def __init__(self, ctx, p, variant):
        self.ctx, self.p, self.variant, self.lang, self.side = ctx, p, variant, p.lang, p.side
        self.declared, self.groups = protocol_names(p)
        self.n = 0

    def origin(self, f):
        fn = self.p.origin.get(f)
        return '%s:%s' % (fn.file, fn.node.get('l')) if fn is not None and hasattr(fn, 'file') else f

    def bad(self, rule, f, name, msg):
        short = f[len(proj.ROOT):].lstrip('/')
        self.ctx.bad(rule, '%s:%s:%s:%s' % (self.lang, self.side, short, name), '%s %s (workflow with %s): %s' % (SHOWN[self.lang], self.side, self.variant, msg % {'file': short}), self.origin(f))

    def proto(self, segs):
        """whether the protocol declares this path (below the protocol itself)"""
        segs = list(segs)
        at = ()
        while segs and at + (segs[0],) in self.groups:
            at += (segs.pop(0),)
        if not segs:
            return True
        if at + (segs[0],) in self.declared:
            return True
        if segs[0] == 'AvailableMessages' or segs[0].startswith('IAvailableMessage'):
            if self.lang == 'rs' and len(segs) > 1:
                return at + (segs[1],) in self.declared or at + (segs[1],) in self.groups
            return True
        if segs[0][0] == 'I' and at + (segs[0][1:],) in self.declared and self.lang == 'ts':
            return True
        return not at and segs[0] in runtime(self.lang)


# ---------------------------------------------------------------- Rust
class Rs(Names):
    def run(self):
        P = self.p.prog
        self.P = P
        self.gen = {}
        self.protomods = set()
        self.missing_mods()
        cargo = ''.join(open(x, errors='replace').read() for x in glob_cargo())
        self.crates = {'std', 'core', 'alloc', 'clibri'} | {c.replace('-', '_') for c in re.findall(r'\b[a-z][a-z0-9_-]*\b', cargo)}
        for mod, f in sorted(P.mods.items()):
            tree = self.p.trees.get(f)
            if tree is None or 'error' in tree:
                continue
            for n, tgt in sorted(P.uses.get(mod, {}).items()):
                self.n += 1
                if not self.find(mod, tgt.split('::'), skip=n if tgt.split('::')[0] == n else None, use=True):
                    self.bad('name', f, tgt, '%%(file)s uses %s, which is not generated' % tgt)
            for tgt in P.globs.get(mod, []):
                self.n += 1
                if not self.find(mod, tgt.split('::'), use=True):
                    self.bad('name', f, tgt, '%%(file)s uses %s, which is not generated' % tgt)
            items = tree['items'] if self.is_file(mod, f) else self.inline(tree['items'], mod, f)
            for it in items:
                if it['k'] != 'mod' and it['k'] != 'use':
                    self.item(mod, f, it)

    def is_file(self, mod, f):
        up = mod.rsplit('::', 1)[0]
        return mod == 'crate' or self.P.mods.get(up) != f or up not in self.P.mods

    def inline(self, items, mod, f):
        """items of a module written inside of a file"""
        up = mod.rsplit('::', 1)[0]
        own = items if self.is_file(up, f) else self.inline(items, up, f)
        for it in own:
            if it['k'] == 'mod' and it['n'] == mod.rsplit('::', 1)[-1] and it['items'] is not None:
                return it['items']
        return []

    def missing_mods(self):
        P = self.p.prog
        reached = set(P.mods.values())
        for mod, f in sorted(P.mods.items()):
            tree = self.p.trees.get(f)
            if tree is None or 'error' in tree:
                continue
            flat = posixpath.basename(f) == 'mod.rs' or f == P.mods['crate'] or True
            for it in (tree['items'] if self.is_file(mod, f) else []):
                if it['k'] == 'mod' and it['items'] is None:
                    self.n += 1
                    d = posixpath.dirname(f) if posixpath.basename(f) == 'mod.rs' or f == P.mods['crate'] else posixpath.splitext(f)[0]
                    c = [posixpath.join(d, it['n'] + '.rs'), posixpath.join(d, it['n'], 'mod.rs')]
                    if it.get('path'):
                        c = [posixpath.join(posixpath.dirname(f), it['path'])]
                    c = [posixpath.normpath(x) for x in c]
                    pr = [x for x in c if x in self.p.protocol]
                    if pr:
                        self.protomods.add(mod + '::' + it['n'])
                        reached.add(pr[0])
                    elif not [x for x in c if x in self.p.trees]:
                        self.bad('module', f, it['n'], '%%(file)s declares the module %s, but no file for it is generated' % it['n'])
        for f in sorted(set(self.p.ex.files) - reached if self.variant == 'all kinds' else ()):
            if f.endswith('.rs'):
                self.bad('part', f, '-', '%(file)s is generated, but no module declares it')

    def find(self, mod, segs, skip=None, use=False, depth=0, bound=()):
        segs = [s.split('<')[0] for s in segs if s]
        if depth > 12 or not segs:
            return True
        first = segs[0]
        if first == 'crate':
            return self.below('crate', segs[1:], depth)
        if first == 'self':
            return self.below(mod, segs[1:], depth)
        if first == 'super':
            at = mod
            while segs and segs[0] == 'super':
                if at == 'crate':
                    return False
                at = at.rsplit('::', 1)[0]
                segs = segs[1:]
            return self.below(at, segs, depth)
        if first != skip:
            r = self.inside(mod, segs, depth, True)
            if r is not None:
                return r
        if first in bound:
            return True
        if len(segs) == 1 and not use:
            return first in RS_TYPES or bool(re.match(r'^[A-Z]$', first)) or first in self.generics(mod)
        if first in RS_TYPES:
            return True
        return first in self.crates

    def generics(self, mod):
        f = self.P.mods.get(mod)
        if f not in self.gen:
            out = set()
            for m in re.finditer(r'\b(?:impl|(?:fn|struct|enum|trait|type)\s+\w+)\s*<([^>{(]*)', self.p.files.get(f) or ''):
                out |= set(re.findall(r'(?:^|,)\s*(?:const\s+)?(\w+)', m.group(1)))
            self.gen[f] = out
        return self.gen[f]

    def inside(self, mod, segs, depth, own=False):
        """segs looked up in a module; None if its first part is not there"""
        if mod in self.protomods:
            return self.proto(segs)
        first = segs[0]
        sub = mod + '::' + first
        if sub in self.protomods or sub in self.P.mods:
            return self.below(sub, segs[1:], depth)
        if sub in self.P.items:
            return self.within(sub, segs[1:])
        tgt = self.P.uses.get(mod, {}).get(first)
        if tgt is not None:
            t = tgt.split('::')
            return self.find(mod, t + segs[1:], skip=first if t[0] == first else None, use=True, depth=depth + 1)
        for g in self.P.globs.get(mod, []):
            at = self.module(mod, g.split('::'))
            if at is None:
                continue
            if at != mod and depth < 8:
                r = self.inside(at, segs, depth + 1)
                if r:
                    return r
        return None

    def module(self, mod, segs):
        """the module a path of a glob names, if it is one of the project"""
        at = mod
        for i, s in enumerate(segs):
            if s == 'crate':
                at = 'crate'
            elif s == 'super':
                at = at.rsplit('::', 1)[0]
            elif s == 'self':
                pass
            elif at + '::' + s in self.P.mods or at + '::' + s in self.protomods:
                at = at + '::' + s
            elif s in self.P.uses.get(at, {}):
                at = self.module(at, self.P.uses[at][s].split('::'))
                if at is None:
                    return None
            else:
                return None
        return at

    def below(self, mod, segs, depth):
        if not segs:
            return True
        r = self.inside(mod, segs, depth)
        return bool(r)

    def within(self, ab, segs):
        node = self.P.items[ab][0]
        if not segs:
            return True
        own = self.P.methods.get(ab, {})
        if node['k'] == 'enum':
            vs = [v['n'] for v in node.get('v') or [] if isinstance(v, dict)]
            return segs[0] in vs or segs[0] in own or ab + '::' + segs[0] in self.P.items or bool(node.get('derive')) and segs[0] in ('clone', 'default')
        if node['k'] in ('struct',):
            return segs[0] in own or ab + '::' + segs[0] in self.P.items or segs[0] in ('from', 'default', 'clone', 'into', 'try_from', 'fmt', 'eq', 'cmp')
        return True

    # -- what items refer to
    def item(self, mod, f, it):
        k = it['k']
        if k == 'impl':
            self.types(mod, f, it.get('ty'), ())
            self.types(mod, f, it.get('trait'), ())
            self.types(mod, f, it.get('generics'), ())
            for x in it['items']:
                self.item(mod, f, x)
            return
        if k == 'trait':
            for x in it.get('items') or []:
                self.item(mod, f, x)
            return
        bound = set()
        for x in walk(it):
            if x.get('k') == 'pid' and isinstance(x.get('n'), str):
                bound.add(x['n'])
            elif x.get('k') in ('fn', 'struct', 'enum', 'const', 'type') and x is not it and x.get('n'):
                bound.add(x['n'])
            elif x.get('k') == 'use' and x is not it:
                bound |= {u[0] for u in x['u']}
        if k == 'struct':
            for x in it.get('f') or []:
                self.types(mod, f, x[1], bound)
        elif k == 'enum':
            for v in it.get('v') or []:
                for x in v.get('f') or []:
                    self.types(mod, f, x[1], bound)
        for x in walk(it):
            kk = x.get('k')
            for a in ('ty', 'ret'):
                if isinstance(x.get(a), str) and kk != 'impl':
                    self.types(mod, f, x[a], bound)
            for g in (x.get('g') if isinstance(x.get('g'), list) else [x.get('g')]):
                if isinstance(g, str):
                    self.types(mod, f, g, bound)
            if kk in ('path', 'slit', 'pts', 'ppath', 'pst', 'pstruct') and isinstance(x.get('p'), str) and x['p']:
                self.path(mod, f, x['p'], bound, x)
            if kk == 'mac':
                self.n += 1
                if x['n'] not in RS_MACROS and not self.find(mod, [x['n']], bound=bound, use=False) and x['n'] not in self.P.macros and '::' not in x.get('full', ''):
                    self.bad('name', f, x['n'] + '!', '%%(file)s uses the macro %s!, which is not imported' % x['n'])
            if kk == 'call' and isinstance(x.get('f'), dict) and x['f'].get('k') == 'path':
                self.arity(mod, f, x, bound)
            if kk == 'slit' and isinstance(x.get('p'), str) and x['p'] not in ('', 'Self'):
                self.literal(mod, f, x)

    def path(self, mod, f, q, bound, node):
        q = re.sub(r'::<.*$|<.*$', '', q)
        segs = [s for s in q.split('::') if s]
        if not segs or not all(re.match(r'^\w+$', s) for s in segs):
            return
        if segs[0] == 'Self' or len(segs) == 1 and (segs[0] in bound or segs[0] in RS_WORDS):
            return
        self.n += 1
        if not self.find(mod, segs, bound=bound):
            self.bad('name', f, '::'.join(segs), '%%(file)s refers to %s, which is not there' % '::'.join(segs))

    def types(self, mod, f, ty, bound):
        if not isinstance(ty, str):
            return
        t = re.sub(r"'[a-z_]\w*", ' ', ty)
        t = re.sub(r'"[^"]*"', ' ', t)
        for m in re.finditer(r'(?<![\w:])(?:::)?([A-Za-z_]\w*(?:::[A-Za-z_]\w*)*)\s*([=:!]?)', t):
            segs = m.group(1).split('::')
            if len(segs) == 1 and (segs[0] in RS_WORDS or m.group(2) in ('=', ':') or segs[0] in bound):
                continue
            if segs[0] == 'Self':
                continue
            self.n += 1
            if not self.find(mod, segs, bound=()):
                self.bad('name', f, m.group(1), '%%(file)s refers to the type %s, which is not there' % m.group(1))

    def target(self, mod, q):
        ab = self.P.resolve(mod, re.sub(r'::<.*$|<.*$', '', q).split('::'))
        return ab if isinstance(ab, str) else None

    def arity(self, mod, f, x, bound):
        q = x['f']['p']
        if q.split('::')[0] in bound and '::' not in q:
            return
        try:
            ab = self.target(mod, q)
        except Exception:
            return
        if ab is None:
            return
        node = None
        if ab in self.P.fns:
            node = self.P.fns[ab].node
        elif '::' in ab and ab.rsplit('::', 1)[1] in self.P.methods.get(ab.rsplit('::', 1)[0], {}):
            node = self.P.methods[ab.rsplit('::', 1)[0]][ab.rsplit('::', 1)[1]].node
        if node is not None:
            fn = self.P.fns.get(ab) or self.P.methods[ab.rsplit('::', 1)[0]][ab.rsplit('::', 1)[1]]
            if node.get('pub') is False and not getattr(fn, 'trait', None) and not (mod + '::').startswith(fn.mod + '::'):
                self.bad('visible', f, q, '%%(file)s calls %s, which is private to its module' % q)
            want = len([y for y in node.get('params') or [] if not y.get('self')]) + (1 if node.get('self') and '::' in q else 0)
            self.n += 1
            if len(x['a']) != want:
                self.bad('fit', f, q, '%%(file)s calls %s with %d values, it takes %d' % (q, len(x['a']), want))
            return
        up, _, v = ab.rpartition('::')
        it = self.P.items.get(up)
        if it and it[0]['k'] == 'enum':
            for y in it[0].get('v') or []:
                if y.get('n') == v:
                    self.n += 1
                    if len(x['a']) != len(y.get('f') or []):
                        self.bad('fit', f, q, '%%(file)s builds %s from %d values, it has %d' % (q, len(x['a']), len(y.get('f') or [])))

    def literal(self, mod, f, x):
        try:
            ab = self.target(mod, x['p'])
        except Exception:
            return
        it = self.P.items.get(ab or '')
        if not it or it[0]['k'] != 'struct':
            return
        names = [y[0] for y in it[0].get('f') or [] if y[0]]
        got = [y[0] for y in x.get('f') or [] if isinstance(y, list) and isinstance(y[0], str)]
        self.n += 1
        if set(got) - set(names) or set(names) - set(got) and not x.get('rest'):
            d = sorted(set(got) ^ set(names))
            self.bad('fit', f, x['p'], '%%(file)s builds %s with other fields than it has: %s' % (x['p'], ', '.join(d)))


def glob_cargo():
    d = os.path.join(front.REPO, 'cli', 'src', 'workflow', 'render')
    out = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith(('.rs', '.toml'))]
    # whether the libraries are the required ones is decided by M01
    return [f for f in out if re.search(r'Cargo\.toml|dependencies|^[\w-]+ *= *["{]', open(f, errors="replace").read(), re.M)]


# ---------------------------------------------------------------- TypeScript
class Tsn(Names):
    def run(self):
        names = sorted(self.p.files)
        self.trees = dict(zip(names, front.parse_texts('ts', [self.p.files[n] for n in names])))
        self.trees = {n: t for n, t in self.trees.items() if 'error' not in t}
        self.memo = {}
        for f, t in sorted(self.trees.items()):
            self.file(f, t)
        roots = [n for n in names if posixpath.basename(n) == 'index.ts' and n.count('/') == min(x.count('/') for x in names)]
        if self.variant != 'all kinds':
            pass
        elif len(roots) == 1:
            todo, seen = list(roots), set()
            while todo:
                f = todo.pop()
                if f in seen:
                    continue
                seen.add(f)
                for it in self.trees.get(f, {}).get('items') or []:
                    if it.get('k') in ('use', 'export') and it.get('from'):
                        t = self.to(f, it['from'])
                        if t:
                            todo.append(t)
            for f in sorted(set(self.p.ex.files) - seen):
                if f.endswith('.ts'):
                    self.bad('part', f, '-', '%(file)s is generated, but nothing imports it')
        else:
            self.ctx.undecided('part', '%s: the first file of the project' % self.side)

    def to(self, f, spec):
        if not spec.startswith('.'):
            return None
        b = posixpath.normpath(posixpath.join(posixpath.dirname(f), spec))
        for c in (b + '.ts', b + '/index.ts'):
            if c in self.p.ex.files:
                return c
        return None

    def links(self, f):
        """{exported name: ('decl', node, file) | ('ns', file) | ('ext',) | ('proto', name) | ('from', file, name) | ('local', name)}, files all of whose names are exported"""
        if f in self.memo:
            return self.memo[f]
        out, stars = {}, []
        self.memo[f] = out, stars
        for it in (self.trees.get(f) or {}).get('items') or []:
            k = it.get('k')
            if k == 'export':
                tgt = self.to(f, it['from']) if it.get('from') else None
                for n, o in it.get('u') or []:
                    if it.get('from') is None:
                        out[n] = ('local', o)
                    elif not it['from'].startswith('.'):
                        out[n] = ('ext',)
                    elif tgt is None:
                        out[n] = ('none',)
                    elif n == '*':
                        stars.append(tgt)
                    elif not o or o == '*':
                        out[n] = ('ns', tgt)
                    elif tgt in self.p.protocol:
                        out[n] = ('proto', o)
                    else:
                        out[n] = ('from', tgt, o)
            elif k == 'vars':
                for d in it.get('d') or []:
                    n = (d.get('pat') or {}).get('n')
                    if n and ('export' in it['mods'] if it.get('mods') is not None else self.exported(f, n)):
                        out[n] = ('decl', d, f)
            elif k != 'use' and it.get('n') and ('export' in it['mods'] if it.get('mods') is not None else self.exported(f, it['n'])):
                out[it['n']] = ('decl', it, f)
        return out, stars

    def exported(self, f, n):
        return re.search(r'\bexport\s+(?:declare\s+|abstract\s+|async\s+|const\s+)*(?:interface|type|enum|const|let|var|namespace|class|function)\s+%s\b' % re.escape(n), self.p.files[f])

    def export(self, f, name, seen=()):
        """what a file exports under this name, None if nothing"""
        if (f, name) in seen or f not in self.trees:
            return None
        seen = tuple(seen) + ((f, name),)
        out, stars = self.links(f)
        x = out.get(name)
        if x is None:
            for s in stars:
                x = ('proto', name) if s in self.p.protocol and self.proto([name]) else self.export(s, name, seen)
                if x is not None:
                    return x
            return None
        if x[0] == 'from':
            return self.export(x[1], x[2], seen)
        if x[0] == 'local':
            x = self.locals(f).get(x[1])
            if x is not None and x[0] == 'from':
                return self.export(x[1], x[2], seen)
        return None if x is None or x[0] == 'none' else x

    def resolved(self, x):
        return self.export(x[1], x[2]) if x is not None and x[0] == 'from' else x

    def locals(self, f):
        out = {}
        for it in self.trees[f]['items']:
            if it['k'] == 'use':
                tgt = self.to(f, it['from'])
                for n, full in it['u']:
                    o = full[len(it['from']):].lstrip(':')
                    if not it['from'].startswith('.') or tgt is None:
                        out[n] = ('ext',)
                    elif not o or o == '*':
                        out[n] = ('ns', tgt)
                    elif tgt in self.p.protocol:
                        out[n] = ('proto', o)
                    else:
                        out[n] = ('from', tgt, o)
            elif it.get('n'):
                out[it['n']] = ('decl', it, f)
            elif it['k'] == 'vars':
                for d in it.get('d') or []:
                    if (d.get('pat') or {}).get('n'):
                        out[d['pat']['n']] = ('decl', d, f)
        return out

    def file(self, f, t):
        for it in t['items']:
            if it.get('k') in ('use', 'export') and it.get('from') and it['from'].startswith('.'):
                tgt = self.to(f, it['from'])
                self.n += 1
                if tgt is None:
                    self.bad('module', f, it['from'], '%%(file)s imports %s, but no file for it is generated' % it['from'])
                    continue
                for n, full in it.get('u') or []:
                    o = full[len(it['from']):].lstrip(':') if it['k'] == 'use' else full
                    if not o or o == '*' or n == '*':
                        continue
                    self.n += 1
                    if tgt in self.p.protocol:
                        ok = self.proto(o.split('.'))
                    else:
                        ok = self.export(tgt, o) is not None
                    if not ok:
                        self.bad('name', f, '%s:%s' % (it['from'], o), '%%(file)s imports %s from %s, which does not export it' % (o, it['from']))
            if it.get('k') == 'export' and not it.get('from'):
                for n, o in it.get('u') or []:
                    self.n += 1
                    if o not in self.locals(f):
                        self.bad('name', f, o, '%%(file)s exports %s, which is not there' % o)
        self.local = self.locals(f)
        for it in t['items']:
            if it['k'] not in ('use', 'export'):
                self.item(f, it)

    def item(self, f, it):
        bound = set()
        for x in walk(it):
            if x.get('k') == 'pid' and isinstance(x.get('n'), str):
                bound.add(x['n'])
            elif x.get('k') in ('fn', 'class', 'interface', 'type', 'tsenum', 'mod', 'const') and isinstance(x.get('n'), str):
                bound.add(x['n'])
            for a in ('ty', 'ret'):
                if isinstance(x.get(a), str):
                    bound |= set(re.findall(r'\binfer\s+(\w+)', x[a]))
        if it['k'] == 'class':
            self.members(f, it)
        for x in walk(it):
            k = x.get('k')
            if k == 'path' and isinstance(x.get('p'), str):
                self.value(f, x['p'], bound)
            elif k == 'new':
                if isinstance(x.get('ty'), str):
                    self.value(f, x['ty'], bound)
                    self.ctor(f, x, bound)
            elif k in ('mcall', 'field') and isinstance(x.get('e'), dict) and x['e'].get('k') == 'path' and x['e']['p'] not in bound:
                b = self.resolved(self.local.get(x['e']['p']))
                if b and b[0] == 'ns':
                    self.n += 1
                    if not self.has(b[1], [x['n']]):
                        self.bad('name', f, '%s.%s' % (x['e']['p'], x['n']), '%%(file)s refers to %s.%s, which is not exported' % (x['e']['p'], x['n']))
                    elif k == 'mcall' and b[1] in self.trees:
                        d = self.export(b[1], x['n'])
                        self.arity(f, '%s.%s' % (x['e']['p'], x['n']), d, len(x['a']), x)
            elif k == 'call' and isinstance(x.get('f'), dict) and x['f'].get('k') == 'path' and x['f']['p'] not in bound:
                self.arity(f, x['f']['p'], self.resolved(self.local.get(x['f']['p'])), len(x['a']), x)
            for a in ('ty', 'ret', 'g', 'ext'):
                if isinstance(x.get(a), str) and not (k == 'new' and a == 'ty'):
                    self.types(f, x[a], bound)
            for a in ('impl', 'members'):
                for y in x.get(a) or [] if isinstance(x.get(a), list) else []:
                    if isinstance(y, str):
                        self.types(f, y, bound)

    def has(self, f, segs):
        if f in self.p.protocol:
            return self.proto(segs)
        return f not in self.trees or self.export(f, segs[0]) is not None

    def value(self, f, q, bound):
        segs = re.sub(r'<.*$', '', q).replace('::', '.').split('.')
        if not re.match(r'^[A-Za-z_$][\w$]*$', segs[0]):
            return
        self.n += 1
        if segs[0] in bound or segs[0] in TS_GLOBALS:
            return
        b = self.resolved(self.local.get(segs[0]))
        if segs[0] not in self.local:
            self.bad('name', f, segs[0], '%%(file)s refers to %s, which is neither declared nor imported' % segs[0])
        elif b is not None and b[0] == 'ns' and len(segs) > 1 and not self.has(b[1], segs[1:]):
            self.bad('name', f, q, '%%(file)s refers to %s, which is not there' % q)

    def types(self, f, ty, bound):
        t = re.sub(r'"[^"]*"|\'[^\']*\'|`[^`]*`', ' ', ty)
        # parameters and properties are names of their own
        for m in re.finditer(r'(?<![\w$.])([A-Za-z_$][\w$]*(?:\.[A-Za-z_$][\w$]*)*)\s*(\??:)?', t):
            segs = m.group(1).split('.')
            if m.group(2) or segs[0] in TS_TYPES or segs[0] in bound or re.match(r'^[A-Z]$', segs[0]):
                continue
            self.n += 1
            b = self.resolved(self.local.get(segs[0]))
            if segs[0] not in self.local:
                self.bad('name', f, segs[0], '%%(file)s refers to the type %s, which is neither declared nor imported' % segs[0])
            elif b is not None and b[0] == 'ns' and len(segs) > 1 and not self.has(b[1], segs[1:]):
                self.bad('name', f, m.group(1), '%%(file)s refers to the type %s, which is not there' % m.group(1))

    def arity(self, f, q, d, n, x):
        if not d or d[0] != 'decl' or d[1].get('k') != 'fn':
            return
        self.count_args(f, q, d[1].get('params') or [], n, x)

    def count_args(self, f, q, ps, n, x):
        if any((a or {}).get('k') in ('spread', 'rest') for a in x.get('a') or [] if isinstance(a, dict)):
            return
        most = len(ps)
        least = len([y for y in ps if not (y.get('opt') or y.get('def') is not None or y.get('init') is not None or (y.get('pat') or {}).get('init') is not None)])
        if any(y.get('rest') for y in ps):
            most = 99
            least = min(least, len(ps) - 1)
        self.n += 1
        if not least <= n <= most:
            self.bad('fit', f, q, '%%(file)s calls %s with %d values, it takes %s' % (q, n, least if least == most else '%d to %d' % (least, most)))

    def ctor(self, f, x, bound):
        q = re.sub(r'<.*$', '', x['ty'])
        segs = q.split('.')
        if segs[0] in bound and segs[0] not in self.local:
            return
        d = self.resolved(self.local.get(segs[0]))
        if d and d[0] == 'ns' and len(segs) == 2 and d[1] in self.trees:
            d = self.export(d[1], segs[1])
        elif len(segs) > 1:
            return
        if not d or d[0] != 'decl' or d[1].get('k') != 'class':
            return
        c = [y for y in d[1].get('items') or [] if y.get('n') == 'constructor']
        if not c and d[1].get('ext'):
            return
        self.count_args(f, 'new ' + q, (c[0].get('params') or []) if c else [], len(x.get('a') or []), x)

    def members(self, f, it):
        if it.get('ext'):
            return
        own = {y.get('n') for y in it.get('items') or []} | {(y.get('n') if isinstance(y, dict) else y[0]) for y in it.get('fields') or []}
        for y in it.get('items') or []:
            if y.get('n') == 'constructor':
                own |= {(z.get('pat') or z).get('n') for z in y.get('params') or [] if z.get('prop')}
        for y in list(it.get('items') or []) + list(it.get('fields') or []):
            for x in walk(y):
                if x.get('k') in ('field', 'mcall') and isinstance(x.get('e'), dict) and x['e'].get('k') == 'path' and x['e']['p'] == 'this':
                    self.n += 1
                    if x['n'] not in own and x['n'] not in ('constructor', 'toString'):
                        self.bad('name', f, '%s.%s' % (it['n'], x['n']), '%%(file)s: %s refers to its member %s, which is not declared' % (it['n'], x['n']))


def workflows():
    yield from models()

    def part(kind, keep):
        m = wf.WorkflowModel()
        for k in ('requests', 'events', 'beacons'):
            m.store.f[k] = [x for x in getattr(m, k) if keep(k, x)]
            setattr(m, k, m.store.f[k])
        return kind, m
    sends = lambda k, x: [b for a in x.f['actions'] for b in a.f['broadcast']] if k == 'requests' else x.f['broadcasts'] if k == 'events' else []
    yield part('requests that broadcast nothing', lambda k, x: k == 'requests' and not sends(k, x))
    yield part('requests that broadcast', lambda k, x: k == 'requests' and bool(sends(k, x)))
    yield part('requests with one conclusion', lambda k, x: k == 'requests' and len(x.f['actions']) == 1)
    yield part('optional broadcasts only', lambda k, x: k == 'events' and all(b.f['optional'] for b in sends(k, x)))
    yield part('nothing in groups', lambda k, x: '.' not in str(x.f.get('reference') or x.f.get('request')))


def G05(ctx):
    for side in ('producer', 'consumer'):
        for lang in ('rs', 'ts'):
            total = files = 0
            for kind, m in workflows():
                try:
                    p = proj.Project(side, lang, (), m)
                except Stuck as e:
                    ctx.undecided('derived', '%s %s: %s' % (side, lang, e))
                    continue
                ctx.derived(p)
                for e in p.errors:
                    ctx.bad('parse', '%s:%s:%s' % (lang, side, e.split(':')[0][len(proj.ROOT):]), '%s %s (workflow with %s): the generated file cannot be read: %s' % (SHOWN[lang], side, kind, e[:160]))
                n = (Rs if lang == 'rs' else Tsn)(ctx, p, kind)
                n.run()
                total += n.n
                for f in sorted(p.ex.files):
                    ctx.ok('file', '%s %s (%s): %s' % (SHOWN[lang], side, kind, f[len(proj.ROOT):].lstrip('/')))
                files += len(p.ex.files)
            ctx.count('references in the generated %s of %s' % (side, SHOWN[lang]), total)
            ctx.floor('references in the generated %s (%s)' % (side, lang), total, 100)
