"""Derived projects as programs: the files the workflow generator writes for the schematic workflow, parsed as one program."""
import functools, posixpath, re
from . import front, wf
from .program import Program
from .schema import Stuck

ROOT = wf.ROOT


def slug(path):
    return 'f_' + re.sub(r'[^A-Za-z0-9]', '_', path[len(ROOT):].rsplit('.', 1)[0].strip('/'))


class Project(object):
    def __init__(self, side, lang, existing=(), model=None):
        self.side, self.lang = side, lang
        self.ex, self.model = wf.emit(side, lang, existing, model)
        self.files = {p: t for p, t in self.ex.files.items() if isinstance(t, str) and p.endswith('.' + lang)}
        self.protocol = [p for p, t in self.ex.files.items() if t is None]
        # files a second generation leaves alone hold the code of the user
        self.again = wf.emit(side, lang, set(self.ex.files), self.model)[0]
        self.user = set(self.ex.files) - set(self.again.files)
        self.origin = {p: fn for p, t, over, fn in self.ex.order}
        self.prog = Program(lang)
        self.prog.strict = True
        self.errors = []
        self.load()

    def load(self):
        names = sorted(self.files)
        trees = dict(zip(names, front.parse_texts(self.lang, [self.files[n] for n in names])))
        self.trees = trees
        for n, t in trees.items():
            if 'error' in t:
                self.errors.append('%s: %s' % (n, t['error']))
        P = self.prog
        if self.lang == 'rs':
            P.files.update(trees)
            root = [n for n in names if posixpath.basename(n) in ('mod.rs', 'lib.rs') and n.count('/') == min(x.count('/') for x in names)]
            if len(root) != 1:
                raise Stuck('root module of the derived %s: %r' % (self.side, root))
            P._load_mod(root[0], 'crate', True)
        else:
            for n in names:
                if 'error' not in trees[n]:
                    self.link(n, trees[n], trees)
            for n in names:
                if 'error' not in trees[n]:
                    P.add_text(trees[n], n, 'crate::' + slug(n))
        if self.lang == 'ts':
            P.mods['crate::protocol'] = 'protocol'
            P.outer = {'crate::protocol'}
        P.finish()
        self.mod = {m: f for m, f in P.mods.items()}

    def link(self, path, tree, trees):
        """imports and re-exports of a module in terms of module names"""
        def target(spec):
            if not spec.startswith('.'):
                return None
            b = posixpath.normpath(posixpath.join(posixpath.dirname(path), spec))
            for c in (b + '.ts', b + '/index.ts'):
                if c in trees:
                    return 'crate::' + slug(c)
            if [p for p in self.protocol if p in (b + '.ts', b + '/index.ts')]:
                return 'crate::protocol'
            return None
        out = []
        mod = 'crate::' + slug(path)
        local = {}
        for it in tree['items']:
            if it['k'] == 'use':
                t = target(it['from'])
                u = []
                for n, tg in it['u']:
                    rest = tg[len(it['from']):]
                    u.append([n, (t + rest) if t else 'pkg::' + tg.replace('/', '_')])
                    local[n] = u[-1][1]
                out.append(dict(it, u=u))
            elif it['k'] == 'export' and 'u' in it:
                t = target(it['from']) if it['from'] else None
                u = []
                for n, o in it['u']:
                    if it['from'] is None:
                        if o in local and n != o:
                            u.append([n, local[o]])
                        elif n != o:
                            u.append([n, mod + '::' + o])
                    elif t:
                        u.append([n if n != '*' else '*', t + ('::' + o if o else '')])
                if u:
                    out.append({'k': 'use', 'u': u, 'l': it.get('l', 0)})
            else:
                out.append(it)
        tree['items'] = out

    def duplicates(self):
        """names declared more than once in one scope: [(file, scope, name, line)]"""
        out = []
        for n, t in sorted(self.trees.items()):
            if 'error' not in t:
                out += [(n,) + d for d in twice(t, self.lang, '')]
        return out

    def fn(self, name, file=None, owner=None):
        c = [f for f in self.prog.all_fns if f.name == name and (file is None or f.file == file) and (owner is None or (f.owner or '').split('::')[-1] == owner)]
        c = list({(f.file, f.node.get('l')): f for f in c}.values())
        return c[0] if len(c) == 1 else None


def twice(node, lang, scope):
    seen = {}

    def note(space, name, line):
        if not name or name == '_':
            return
        if (space, name) in seen:
            out.append((scope, name, line))
        seen[space, name] = line
    out = []
    for it in node.get('items') or []:
        k, n, l = it.get('k'), it.get('n'), it.get('l')
        if k in ('struct', 'enum', 'type', 'trait', 'mod', 'tsenum', 'class', 'interface'):
            note('type' if k in ('type', 'interface') or lang == 'rs' else 'value', n, l)
        elif k in ('fn', 'const', 'static'):
            note('value', n, l)
        elif k == 'vars':
            for d in it.get('d') or []:
                note('value', (d.get('pat') or {}).get('n'), l)
        elif k == 'use' and lang == 'rs':
            for u in it.get('u') or []:
                if u[0] != '*':
                    note('use', u[0], l)
        if k in ('mod', 'trait', 'impl'):
            out += twice(it, lang, (scope + '::' if scope else '') + str(n or it.get('ty')))
        if k == 'class':
            sc = (scope + '::' if scope else '') + str(n)
            names = {}
            for x in list(it.get('fields') or []) + list(it.get('items') or []):
                if x.get('k') in (None, 'fn'):
                    key = ('static' in (x.get('mods') or []), x.get('n'), x.get('acc'))
                    if key in names and x.get('body', True) is not None:
                        out.append((sc, x.get('n'), x.get('l')))
                    names[key] = x
        if k == 'enum':
            vs = [v.get('n') for v in it.get('v') or [] if isinstance(v, dict)]
            for v in sorted({v for v in vs if vs.count(v) > 1}):
                out.append((str(n), v, l))
        if k == 'struct':
            vs = [x[0] for x in it.get('f') or []]
            for v in sorted({v for v in vs if vs.count(v) > 1 and not str(v).isdigit()}):
                out.append((str(n), v, l))
    if lang == 'ts':
        out += literals(node, scope)
    return sorted(set(out), key=str)


def literals(n, scope):
    out = []
    if isinstance(n, dict):
        if n.get('k') == 'slit':
            ks = [x[0] for x in n.get('f') or [] if isinstance(x, list) and x and isinstance(x[0], str)]
            for k in sorted({k for k in ks if ks.count(k) > 1}):
                out.append((scope, k, n.get('l')))
        for v in n.values():
            out += literals(v, scope)
    elif isinstance(n, list):
        for v in n:
            out += literals(v, scope)
    return out


@functools.lru_cache(None)
def project(side, lang):
    return Project(side, lang)
