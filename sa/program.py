"""Program index: modules, items, methods and name resolution over the parsed sources."""
import os, re
from . import front


class Fn:
    __slots__ = ('node', 'mod', 'owner', 'trait', 'file', 'name', 'generics', 'lang')

    def __init__(self, node, mod, owner, trait, file, lang='rs', generics=''):
        self.node, self.mod, self.owner, self.trait, self.file = node, mod, owner, trait, file
        self.name = node['n']
        self.lang = lang
        self.generics = generics

    def __repr__(self):
        return 'Fn(%s)' % self.qual()

    def qual(self):
        o = (self.owner or '').split('::')[-1]
        return (o + '.' if o else '') + self.name

    def loc(self):
        return '%s:%s' % (self.file, self.node.get('l', 0))


# ---------------------------------------------------------------- types
class Ty(tuple):
    """(name, args)"""
    __slots__ = ()

    def __new__(cls, name, args=()):
        return tuple.__new__(cls, (name, tuple(args)))

    @property
    def name(self):
        return self[0]

    @property
    def args(self):
        return self[1]

    def last(self):
        return self[0].split('::')[-1]


UNKNOWN = Ty('?')
_PRIM = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'f32', 'f64', 'bool', 'usize', 'isize', 'u128', 'i128',
         'str', 'String', 'char', 'Vec', 'Option', 'Result', 'HashMap', 'HashSet', 'BTreeMap', 'Box', 'Self', 'tuple', 'Cursor'}


def split_top(s, sep=','):
    out, d, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif c == '>' and not (i and s[i - 1] in '-='):
            d -= 1
        if c == sep and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def parse_rs_type(s):
    s = (s or '').strip()
    while True:
        n = re.sub(r"^(&('\w+)?\s*(mut\b)?|mut\b|'\w+\s|dyn\b|impl\b)\s*", '', s)
        if n == s:
            break
        s = n
    if not s:
        return UNKNOWN
    if s.startswith('('):
        inner = s[1:-1]
        if not inner:
            return Ty('unit')
        return Ty('tuple', [parse_rs_type(x) for x in split_top(inner)])
    if s.startswith('['):
        inner = s[1:-1]
        inner = split_top(inner, ';')[0]
        return Ty('Vec', [parse_rs_type(inner)])
    m = re.match(r'^([\w:]+)(::)?<(.*)>$', s)
    if m:
        name = m.group(1).rstrip(':')
        args = [parse_rs_type(x) for x in split_top(m.group(3)) if not x.startswith("'")]
        if name in ('Box', 'Arc', 'Rc', 'Mutex', 'RwLock', 'std::sync::Arc', 'std::rc::Rc') and args:
            return args[0]
        return Ty(name, args)
    s = split_top(s, '+')[0]
    return Ty(s)


def parse_ts_type(s):
    s = (s or '').strip()
    if not s:
        return UNKNOWN
    alts = [x for x in split_top(s, '|') if x not in ('Error', 'undefined', 'null')]
    if len(alts) != 1:
        if s in ('Error',):
            return Ty('Error')
        return UNKNOWN
    s = alts[0]
    if s.endswith('[]'):
        return Ty('Vec', [parse_ts_type(s[:-2])])
    m = re.match(r'^([\w.]+)<(.*)>$', s)
    if m:
        args = [parse_ts_type(x) for x in split_top(m.group(2))]
        if m.group(1) == 'Promise':
            return args[0]
        if m.group(1) == 'Array':
            return Ty('Vec', args)
        return Ty(m.group(1).replace('.', '::'), args)
    return Ty(s.replace('.', '::'))


class Program:
    def __init__(self, lang='rs'):
        self.lang = lang
        self.items = {}      # abs path -> (item, mod, file)
        self.uses = {}       # mod -> {name: target}
        self.globs = {}      # mod -> [target]
        self.mods = {}       # mod -> file
        self.fns = {}        # abs path -> Fn (free functions)
        self.methods = {}    # owner abs -> {name: Fn}
        self.self_mut = {}   # method name -> {does it take &mut self}
        self.by_method = {}  # method name -> [Fn]
        self.by_name = {}    # last name -> [abs]
        self.impls = []      # (trait str, ty str, mod, file, items)
        self.aliases = {}
        self.macros = {}
        self.errors = []
        self.files = {}
        self.all_fns = []
        self.topvars = {}

    # ---- loading --------------------------------------------------------
    def load_rs_crate(self, root):
        root = os.path.abspath(root)
        src = os.path.dirname(root)
        paths = front.list_sources(src, '.rs')
        self.files.update(front.parse_files('rs', paths))
        self._load_mod(root, 'crate', True)

    def _load_mod(self, path, mod, is_root=False):
        t = self.files.get(path)
        if t is None:
            return
        if 'error' in t:
            self.errors.append('%s: %s' % (path, t['error']))
            return
        self.mods[mod] = path
        self._items(t['items'], mod, path, is_root or os.path.basename(path) == 'mod.rs')

    def _items(self, items, mod, path, flat):
        for it in items:
            self._item(it, mod, path, flat)

    def _reg(self, mod, name, it, path):
        ab = mod + '::' + name
        self.items[ab] = (it, mod, path)
        self.by_name.setdefault(name, [])
        if ab not in self.by_name[name]:
            self.by_name[name].append(ab)

    def _item(self, it, mod, path, flat):
        k = it['k']
        if k == 'fn':
            if it.get('test'):
                return
            f = Fn(it, mod, None, None, path, self.lang)
            self.fns[mod + '::' + it['n']] = f
            self.all_fns.append(f)
            self._reg(mod, it['n'], it, path)
        elif k in ('struct', 'enum', 'const', 'type', 'trait', 'tsenum', 'interface'):
            self._reg(mod, it['n'], it, path)
            if k == 'trait':
                self._methods(it['items'], mod, mod + '::' + it['n'], None, path)
        elif k == 'impl':
            self.impls.append((it['trait'], it['ty'], mod, path, it))
        elif k == 'class':
            self._reg(mod, it['n'], it, path)
            self._methods(it['items'], mod, mod + '::' + it['n'], it.get('ext'), path)
        elif k == 'use':
            for n, tgt in it['u']:
                if n == '*':
                    self.globs.setdefault(mod, []).append(tgt)
                else:
                    self.uses.setdefault(mod, {})[n] = tgt
        elif k == 'mod':
            sub = mod + '::' + it['n']
            if it['items'] is not None:
                self.mods.setdefault(sub, path)
                self._items(it['items'], sub, path, flat)
                self._reg(mod, it['n'], it, path)
            else:
                d = os.path.dirname(path) if flat else os.path.splitext(path)[0]
                cands = [os.path.join(d, it['n'] + '.rs'), os.path.join(d, it['n'], 'mod.rs')]
                if it.get('path'):
                    cands = [os.path.join(os.path.dirname(path), it['path'])]
                for c in cands:
                    c = os.path.normpath(c)
                    if c in self.files:
                        self._load_mod(c, sub, bool(it.get('path')) or os.path.basename(c) == 'mod.rs')
                        self._reg(mod, it['n'], it, path)
                        break
        elif k == 'macitem':
            if it['m'] == 'macro_rules' and it['n']:
                self.macros[it['n']] = it
        elif k == 'vars':
            for d in it['d']:
                if d['pat']['k'] == 'pid':
                    self._reg(mod, d['pat']['n'], {'k': 'const', 'n': d['pat']['n'], 'e': d['init'], 'ty': d['pat'].get('ty')}, path)

    def _methods(self, items, mod, owner, trait, path, generics=''):
        for x in items:
            if x['k'] == 'fn' and not x.get('test'):
                f = Fn(x, mod, owner, trait, path, self.lang, generics)
                if x.get('self'):
                    self.self_mut.setdefault(x['n'], set()).add(bool(x.get('sm')))
                if x.get('body') is None:
                    continue
                self.methods.setdefault(owner, {})
                if x.get('acc'):
                    self.methods[owner].setdefault(x['acc'] + ' ' + x['n'], f)
                elif self.lang == 'ts' and not x.get('self'):
                    self.methods[owner].setdefault('static ' + x['n'], f)
                    self.methods[owner].setdefault(x['n'], f)
                elif self.lang == 'ts' and x['n'] in self.methods[owner] and not self.methods[owner][x['n']].node.get('self'):
                    self.methods[owner][x['n']] = f
                else:
                    self.methods[owner].setdefault(x['n'], f)
                self.by_method.setdefault(x['n'], []).append(f)
                self.all_fns.append(f)
            elif x['k'] == 'const':
                self.items[owner + '::' + x['n']] = (x, mod, path)

    def finish(self):
        for trait, ty, mod, path, it in self.impls:
            t = parse_rs_type(ty)
            generic = bool(re.match(r'^[A-Z]$', t.name))
            owner = self.resolve_type(t, mod)
            key = self.type_key(owner, it, mod)
            self._methods(it['items'], mod, key, trait, path, it.get('generics', ''))

    def type_key(self, ty, it=None, mod=None):
        if ty.name in ('Vec', 'Option', 'HashMap', 'Result', 'Cursor') or '::' not in ty.name:
            return self.ty_str(ty)
        return ty.name

    def ty_str(self, ty):
        n = ty.name
        if ty.args:
            return n + '<' + ','.join(self.ty_str(x) for x in ty.args) + '>'
        return n

    def add_text(self, tree, path, mod='crate'):
        """A parsed fragment as one module."""
        if 'error' in tree:
            self.errors.append('%s: %s' % (path, tree['error']))
            return
        self.mods[mod] = path
        self.files[path] = tree
        self._items(tree['items'], mod, path, True)

    # ---- resolution -----------------------------------------------------
    def resolve(self, mod, segs, seen=None, depth=0):
        """Absolute path of segs as seen from mod, or None."""
        if not segs or depth > 24:
            return None
        seen = seen or set()
        key = (mod, tuple(segs))
        if key in seen:
            return None
        seen.add(key)
        s0 = segs[0]
        if s0 == 'crate':
            return self._abs(['crate'] + segs[1:], seen, depth)
        if s0 == 'self':
            return self._abs(mod.split('::') + segs[1:], seen, depth)
        if s0 == 'super':
            return self._abs(mod.split('::')[:-1] + segs[1:], seen, depth)
        ab = mod + '::' + s0
        if ab in self.items or ab in self.mods:
            r = self._abs(ab.split('::') + segs[1:], seen, depth)
            if r:
                return r
        u = self.uses.get(mod, {}).get(s0)
        if u:
            r = self.resolve(mod, u.split('::') + segs[1:], seen, depth + 1) if u.split('::')[0] != s0 or True else None
            if r:
                return r
            r = self._abs(['crate'] + u.split('::') + segs[1:], seen, depth)
            if r:
                return r
        for g in self.globs.get(mod, []):
            r = self.resolve(mod, g.split('::') + segs, seen, depth + 1)
            if r:
                return r
        if self.lang == 'ts' and '::' in mod:
            return self.resolve(mod.rsplit('::', 1)[0], segs, seen, depth + 1)    # enclosing namespace
        return None

    def _abs(self, segs, seen, depth):
        """Follow absolute segs through re-exports."""
        p = '::'.join(segs)
        if p in self.items and self.items[p][0]['k'] != 'mod' or p in self.fns:
            return p
        if p in self.mods:
            return p
        # longest module prefix
        for i in range(len(segs) - 1, 0, -1):
            m = '::'.join(segs[:i])
            if m in self.mods:
                rest = segs[i:]
                if i == len(segs):
                    return m
                r = None
                u = self.uses.get(m, {}).get(rest[0])
                if u:
                    r = self.resolve(m, u.split('::') + rest[1:], seen, depth + 1)
                if not r:
                    for g in self.globs.get(m, []):
                        r = self.resolve(m, g.split('::') + rest, seen, depth + 1)
                        if r:
                            break
                if r:
                    return r
                # enum variant / associated item
                if len(rest) >= 2:
                    base = '::'.join(segs[:i + 1])
                    if base in self.items:
                        return p
                break
            if m in self.items:
                return p
        return None

    def unique(self, name, kinds=None):
        if getattr(self, 'strict', False):
            return None     # names are looked up the way the compiler does, or not at all
        c = [a for a in self.by_name.get(name, []) if kinds is None or self.items[a][0]['k'] in kinds]
        return c[0] if len(c) == 1 else None

    def resolve_type(self, ty, mod, selfty=None):
        if ty is None or ty.name == '?':
            return UNKNOWN
        n = ty.name
        if n == 'Self' and selfty:
            return Ty(selfty)
        args = [self.resolve_type(a, mod, selfty) for a in ty.args]
        if n in _PRIM:
            return Ty(n, args)
        r = self.resolve(mod, n.split('::'))
        if not r:
            last = n.split('::')[-1]
            if last in _PRIM:
                return Ty(last, args)
            r = self.unique(last, ('struct', 'enum', 'trait', 'type', 'class', 'interface', 'tsenum'))
        if r and r in self.items:
            it = self.items[r][0]
            if it['k'] == 'type':
                p = parse_rs_type(it['ty']) if self.lang == 'rs' else parse_ts_type(it['ty'])
                return self.resolve_type(p, self.items[r][1], selfty) if p.name != n else Ty(n, args)
            return Ty(r, args)
        return Ty(n, args)

    def parse_type(self, s, mod, selfty=None):
        p = parse_rs_type(s) if self.lang == 'rs' else parse_ts_type(s)
        return self.resolve_type(p, mod, selfty)

    def field_type(self, ty, name):
        it = self.items.get(ty.name)
        if not it:
            if ty.name == 'tuple' and name.isdigit() and int(name) < len(ty.args):
                return ty.args[int(name)]
            return UNKNOWN
        node, mod, _ = it
        if node['k'] == 'struct':
            for n, t in node['f']:
                if n == name:
                    return self.parse_type(t, mod, ty.name)
        if node['k'] == 'class':
            for f in node['fields']:
                if f['n'] == name:
                    return self.parse_type(f['ty'], mod, ty.name)
            for x in node['items']:
                if x['n'] == 'constructor':
                    for p in x['params']:
                        if p.get('prop') and p['pat'].get('n') == name:
                            return self.parse_type(p['ty'], mod, ty.name)
            if node.get('ext'):
                b = self.parse_type(node['ext'], mod)
                if b.name != ty.name:
                    return self.field_type(b, name)
        if node['k'] == 'interface':
            for f in node['members']:
                if f['n'] == name:
                    return self.parse_type(f['ty'], mod, ty.name)
        return UNKNOWN

    def variant(self, ty, vname):
        it = self.items.get(ty.name)
        if it and it[0]['k'] == 'enum':
            for v in it[0]['v']:
                if v['n'] == vname:
                    return v, it[1]
        return None, None

    def method(self, ty, name):
        """Method implementation for a receiver of type ty."""
        c = self.__dict__.setdefault('_mc', {})
        k = (ty, name)
        if k not in c:
            c[k] = self._method(ty, name)
        return c[k]

    def _method(self, ty, name):
        seen = set()
        while ty and ty.name not in seen:
            seen.add(ty.name)
            k = self.type_key(ty)
            f = self.methods.get(k, {}).get(name)
            if f:
                return f
            it = self.items.get(ty.name)
            if it and it[0]['k'] == 'class' and it[0].get('ext'):
                ty = self.parse_type(it[0]['ext'], it[1])
                continue
            break
        # trait default methods of the traits the type implements
        if ty:
            for trait, tys, mod, path, node in self.impls:
                if trait and self.resolve_type(parse_rs_type(tys), mod).name == ty.name:
                    tr = self.resolve_type(parse_rs_type(trait), mod)
                    f = self.methods.get(tr.name, {}).get(name)
                    if f:
                        return f
        return None


def load_cli():
    p = Program('rs')
    p.load_rs_crate(os.path.join(front.REPO, 'cli/src/main.rs'))
    p.finish()
    return p
