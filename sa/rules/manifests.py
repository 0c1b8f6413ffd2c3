"""M01: what is written back into Cargo.toml / package.json is what was read, with the required dependencies set."""
import json, posixpath, re, tomllib
from .. import subject, wf, proj
from ..interp import Interp
from ..terms import *
from ..worlds import norm
from ..sat import sat, under
from .files import functions, walk
from .cli import reaches, destructive, conj, exists_of
from .parsers import short

SECTION = 'dependencies'
VARIANT = {dict: ('Table', 'Object'), str: ('String',), list: ('Array',), bool: ('Boolean', 'Bool'), int: ('Integer', 'Number'), float: ('Float', 'Number'), type(None): ('Null',)}
PASS = ('clone', 'cloned', 'copied', 'to_owned', 'to_string', 'to_vec', 'as_ref', 'as_mut', 'as_str', 'iter', 'into_iter', 'iter_mut', 'borrow', 'into', 'as_deref', 'as_deref_mut', 'take', 'to_string_lossy', 'entries')


class Cannot(Exception):
    pass


class Doc(object):
    """evaluates the content written over one kind of manifest"""

    def __init__(self, I, doc, source):
        self.I, self.doc, self.source, self.env, self.loc = I, doc, source, {}, {}

    def tag(self, v, names):
        return isinstance(v, tuple) and len(v) >= 1 and v[0] in names

    def ev(self, t):
        k = (t, tuple(sorted((str(a), id(b)) for a, b in self.loc.items())))
        m = getattr(self, 'o_' + t.op, None)
        if t is self.source:
            return ('Ok', self.doc)
        if m is None:
            raise Cannot(t.op)
        return m(t)

    def o_str(self, t): return t.a[0]
    def o_char(self, t): return t.a[0]
    def o_int(self, t): return t.a[0]
    def o_bool(self, t): return t.a[0]
    def o_emptymap(self, t): return {}
    def o_unit(self, t): return ('unit',)
    def o_utf8(self, t): return self.ev(t.a[0])
    def o_entries(self, t): return self.ev(t.a[0])

    def o_keys(self, t):
        return list(self.table(t.a[0]).keys())

    def o_values(self, t):
        return list(self.table(t.a[0]).values())

    def o_cat(self, t):
        if t.a[0] != 'v':
            raise Cannot('cat')
        out, table = [], None
        for i, p in enumerate(t.a[1]):
            v = self.parts(p)
            if i == 0 and isinstance(v, dict):
                table = dict(v)         # a table that is extended
            elif table is not None:
                table.update(v if isinstance(v, dict) else self.pairs(v))
            else:
                out += [('tuple', k, x) for k, x in v.items()] if isinstance(v, dict) else v
        return out if table is None else table

    def parts(self, p):
        if p.op == 'one':
            return [self.ev(p.a[0])]
        if p.op == 'for':
            lvl, base, inner, brk = p.a
            if brk is not FALSE:
                raise Cannot('for')
            base = base.a[0] if base.op in ('keys', 'values', 'entries') else base
            out = []
            old = self.loc.get((lvl, base))
            try:
                for i in range(len(self.items(base))):
                    self.loc[(lvl, base)] = i
                    v = self.parts(inner)
                    out += v if isinstance(v, list) else [('tuple', k, x) for k, x in v.items()]
            finally:
                self.loc[(lvl, base)] = old
            return out
        if p.op == 'ite':
            return self.parts(p.a[1] if self.ev(p.a[0]) else p.a[2])
        v = self.ev(p)
        if not isinstance(v, (list, dict)):
            raise Cannot('part')
        return v

    def pairs(self, v):
        if isinstance(v, list) and all(self.tag(x, ('tuple',)) and len(x) == 3 and isinstance(x[1], str) for x in v):
            return {x[1]: x[2] for x in v}
        return v

    def table(self, t):
        v = self.ev(t)
        if self.tag(v, ('Ok', 'Some')):
            v = v[1]
        v = self.pairs(v)
        if not isinstance(v, dict):
            raise Cannot('table')
        return v

    def o_ctor(self, t):
        n = short(t.a[0])
        if n in ('Ok', 'Some', 'Err'):
            return (n, self.ev(t.a[1]) if len(t.a) > 1 else ('unit',))
        if n == 'None':
            return ('None',)
        if n in ('Table', 'Object') and len(t.a) == 2:
            return self.table(t.a[1])
        if n in ('String', 'Array', 'Integer', 'Number', 'Boolean', 'Bool') and len(t.a) == 2:
            return self.ev(t.a[1])
        if n == 'Null':
            return None
        raise Cannot(n)

    def variant(self, name, v):
        n = short(name)
        if n in ('Ok', 'Some', 'Err', 'None'):
            if isinstance(v, tuple):
                return v[0] == n or n in ('Ok', 'Some') and v[0] in ('Ok', 'Some') or n in ('Err', 'None') and v[0] in ('Err', 'None')
            return n in ('Ok', 'Some')
        if isinstance(v, tuple):
            raise Cannot('variant')
        return n in VARIANT.get(type(v), ())

    def o_is(self, t):
        return self.variant(t.a[0], self.ev(t.a[1]))

    def o_proj(self, t):
        n = short(t.a[0])
        v = self.ev(t.a[2])
        if n in ('Ok', 'Some', 'Err') and isinstance(v, tuple):
            if (v[0] in ('Ok', 'Some')) != (n != 'Err') or len(v) < 2:
                raise Cannot('proj')
            return v[1]
        return v

    def o_ite(self, t):
        return self.ev(t.a[1]) if self.ev(t.a[0]) else self.ev(t.a[2])

    def o_and(self, t):
        return all(self.ev(x) for x in t.a)

    def o_or(self, t):
        return any(self.ev(x) for x in t.a)

    def o_not(self, t):
        return not self.ev(t.a[0])

    def __eq(self, t):
        return self.ev(t.a[0]) == self.ev(t.a[1])

    def o_ins(self, t):
        d = dict(self.table(t.a[0]))
        d[self.key(t.a[1])] = self.ev(t.a[2])
        return d

    def key(self, t):
        k = self.ev(t)
        if not isinstance(k, str):
            raise Cannot('key')
        return k

    def o_del(self, t):
        d = dict(self.table(t.a[0]))
        d.pop(self.key(t.a[1]), None)
        return d

    def o_index(self, t):
        d = self.table(t.a[0])
        k = self.key(t.a[1])
        if k not in d:
            raise Cannot('index')
        return d[k]

    def o_len(self, t):
        return len(self.ev(t.a[0]))

    def o_tuple(self, t):
        return tuple(['tuple'] + [self.ev(x) for x in t.a])

    def o_field(self, t):
        v = self.ev(t.a[0])
        if self.tag(v, ('tuple',)) and str(t.a[1]).isdigit():
            return v[1 + int(t.a[1])]
        raise Cannot('field')

    def items(self, t):
        v = self.ev(t)
        if isinstance(v, dict):
            return [('tuple', k, x) for k, x in v.items()]
        if isinstance(v, list):
            return v
        raise Cannot('items')

    def o_elem(self, t):
        lvl, c = t.a
        base = c.a[0] if c.op in ('keys', 'values', 'entries') else c
        i = self.loc.get((lvl, base))
        if i is None:
            raise Cannot('elem')
        return self.items(c)[i]

    def o_lv(self, t):
        k = (t.a[0], t.a[1])
        if k not in self.env:
            raise Cannot('lv')
        return self.env[k]

    def o_exists(self, t):
        base, lvl, body = t.a
        base = base.a[0] if base.op in ('keys', 'values', 'entries') else base
        n = len(self.items(base))
        old = self.loc.get((lvl, base))
        try:
            for i in range(n):
                self.loc[(lvl, base)] = i
                if self.ev(body):
                    return True
            return False
        finally:
            self.loc[(lvl, base)] = old

    def o_lout(self, t):
        uid, name = t.a[0], t.a[1]
        li = self.I.loopinfo.get(uid)
        if li is None:
            raise Cannot('loop')
        base = li['base']
        base = base.a[0] if base.op in ('keys', 'values', 'entries') else base
        n = len(self.items(base))
        lvl = li['level']
        names = {'.'.join(k): k for k in li['init']}
        cur = {nm: self.ev(norm(li['init'][k])) for nm, k in names.items()}
        old = self.loc.get((lvl, base))
        try:
            for i in range(n):
                self.loc[(lvl, base)] = i
                for nm in names:
                    self.env[(uid, nm)] = cur[nm]
                if any(self.ev(norm(b)) for b in li['brk']):
                    break
                cur = {nm: self.ev(norm(li['next'][k])) for nm, k in names.items() if li['next'][k] is not None}
        finally:
            self.loc[(lvl, base)] = old
            for nm in names:
                self.env.pop((uid, nm), None)
        if name not in cur:
            raise Cannot('loop')
        return cur[name]

    def o_skip(self, t):
        return self.items(t.a[0])[self.ev(t.a[1]):]

    def o_rev(self, t):
        return self.items(t.a[0])[::-1]

    def o_found(self, t):
        raise Cannot('found')

    def o_cast(self, t):
        return self.ev(t.a[1])

    def o_call(self, t):
        n = str(t.a[0]).split('::')
        if n[-1] in ('new', 'with_capacity', 'default') and len(n) > 1 and n[-2].endswith('Map') or n[-2:] == ['Value', 'default'] and False:
            return {}
        if n[-1] in ('from_str', 'from_slice') and len(t.a) == 2:
            return self.parsed(t.a[1])
        if n[-1] in ('Table', 'Object', 'String', 'from') and len(t.a) == 2:
            return self.ev(t.a[1])
        if n[-1] in ('to_string_pretty', 'to_string', 'to_vec_pretty', 'to_vec'):
            return ('Ok', self.ev(t.a[1]))
        raise Cannot(t.a[0])

    def text(self, n, v, a):
        if n == 'len':
            return len(v.encode())
        if n == 'trim':
            return v.strip()
        if not a:
            return v.lower() if 'lower' in n else v.upper()
        x = self.ev(a[0])
        if not isinstance(x, str):
            raise Cannot(n)
        if n == 'contains':
            return x in v
        if n == 'eq_ignore_ascii_case':
            return x.lower() == v.lower()
        hit = v.startswith(x) if n in ('starts_with', 'strip_prefix') else v.endswith(x)
        if n.startswith('strip'):
            return ('None',) if not hit else ('Some', v[len(x):] if n == 'strip_prefix' else v[:len(v) - len(x)])
        return hit

    def parsed(self, t):
        if t.op != 'str':
            raise Cannot('parse')
        try:
            return ('Ok', json.loads(t.a[0]))
        except ValueError:
            try:
                return ('Ok', tomllib.loads(t.a[0]))
            except ValueError:
                return ('Err', 'parse')

    def o_mcall(self, t):
        r, n, a = t.a[0], t.a[1], [x for x in t.a[2:] if isinstance(x, T)]
        if n.split(':')[0] == 'parse':
            return self.parsed(r)
        if n in ('skip', 'take', 'rev', 'step_by') and (a or n == 'rev'):
            v = self.items(r)
            k = self.ev(a[0]) if a else 0
            return v[k:] if n == 'skip' else v[:k] if n == 'take' else v[::k] if n == 'step_by' else v[::-1]
        if n in ('is_string', 'is_str', 'is_array', 'is_number', 'is_integer', 'is_null', 'is_boolean', 'is_bool'):
            v = self.ev(r)
            return isinstance(v, {'is_string': str, 'is_str': str, 'is_array': list, 'is_null': type(None), 'is_boolean': bool, 'is_bool': bool}.get(n, int))
        if n in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case', 'strip_prefix', 'strip_suffix', 'to_lowercase', 'to_ascii_lowercase', 'to_uppercase', 'to_ascii_uppercase', 'trim', 'len'):
            v = self.ev(r)
            if isinstance(v, str):
                return self.text(n, v, a)
            if n == 'contains' and isinstance(v, list):
                return self.ev(a[0]) in v
        if n in PASS:
            return self.ev(r)
        if n in ('get', 'get_mut', 'remove'):
            d = self.ev(r)
            d = d[1] if self.tag(d, ('Ok', 'Some')) else d
            if not isinstance(d, dict):
                return ('None',)
            k = self.key(a[0])
            return ('Some', d[k]) if k in d else ('None',)
        if n == 'contains_key':
            return self.key(a[0]) in self.table(r)
        if n in ('as_table', 'as_object', 'as_table_mut', 'as_object_mut'):
            v = self.ev(r)
            return ('Some', v) if isinstance(v, dict) else ('None',)
        if n in ('is_table', 'is_object'):
            return isinstance(self.ev(r), dict)
        if n in ('is_none', 'is_some', 'is_ok', 'is_err'):
            return self.variant({'is_none': 'None', 'is_some': 'Some', 'is_ok': 'Ok', 'is_err': 'Err'}[n], self.ev(r))
        if n == 'is_empty':
            return not self.ev(r)
        if n in ('unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'or_insert', 'or_insert_with'):
            v = self.ev(r)
            if self.tag(v, ('Ok', 'Some')):
                return v[1]
            if n == 'unwrap_or':
                return self.ev(a[0])
        if n in ('ok', 'map_err', 'ok_or', 'ok_or_else'):
            v = self.ev(r)
            if self.tag(v, ('Ok', 'Some')):
                return ('Some' if n == 'ok' else 'Ok', v[1])
        raise Cannot(n)


setattr(Doc, 'o_==', Doc._Doc__eq)


def manifests(words, required):
    """the kinds of manifests a user may have"""
    req = sorted(required)
    other = {'%other': '%1', '%more': {'version': '%2', 'features': ['%3']}}
    deps = [None, {}, dict(other), dict({k: '%own' for k in req}, **other), dict({k: {'version': '%own'} for k in req[:1]}, **other), {k: required[k] for k in req}]
    near = [x for w in sorted(words) for x in (w + '%', '%' + w, w[:1] + '%', '%' + w[-1:], w.upper(), w.capitalize()) if x not in words]
    other.update({k: '%4' for k in near + ['@x/y', 'x-y', 'x_y', 'X', 'x9']})
    deps = deps[:2] + [dict(other, **{k: v for k, v in d.items()}) if d else d for d in deps[2:5]] + deps[5:]
    rest = {'%section': {'%key': '%value'}, '%plain': '%text', '%list': ['%a']}
    rest.update({k: {'%key': '%value'} for k in near + ['dev-dependencies', 'build-dependencies', 'devDependencies', 'peerDependencies', 'package', 'workspace', 'features', 'profile', 'scripts']})
    for w in sorted(words - {SECTION}):
        rest[w] = {'%key': '%value', '%other': '%9'}
    bare = {w: ('%plain' if i % 2 else ['%item']) for i, w in enumerate(sorted(words - {SECTION}))}
    for d in deps:
        for r in (rest, bare, {}):
            m = dict(r)
            if d is not None:
                m[SECTION] = d
            yield m
    # first in the file
    yield dict({SECTION: dict(other)}, **rest)


def M01(ctx):
    P = subject.cli()
    inside = lambda f: '/workflow/render/' in f.file or '/helpers/' in f.file
    deep = {(f.file, f.node.get('l')) for f in reaches(P, ('read_to_string', 'read_to_end', 'read'), inside)}
    hot = {(f.file, f.node.get('l')) for f in reaches(P, wf.DESTROY + ('write_all', 'open'), lambda f: '/helpers/' in f.file)}
    n = 0
    for side in ('producer', 'consumer'):
        for lang in ('rs', 'ts'):
            try:
                root = wf.find_root(P, side, lang)
            except wf.Stuck as e:
                ctx.missing(str(e))
                continue
            shown = '%s %s' % ({'rs': 'Rust', 'ts': 'TypeScript'}[lang], side)
            I = Interp(P, opaque=lambda f: f is not root and (f.file, f.node.get('l')) not in deep and (f.file, f.node.get('l')) not in hot)
            I.run_fn(root)
            reads = [e for e in I.events if e.kind == 'call' and e.val is not None and str(e.name).split('::')[-1] in ('read_to_string', 'read') and e.args]
            done = 0
            for e in I.events:
                if e.kind != 'call' or str(e.name).split('::')[-1] not in ('write_all', 'write') or not e.args:
                    continue
                content = norm(e.args[-1])
                src = [r for r in reads if norm(r.val) in subterms(content)]
                if not src:
                    continue
                done += 1
                one(ctx, I, e, content, src, side, lang, '%s:%d' % (shown, done), shown)
            n += done
            # a manifest that is read, and another thing is written in its place
            if not done:
                bad = [e for e in I.events for r in reads if destructive(e) and norm(e.args[0]) is norm(r.args[0])]
                if bad:
                    ctx.bad('kept', shown, '%s: the manifest is replaced by a text that does not come from it' % shown, bad[0].where())
                else:
                    ctx.missing('%s: where the manifest is written' % shown)
    ctx.count('manifests updated', n)
    ctx.floor('manifests updated', n, 4)


def last(q):
    return str(q.a[0] if q.op == 'call' else q.a[1]).split('::')[-1].split(':')[0]


def one(ctx, I, e, content, src, side, lang, key, shown):
    paths = {norm(r.args[0]) for r in src}
    for r in src:
        t = norm(r.val)
        p = norm(r.args[0])
        # steps that may fail before the text is there
        steps = [t] + [q for q in subterms(content) if q.op in ('call', 'mcall') and q is not t and last(q) in ('parse', 'from_str', 'from_slice', 'to_string', 'to_string_pretty', 'to_vec', 'to_vec_pretty', 'from_utf8', 'try_from', 'try_into') and t in subterms(q) and any(y.op == 'proj' and y.a[0] in ('Ok',) and y.a[2] is q for y in subterms(content))]
        hits = [x for x in I.events if x.kind == 'call' and destructive(x) and norm(x.args[0]) is p]
        wr = [x for x in subterms(norm(e.recv)) if x is p] if e.recv is not None else [p] if norm(e.args[0]) is p else []
        if not wr:
            ctx.undecided('target', '%s: another file is written than was read' % key)
            continue
        for q in steps:
            fx = lambda x: FALSE if x.op == 'is' and x.a[1] is q and x.a[0] == 'Ok' else TRUE if x.op == 'is' and x.a[1] is q and x.a[0] == 'Err' else None
            what = last(q)
            for x in hits + [e]:
                s = sat(under(conj(x.pc), fx))
                ctx.count('steps before the manifest is touched')
                if s is None:
                    ctx.undecided('touched', '%s:%s' % (key, what))
                else:
                    ctx.check(s is False, 'touched', '%s:%s' % (shown, what), '%s: the manifest is replaced (%s) also when %s failed' % (shown, x.name, what), x.where())
        # nothing of the old text stays behind the new one
        if str(e.name).split('::')[-1] == 'write_all':
            recv = norm(e.recv)
            opens = [y for y in subterms(recv) if y.op in ('mcall', 'call')]
            cut = any(y.op == 'mcall' and y.a[1] in ('truncate', 'create_new') and y.a[2] is TRUE for y in opens) or any(y.op == 'call' and str(y.a[0]).endswith('File::create') for y in opens)
            if not cut:
                gone = [x for x in hits if str(x.name).split('::')[-1] == 'remove_file' and I.events.index(x) < I.events.index(e)]
                fx = lambda y: TRUE if exists_of(y, p) else FALSE if y.op == 'is' and y.a[0] == 'Ok' and any(norm(g.val) is y.a[1] for g in gone) else None
                s = sat(under(conj(e.pc), fx))
                if s and not gone or s:
                    ctx.bad('whole', shown, '%s: the new text is written over the old one, the end of a longer old text stays' % shown, e.where())
                elif s is None:
                    ctx.undecided('whole', key)
                else:
                    ctx.ok('whole', key)
            else:
                ctx.ok('whole', key)
    # the document
    doc = content
    while doc.op == 'utf8' or doc.op == 'cat' and doc.a[0] == 's' and len([x for x in doc.a[1] if x.op != 'str']) == 1 and all(x.op != 'str' or not x.a[0].strip() for x in doc.a[1]):
        doc = doc.a[0] if doc.op == 'utf8' else [x for x in doc.a[1] if x.op != 'str'][0]
    sources = [q for q in subterms(doc) if q.op in ('mcall', 'call') and last(q) in ('parse', 'from_str', 'from_slice') and any(norm(r.val) in subterms(q) for r in src)]
    static = [q for q in subterms(doc) if q.op == 'str' and len(q.a[0]) > 20]
    if len(set(sources)) != 1:
        return ctx.undecided('kept', '%s: what the text is made of' % key)
    required = {}
    for q in static:
        for p in (json.loads, tomllib.loads):
            try:
                required.update(p(q.a[0]))
            except ValueError:
                pass
    if not required:
        return ctx.undecided('set', '%s: the dependencies required' % key)
    complete(ctx, required, side, lang, shown)
    words = {q.a[0] for q in subterms(doc) if q.op == 'str' and len(q.a[0]) <= 40 and q not in static}
    n = 0
    for m in manifests(words, required):
        n += 1
        want = dict(m)
        want[SECTION] = dict(m.get(SECTION) or {}, **required)
        try:
            got = Doc(I, m, sources[0]).ev(doc)
        except Cannot as c:
            ctx.undecided('kept', '%s: %s' % (key, c))
            return
        if isinstance(got, tuple) and got and got[0] == 'Ok':
            got = got[1]
        if not isinstance(got, dict):
            ctx.undecided('kept', '%s: %r' % (key, type(got)))
            return
        lost = [k for k in want if k != SECTION and got.get(k) != want[k]] + [k for k in got if k not in want]
        d, w = got.get(SECTION), want[SECTION]
        d = d if isinstance(d, dict) else {}
        gone = [k for k in w if k not in required and d.get(k) != w[k]] + [k for k in d if k not in w]
        unset = [k for k in required if d.get(k) != required[k]]
        ctx.check(not lost, 'kept', '%s:sections' % shown, '%s: the section %s of the manifest is not what it was' % (shown, (lost or [''])[0]), e.where())
        ctx.check(not gone, 'kept', '%s:dependencies' % shown, '%s: the dependency %s of the user is not what it was' % (shown, (gone or [''])[0]), e.where())
        ctx.check(not unset, 'set', shown, '%s: the required dependency %s is not set' % (shown, (unset or [''])[0]), e.where())
    ctx.count('kinds of manifests', n)


def complete(ctx, required, side, lang, shown):
    """the generated code uses no library that is not among the required ones"""
    try:
        p = proj.project(side, lang)
    except wf.Stuck as e:
        return ctx.undecided('complete', str(e))
    used = {}
    if lang == 'ts':
        for n, t in p.trees.items():
            for it in t.get('items') or []:
                if it.get('k') in ('use', 'export') and it.get('from') and not it['from'].startswith('.'):
                    f = it['from'].split('/')
                    used.setdefault('/'.join(f[:2]) if f[0].startswith('@') else f[0], n)
    else:
        local = {'std', 'core', 'alloc', 'crate', 'self', 'super', 'Self', 'str', 'char', 'bool', 'f32', 'f64'} | {a + b for a in 'iu' for b in ('8', '16', '32', '64', '128', 'size')}
        paths = []
        for n, t in p.trees.items():
            local |= {x.split('.')[0] for x in n.split('/')}
            for x in walk(t.get('items')):
                if x.get('k') == 'mod':
                    local.add(x.get('n'))
                if x.get('k') == 'use':
                    for u in x.get('u') or []:
                        paths.append((n, u[1], True))
                        if '::' in u[1]:
                            local.add(u[0])
                elif '::' in str(x.get('p') or '') and x.get('k') in ('path', 'call'):
                    paths.append((n, x['p'], False))
        for n, q, use in paths:
            first = re.match(r'^(?:::)?([a-z_]\w*)::', q + '::' if use else q)
            first = first and first.group(1)
            if first and (first not in local):
                used.setdefault(first, n)
    ctx.floor('libraries used by the generated code (%s)' % shown, len(used), 1)
    names = {k.replace('-', '_') if lang == 'rs' else k for k in required}
    for u, where in sorted(used.items()):
        ctx.count('libraries used by the generated code')
        ctx.check(u in names or u in ('fs', 'path', 'os', 'crypto', 'events', 'util', 'net', 'buffer') and lang == 'ts', 'complete', '%s:%s' % (shown, u), '%s: %s is used by the generated code (%s), but not among the dependencies set' % (shown, u, posixpath.basename(where)), None)
