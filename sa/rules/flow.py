"""V03: the model of a workflow says what its text says."""
from .. import subject
from ..interp import Interp
from ..terms import *
from ..worlds import norm
from ..sat import sat, under
from .files import functions
from .parsers import short, entities
from .protparse import items
from .reflect import Exact, Unknown, Refused, lst, part, strip, inside, added, returns, is_ok, flat, ahead

# what a workflow consists of: how a declaration is opened, and what is read
PUNCT = {'{': 'Open', '}': 'Close', '(': 'OpenBracket', ')': 'CloseBracket', '>': 'Arrow', '!': 'Exclamation', '?': 'Question', ';': 'Semicolon', '.': 'PathDelimiter', ':': 'ValueDelimiter'}
WORDS = ('rust', 'typescript', 'Producer', 'Consumer', 'SelfKey', 'AssignedKey', 'connected', 'disconnected')


class Known(Exact):
    """every name is declared by the protocol"""
    def call_fn(self, fn, args, st, n, **kw):
        if fn.name in ('find_by_str_path', 'find_by_path') and fn.owner and '::protocol::' in fn.owner:
            return ctor('Some', mk('sym', 'FOUND'))
        if fn.owner and '::protocol::' in fn.owner and short(fn.owner) == 'Store':
            self.told.append((fn.name, tuple(norm(a) for a in args)))
            return UNIT
        return Exact.call_fn(self, fn, args, st, n, **kw)

    def m_is_empty(self, r, a, st, n, rp):
        x = spelled(norm(r))
        if x is None:
            x = items(norm(r))
        return Exact.m_is_empty(self, r, a, st, n, rp) if x is None else Bool(not x)

    def cut(self, r, n):
        """a text without its first letters"""
        l = spelled(norm(r))
        return None if l is None or n > len(l) or any(isinstance(x, T) for x in l[:n]) else made(l[n:])

    def starts(self, r, x):
        l, x = spelled(norm(r)), norm(x)
        if l is None or x.op not in ('char', 'str') or len(x.a[0]) != 1:
            return None
        if not l:
            return False
        return l[0] == x.a[0] if not isinstance(l[0], T) else False if not x.a[0].isalnum() else None

    def m_starts_with(self, r, a, st, n, rp):
        v = self.starts(r, a[0]) if len(a) == 1 else None
        return None if v is None else Bool(v)

    def m_strip_prefix(self, r, a, st, n, rp):
        v = self.starts(r, a[0]) if len(a) == 1 else None
        return None if v is None else ctor('Some', self.cut(r, 1)) if v else ctor('None')

    def m_trim_start_matches(self, r, a, st, n, rp):
        v = self.starts(r, a[0]) if len(a) == 1 else None
        return None if v is None else self.cut(r, 1) if v else r

    def mk_index(self, b, i):
        k = norm(i)
        if k.op == 'range' and norm(k.a[0]).op == 'int' and spelled(norm(b)) is not None and (len(k.a) < 2 or not isinstance(k.a[1], T) or k.a[1].op in ('len', 'none', 'unit') and (k.a[1].op != 'len' or norm(k.a[1].a[0]) is norm(b)) or k.a[1].op == 'int' and k.a[1].a[0] == len(spelled(norm(b)))):
            c = self.cut(b, norm(k.a[0]).a[0])
            if c is not None:
                return c
        return Exact.mk_index(self, b, i)

    def letters(self, r, f, st, n):
        """what a test says of every letter of a text; the letters of a word are all alike"""
        l = spelled(norm(r.a[0])) if r.op == 'chars' else None
        if l is None:
            return None
        out = []
        for x in l:
            c = mk('char', 'a' if isinstance(x, T) else x)
            v = norm(under(norm(self.apply(f, [c], st, n)), alike))
            if v not in (TRUE, FALSE):
                return None
            out.append(v is TRUE)
        return out

    def m_split(self, r, a, st, n, rp):
        l, c = spelled(norm(r)), norm(a[0]) if len(a) == 1 else None
        if l is None or c is None or c.op not in ('char', 'str') or len(c.a[0]) != 1 or c.a[0].isalnum():
            return Exact.m_split(self, r, a, st, n, rp)
        out = [[]]
        for x in l:
            if x == c.a[0]:
                out.append([])
            else:
                out[-1].append(x)
        return lst(*[made(x) for x in out])

    def m_rsplit(self, r, a, st, n, rp):
        l = self.m_split(r, a, st, n, rp)
        return lst(*reversed(items(l))) if l is not None and items(l) is not None else None

    def m_next(self, r, a, st, n, rp):
        l = items(norm(r))
        return self.less(norm(r), a, st, rp, 0) and ctor('Some', l[0]) if l and rp is not None else ctor('Some', l[0]) if l else ctor('None') if l == () else getattr(Exact, 'm_next', lambda *a: None)(self, r, a, st, n, rp)

    def m_join(self, r, a, st, n, rp):
        l, c = items(norm(r)), norm(a[0]) if len(a) == 1 else None
        t = [spelled(norm(x)) for x in l] if l is not None else [None]
        if None in t or c is None or c.op != 'str':
            return Exact.m_join(self, r, a, st, n, rp)
        return made([y for i, x in enumerate(t) for y in (list(c.a[0]) if i else []) + x])

    def m_concat(self, r, a, st, n, rp):
        return self.m_join(r, [Str('')], st, n, rp) if not a and items(norm(r)) is not None else None

    def m_all(self, r, a, st, n, rp):
        l = self.letters(r, a[0], st, n) if a else None
        return Exact.m_all(self, r, a, st, n, rp) if l is None else Bool(all(l))

    def m_any(self, r, a, st, n, rp):
        l = self.letters(r, a[0], st, n) if a else None
        return Exact.m_any(self, r, a, st, n, rp) if l is None else Bool(any(l))


CLASS = {'is_ascii': lambda c: True, 'is_ascii_digit': str.isdigit, 'is_numeric': str.isdigit, 'is_ascii_whitespace': str.isspace, 'is_whitespace': str.isspace, 'is_ascii_alphanumeric': str.isalnum, 'is_alphanumeric': str.isalnum,
         'is_ascii_alphabetic': str.isalpha, 'is_alphabetic': str.isalpha, 'is_ascii_punctuation': lambda c: not c.isalnum() and not c.isspace()}


def alike(x):
    if x.op == 'mcall' and len(x.a) == 2 and x.a[0].op == 'char' and x.a[1] in CLASS:
        return Bool(CLASS[x.a[1]](x.a[0].a[0]))
    if x.op == 'call' and len(x.a) == 2 and x.a[1].op == 'char' and short(x.a[0]) in CLASS:
        return Bool(CLASS[short(x.a[0])](x.a[1].a[0]))
    return None


def made(l):
    out = []
    for x in l:
        if isinstance(x, T):
            out.append(x)
        elif out and out[-1].op == 'str':
            out[-1] = Str(out[-1].a[0] + x)
        else:
            out.append(Str(x))
    return Str('') if not out else out[0] if len(out) == 1 else mk('cat', 's', tuple(out))


def words(s):
    """the tokens of a declaration; a mark is one token, everything else a word"""
    out = []
    for x in s.split():
        cur = ''
        for c in x:
            if c in PUNCT:
                if cur:
                    out.append(cur)
                cur = ''
                out.append(c)
            else:
                cur += c
        if cur:
            out.append(cur)
    return out


def word(w):
    c = w.lstrip('@&')
    return Str(w) if c in WORDS or w in ('@beacons', '&config') else made([*w[:len(w) - len(c)], mk('word', c)])


def path(*ws):
    """how a name of several words is kept"""
    ps = []
    for w in ws:
        ps += ([Str('.')] if ps else []) + [word(w)]
    return ps[0] if len(ps) == 1 else mk('cat', 's', tuple(ps))


def same_text(a, b):
    x, y = spelled(strip(a)), spelled(strip(b))
    if x is None or y is None:
        raise Unknown(show(a)[:60])
    return x == y


class Reading:
    """the parts of the parser that read one kind of declaration"""
    def __init__(self, P, owner):
        self.P, self.owner, self.kind = P, owner, short(owner)
        self.fn = {}
        for f in functions(P):
            if f.owner == owner and f.name in ('open', 'next', 'closed', 'extract', 'new'):
                self.fn[f.name] = f
        for n in ('open', 'next', 'closed', 'extract'):
            if n not in self.fn:
                raise Unknown('%s of %s' % (n, self.kind))
        self.memo = {}

    def run(self, name, rec, args):
        k = (name, rec, tuple(args))
        if k in self.memo:
            return self.memo[k]
        f = self.fn[name]
        I = Known(self.P)
        I.told = []
        v, st = I.run_fn(f, args=list(args), **({} if rec is None else {'selfv': rec}))
        out = None
        if rec is not None:
            d = dict(rec.a[1])
            for p, x in st.env.items():
                if p[0].endswith('#self') and len(p) == 2:
                    d[p[1]] = norm(I.read(st, p))
            out = mk('slit', rec.a[0], tuple((n, d[n]) for n, _ in rec.a[1]))
        dead = st.dead or norm(And(*[norm(c) for c in st.pc])) is FALSE
        self.memo[k] = (None if v is None else norm(v), out, I, dead)
        return self.memo[k]

    def opened(self, w):
        v, _, I, dead = self.run('open', None, [word(w)])
        if v.op == 'ctor' and short(v.a[0]) == 'None':
            return None
        if v.op == 'ctor' and short(v.a[0]) == 'Some' and v.a[1].op == 'slit':
            return v.a[1]
        raise Unknown('whether %s opens with %s: %s' % (self.kind, w, show(v)[:80]))

    def closed(self, rec):
        v = self.run('closed', rec, [])[0]
        if v not in (TRUE, FALSE):
            raise Unknown('whether it is closed')
        return v is TRUE

    def step(self, t, rec):
        off = mk('sym', 'OFFSET')
        if t in PUNCT:
            e = ctor(PUNCT[t], off)
        else:
            e = ctor('Word', mk('tuple', word(t), off, ctor('None')))
        v, rec, I, dead = self.run('next', rec, [e, mk('sym', 'PROTOCOL')])
        if dead:
            raise Refused('the run ends')
        if v is None or v.op != 'ctor':
            raise Unknown('whether %s is taken: %s' % (t, show(v)[:80]))
        if short(v.a[0]) != 'Ok':
            raise Refused(show(v)[:90])
        if v.a[1] is not off:
            raise Refused('the reading goes on at %s' % show(v.a[1])[:40])
        return rec, I


class Declared:
    def __init__(self, ctx, R, text):
        """read a declaration: text like `A.B !C { (D > E) > F; }`"""
        self.ctx, self.R, self.text, self.ok, self.told = ctx, R, text, False, []
        ctx.count('declarations')
        ts = words(text)
        done = ts[0]
        try:
            rec = R.opened(ts[0])
            if rec is None:
                raise Refused('it does not open')
            for i, t in enumerate(ts[1:]):
                done += ' ' + t
                if R.closed(rec):
                    raise Refused('it ends early')
                rec, I = R.step(t, rec)
                self.told += I.told
            if not R.closed(rec):
                raise Refused('it does not end')
            v = R.run('extract', rec, [])[0]
            if v.op != 'ctor' or len(v.a) < 2 or v.a[-1].op not in ('slit', 'upd'):
                raise Unknown('what is made of it: %s' % show(v)[:80])
            self.out = v
            self.rec = v.a[-1]
            self.ok = True
            ctx.ok('accepted', text)
        except Refused as r:
            ctx.bad('accepted', text, '`%s` is refused at `%s`: %s' % (text, done[-40:], r), R.fn['next'].loc())
        except Unknown as r:
            ctx.undecided('accepted', '%s: %s' % (text, r))

    def get(self, n, of=None):
        return part(self.rec if of is None else of, n)

    def check(self, c, rule, msg):
        if c is None:
            self.ctx.undecided(rule, self.text)
        else:
            self.ctx.check(c, rule, self.text, '`%s`: %s' % (self.text, msg), self.R.fn['next'].loc())

    def name(self, *a):
        try:
            self.name_(*a)
        except Unknown as u:
            self.ctx.undecided(a[2], '%s: the %s %s' % (self.text, a[3], u))

    def broadcasts(self, *a):
        try:
            self.broadcasts_(*a)
        except Unknown as u:
            self.ctx.undecided('broadcasts', '%s: %s' % (self.text, u))

    def name_(self, t, ws, rule, what):
        """t is (maybe) the name ws; None: no name"""
        t = norm(t) if t is not None else None
        if t is None or t.op != 'ctor':
            self.check(None, rule, '')
        elif ws is None:
            self.check(short(t.a[0]) == 'None', rule, 'its %s is %s' % (what, show(t)[:60]))
        else:
            self.check(inside(t) is not None and same_text(inside(t), path(*ws.split('.'))), rule, 'its %s is %s' % (what, show(t)[:80]))

    def broadcasts_(self, l, want, what):
        """want: [(name, optional)]"""
        l = items(norm(l)) if l is not None else None
        if l is None:
            self.check(None, 'broadcasts', '')
            return
        self.check(len(l) == len(want), 'broadcasts', '%s has %d broadcasts' % (what, len(l)))
        if len(l) != len(want):
            return
        for b, (n, o) in zip(l, want):
            if b.op in ('slit', 'upd'):
                r, f = part(b, 'reference'), part(b, 'optional')
                self.check(None if f not in (TRUE, FALSE) or r is None else f is Bool(o) and same_text(r, path(*n.split('.'))), 'broadcasts', '%s has the broadcast %s%s instead of %s' % (what, show(r)[:50], '?' if f is TRUE else '', n + ('?' if o else '')))
            else:
                self.check(same_text(b, path(*n.split('.'))), 'broadcasts', '%s has the broadcast %s instead of %s' % (what, show(b)[:50], n))


def opt(b):
    return (b.rstrip('?'), b.endswith('?'))


NAMES = [('R', 'E'), ('G.R', 'G.E'), ('G.H.R', 'E')]
ACTIONS = [[('Yes', 'A', [])], [('Yes', 'G.A', ['B'])], [('Yes', 'A', ['B?'])], [('Yes', 'A', ['B', 'G.C?'])], [('Yes', 'A', ['B?', 'C'])], [(None, 'G.A', [])],
           [('Yes', 'A', []), ('No', 'D', [])], [('Yes', 'A', ['B']), ('No', 'D', ['B', 'C'])], [('Yes', 'A', ['G.B?', 'C']), ('No', 'A', []), ('Else', 'G.D', ['C?'])],
           [('Yes', 'A', []), ('No', 'D', ['B?'])], [('Yes', 'A', ['B', 'C', 'D']), ('No', 'D', [])]]


def requests(ctx, R):
    for i, acts in enumerate(ACTIONS):
        for r, e in (NAMES if i < 2 else NAMES[:1]):
            body = ' '.join('(%s%s)%s' % (c + ' > ' if c else '', a, '%s;' % ''.join('%s> %s' % ('; ' if k else ' ', b) for k, b in enumerate(bs)) if bs else ';') for c, a, bs in acts)
            d = Declared(ctx, R, '%s !%s { %s }' % (r, e, body))
            if not d.ok:
                continue
            d.name(d.get('request'), r, 'request', 'request')
            d.name(d.get('error'), e, 'request', 'error')
            l = items(d.get('broadcasts'))
            d.check(None if l is None else l == (), 'broadcasts', 'it has broadcasts apart from the conclusions')
            l = items(d.get('actions'))
            if l is None:
                d.check(None, 'actions', '')
                continue
            d.check(len(l) == len(acts), 'actions', 'it has %d conclusions' % len(l))
            if len(l) != len(acts):
                continue
            for x, (c, a, bs) in zip(l, acts):
                d.name(part(x, 'conclusion'), c, 'actions', 'conclusion')
                d.name(part(x, 'response'), a, 'actions', 'response')
                d.broadcasts(part(x, 'broadcast'), [opt(b) for b in bs], 'the conclusion %s' % c)


LISTS = [['B'], ['G.B'], ['B', 'C'], ['B', 'G.H.C', 'D']]


def events(ctx, R):
    for n in ('Ev', 'G.Ev', 'G.H.Ev', 'connected', 'disconnected'):
        for bs in LISTS + [['B?'], ['B?', 'C'], ['B', 'G.C?'], ['B?', 'C?', 'D']]:
            d = Declared(ctx, R, '@%s { %s }' % (n, ' '.join('> %s;' % b for b in bs)))
            if d.ok:
                d.name(d.get('reference'), n, 'event', 'message')
                d.broadcasts(d.get('broadcasts'), [opt(b) for b in bs], 'it')


def beacons(ctx, R):
    for bs in LISTS:
        d = Declared(ctx, R, '@beacons { %s }' % ' '.join('> %s;' % b for b in bs))
        if d.ok:
            d.broadcasts(d.get('beacons'), [(b, False) for b in bs], 'the list')


TARGET = {'rust': 'Rust', 'typescript': 'TypeScript'}


def configs(ctx, R):
    lines = {'p': [('Producer: rust;', ['rust']), ('Producer: typescript;', ['typescript']), ('Producer: rust typescript;', ['rust', 'typescript'])],
             'c': [('Consumer: rust;', ['rust']), ('Consumer: typescript;', ['typescript']), ('Consumer: typescript rust;', ['typescript', 'rust'])],
             's': [('', None), ('SelfKey: S;', 'S'), ('SelfKey: G.S;', 'G.S'), ('SelfKey: G.H.S;', 'G.H.S')], 'a': [('', None), ('AssignedKey: A;', 'A'), ('AssignedKey: G.A;', 'G.A')]}
    cases = [(i, j, k, l, o) for i in range(3) for j in range(3) for k in range(4) for l in range(3) for o in ('pcsa', 'sapc', 'cpas') if o == 'pcsa' or (i + j + k + l) % 3 == 0]
    for i, j, k, l, o in cases:
        if i == j == 2 and k + l > 2:
            continue
        d = {'p': lines['p'][i], 'c': lines['c'][j], 's': lines['s'][k], 'a': lines['a'][l]}
        c = Declared(ctx, R, '&config { %s }' % ' '.join(d[x][0] for x in o if d[x][0]))
        if not c.ok:
            continue
        for x, n in (('p', 'producer'), ('c', 'consumer')):
            v = items(c.get(n))
            c.check(None if v is None or any(y.op != 'ctor' for y in v) else sorted(short(y.a[0]) for y in v) == sorted(TARGET[y] for y in d[x][1]), 'targets', 'the targets of the %s are %s' % (n, [show(y)[:20] for y in v or ()]))
        made = [a[0] for n, a in c.told if n == 'add_service_struct' and a]
        for x, n in (('s', 'self_key'), ('a', 'assigned_key')):
            if d[x][1]:
                c.name(c.get(n), d[x][1], 'keys', n)
            else:
                v = inside(c.get(n)) if c.get(n) is not None else None
                c.check(None if v is None or strip(v).op != 'str' else any(y.op == 'str' and strip(v).a[0].split('.')[-1] == y.a[0] for y in made), 'keys', 'the %s that stands for the missing one is %s, which nobody declares' % (n, show(v)[:60]))


def opens(ctx, P, Rs):
    """which kind of declaration a word opens"""
    q = [f for f in functions(P) if f.name == 'parse' and f.owner and f.owner.endswith('::workflow::Parser')]
    if not q:
        ctx.missing('the parser of workflows')
        return
    I = Interp(P, opaque=lambda g: g is not q[0])
    I.run_fn(q[0])
    order = []
    for e in sorted((e for e in I.events if e.kind == 'call' and short(e.name or '') == 'open' and e.extra is not None), key=lambda e: e.seq):
        k = short(getattr(e.extra, 'owner', '') or '')
        if k not in order:
            order.append(k)
    for w, kind in (('&config', 'Config'), ('@beacons', 'Beacons'), ('@connected', 'Event'), ('@Ev', 'Event'), ('Req', 'Request')):
        try:
            yes = [k for k in Rs if Rs[k].opened(w) is not None]
        except Unknown as u:
            ctx.undecided('opens', '%s: %s' % (w, u))
            continue
        if len(yes) > 1:
            if not all(k in order for k in yes):
                ctx.undecided('opens', '%s: the order' % w)
                continue
            yes = sorted(yes, key=order.index)
        ctx.check(yes[:1] == [kind], 'opens', w, 'the word %s opens %s, not a %s' % (w, yes[0] if yes else 'nothing', kind.lower()), q[0].loc())
        ctx.count('words that open a declaration')
    return order


def kept(ctx, P, Rs):
    """what was read is put into the model, at the end of its list"""
    ms = {f.name: f for f in functions(P) if f.owner and f.owner.endswith('::workflow::store::Store')}
    owner = [f.owner for f in ms.values()]
    n = P.items[owner[0]][0] if owner and owner[0] in P.items else None
    if n is None:
        ctx.missing('the model of a workflow')
        return
    texts = {'Request': ['Q !E { (Yes > A); }', 'R !E { (Yes > A) > B; }'], 'Event': ['@Ev { > B; }', '@connected { > B; > C?; }'], 'Config': ['&config { Producer: rust; Consumer: rust; }'],
             'Beacons': ['@beacons { > X; > Y; > Z; }', '@beacons { > U; }', '@beacons { > I; > J; > G.K; > L; > M; > N; > G.O; > P; }']}
    for kind, ts in texts.items():
        recs = []
        for t in ts:
            d = Declared(ctx, Rs[kind], t)
            if d.ok:
                recs.append((t, d.rec))
        m = [f for f in ms.values() if any(short(str(p.get('ty')).replace(' ', '').replace('mut', '').lstrip('&')) == kind for p in f.node.get('params') or ())]
        m = [f for f in m if f.name.startswith(('add', 'set', 'push', 'insert'))]
        if len(m) != 1:
            ctx.undecided('kept', '%s: where it is put' % kind)
            continue
        rec = mk('slit', owner[0], tuple((x, ctor('None') if ty.replace(' ', '').startswith('Option') else lst() if ty.replace(' ', '').startswith('Vec') else mk('sym', 'S.' + x)) for x, ty in n['f']))
        before = rec
        had = []
        for t, r in recs:
            I = Known(P)
            I.told = []
            v, st = I.run_fn(m[0], args=[r], selfv=rec)
            d = dict(rec.a[1])
            for p, x in st.env.items():
                if p[0].endswith('#self') and len(p) == 2:
                    d[p[1]] = norm(I.read(st, p))
            new = mk('slit', rec.a[0], tuple((x, d[x]) for x, _ in rec.a[1]))
            v = norm(v) if v is not None else None
            key = '%s: %s' % (kind, t)
            ctx.count('declarations put into the model')
            if v is None or v.op != 'ctor':
                ctx.undecided('kept', key)
                break
            ctx.check(short(v.a[0]) == 'Ok', 'kept', key + ':taken', '`%s` is refused by the model: %s' % (t, show(v)[:80]), m[0].loc())
            want = list(items(part(r, 'beacons')) or ()) if kind == 'Beacons' else [r]
            changed = [x for x, _ in rec.a[1] if part(new, x) is not part(rec, x)]
            if len(changed) != 1:
                ctx.check(False, 'kept', key, '`%s` changes %s of the model' % (t, changed or 'nothing'), m[0].loc())
            else:
                x = part(new, changed[0])
                if x.op == 'ctor':
                    ctx.check(inside(x) is r, 'kept', key, '`%s` is kept as %s' % (t, show(x)[:60]), m[0].loc())
                else:
                    a = added(x, part(rec, changed[0]))
                    if a is None:
                        ctx.undecided('kept', key + ': ' + show(x)[:60])
                    else:
                        ctx.check(list(a) == want, 'kept', key, '`%s` is kept as %d entries, not %d' % (t, len(a), len(want)), m[0].loc())
            rec = new


SEEN = [('letter', 'a'), ('digit', '7'), ('underline', '_'), ('blank', ' '), ('newline', '\n'), ('@', '@'), ('&', '&'), ('#', '#')] + [(c, c) for c in PUNCT]


def wanted(lab, c, empty, comment):
    if comment and c != '\n':
        return 'comment'
    if c == '#':
        return 'comment'
    if lab in ('letter', 'underline', '@', '&'):
        return 'append'
    if lab == 'digit':
        return 'error' if empty else 'append'
    if c.isspace():
        return 'skip' if empty else 'Word'
    return PUNCT[c] if empty else 'Word'


def letters(ctx, P):
    """a word is the letters that stand there, what ends it is read next, comments are left out"""
    q = [f for f in functions(P) if f.name == 'next' and f.owner and f.owner.endswith('::workflow::Parser')]
    if not q:
        ctx.missing('the reading of the next token')
        return
    fn = q[0]
    I = Interp(P)
    I.run_fn(fn)
    loops = [(u, li) for u, li in I.loopinfo.items() if li['kind'] == 'for']
    if len(loops) != 1:
        ctx.undecided('word', 'the loop over the characters')
        return
    u, li = loops[0]
    SK = [k for k in li['init'] if norm(li['init'][k]) is Str('')]
    CK = [k for k in li['init'] if norm(li['init'][k]) is Int(0)]
    BK = [k for k in li['init'] if norm(li['init'][k]) in (TRUE, FALSE)]
    el = [x for k in li['next'] for x in subterms(norm(li['next'][k])) if x.op == 'elem' and x.a[1].op == 'chars']
    if len(SK) != 1 or len(CK) != 1 or not el:
        ctx.undecided('word', 'the text of the word')
        return
    STR, cnt, ch = norm(li['ph'][SK[0]]), norm(li['ph'][CK[0]]), el[0]
    if ch.a[1].op != 'chars' or any(x.op == 'lv' for x in subterms(ch.a[1])):
        ctx.undecided('word', 'the characters')
        return
    cont = Or(*[And(*[norm(x) for x in c]) for c in li['conds']]) if li['conds'] else TRUE

    def facts(c, empty, flags):
        t = {norm(li['ph'][k]): v for k, v in flags.items()}

        def g(x):
            if x is ch:
                return mk('char', c)
            if x in t:
                return Bool(t[x])
            if x.op == '==' and any(y.op == 'len' and y.a[0] is STR for y in x.a) and Int(0) in x.a:
                return Bool(empty)
            if x.op == '<' and x.a[0] is Int(0) and x.a[1].op == 'len' and x.a[1].a[0] is STR:
                return Bool(not empty)
            if x.op == '==' and all(y.op in ('char', 'str') for y in x.a):
                return Bool(x.a[0].a[0] == x.a[1].a[0])
            if x.op == 'mcall' and len(x.a) == 2 and x.a[0].op == 'char' and x.a[1] in ('len_utf8', 'len_utf16'):
                return Int(1)
            if x.op == 'mcall' and x.a[0] is STR and x.a[1] in ('contains', 'starts_with'):
                # a word without marks, or with one at its start
                return Bool(x.a[2].op == 'char' and x.a[2].a[0] == '@' and any(flags.values()))
            if x.op == 'exists' and items(x.a[0]) is not None:
                e = mk('elem', x.a[1], x.a[0])
                return Or(*[norm(under(x.a[2], lambda y: it if y is e else None)) for it in items(x.a[0])])
            return alike(x)
        return g

    # which flag tells that a comment is being read: the one a # sets
    mark = [k for k in BK if norm(under(norm(li['next'].get(k, FALSE)), facts('#', True, {j: False for j in BK}))) is TRUE]
    if len(mark) != 1:
        ctx.undecided('word', 'comments')
        return
    for lab, c in SEEN:
        for empty in (True, False):
            for comment in (False, True):
                k = '%s %s' % (lab, 'in a comment' if comment else 'first' if empty else 'in a word') + (' after a word' if comment and not empty else '')
                flags = {j: comment if j == mark[0] else (not empty) for j in BK}
                g = facts(c, empty, flags)
                ctx.count('characters')
                goes = norm(under(cont, g))
                want = wanted(lab, c, empty, comment)
                got, t = None, None
                for pc, val in returns(li):
                    w = norm(under(pc, g))
                    if w is FALSE or sat(w) is False:
                        continue
                    if w is not TRUE and sat(Not(w)) is not False:
                        got = 'unsure'
                        break
                    val = norm(under(norm(val), g))
                    got = short(val.a[1].a[0]) if is_ok(val) and val.a[1].op == 'ctor' else 'error' if val.op == 'ctor' and short(val.a[0]) == 'Err' else 'unsure'
                    t = val.a[1] if is_ok(val) else None
                    break
                if got is None:
                    n = norm(under(norm(li['next'].get(SK[0], STR)), g))
                    m = norm(under(norm(li['next'].get(mark[0], li['ph'][mark[0]])), g))
                    kept_ = n is STR or n.op == 'cat' and flat(n) == [STR]
                    app = n.op == 'cat' and flat(n) == [STR, mk('char', c)]
                    got = 'unsure' if m not in (TRUE, FALSE) else 'other' if not kept_ and not app or app and m is TRUE else 'append' if app else 'comment' if m is TRUE else 'skip'
                    o = norm(under(norm(li['next'].get(CK[0], cnt)), g))
                    if ahead(o, cnt) is not None:
                        ctx.check(ahead(o, cnt) == 1, 'word', k + ':count', 'the character %r moves the reading position by %s' % (c, ahead(o, cnt)), fn.loc())
                if got == 'unsure':
                    ctx.undecided('word', k)
                    continue
                ctx.check(got == want, 'word', k, 'the character %r %s is read as %s, not as %s' % (c, 'in a comment' if comment else 'at the start of a token' if empty else 'inside of a word', got, want), fn.loc())
                if got != want or t is None:
                    continue
                if got == 'Word':
                    pay = t.a[1].a if t.a[1].op == 'tuple' else t.a[1:]
                    ctx.check(any(y is STR for y in pay), 'word', k + ':text', 'the text of the word is %s' % show(pay[0])[:60], fn.loc())
                    off = [y for y in pay if any(z is cnt for z in subterms(y))]
                    if off:
                        n = ahead(off[0], cnt)
                        if n is None:
                            ctx.undecided('word', k + ':rest')
                        else:
                            ctx.check(n == 0 or n == 1 and c.isspace(), 'word', k + ':rest', 'after a word that ends with %r the reading goes on %d characters after the end of it' % (c, n), fn.loc())
                elif len(t.a) > 1:
                    n = ahead(t.a[1], cnt)
                    if n is None:
                        ctx.undecided('word', k + ':rest')
                    else:
                        ctx.check(n == 1, 'word', k + ':rest', 'the reading goes on %d characters after the start of %r' % (n, c), fn.loc())


def V03(ctx):
    P = subject.cli()
    Rs = {}
    try:
        for k, o in entities(P).items():
            Rs[k] = Reading(P, o)
    except Unknown as u:
        ctx.undecided('reader', str(u))
        return
    for k in ('Config', 'Request', 'Event', 'Beacons'):
        if k not in Rs:
            ctx.missing('the reading of a %s' % k)
            return
    requests(ctx, Rs['Request'])
    events(ctx, Rs['Event'])
    beacons(ctx, Rs['Beacons'])
    configs(ctx, Rs['Config'])
    opens(ctx, P, Rs)
    kept(ctx, P, Rs)
    letters(ctx, P)
    ctx.floor('declarations', ctx.scope.get('declarations', 0) if hasattr(ctx, 'scope') else 0, 60)
