"""F02: existing output files need the overwrite option; F03: failed steps are reported."""
import re
from .. import subject, wf
from ..interp import Interp
from ..terms import *
from ..worlds import norm
from ..sat import sat, under, leaves
from .files import functions, walk
from .parsers import propagates, is_err, short

# what a path is like, whatever is there
LOOKS = ('extension', 'file_name', 'file_stem', 'starts_with', 'ends_with', 'is_absolute', 'is_relative', 'parent', 'to_str', 'to_string_lossy', 'display', 'is_dir')
EXISTS = ('exists', 'is_file', 'try_exists')
# calls of the standard library and of the libraries used that report a failed step as an Err
FALLIBLE = ('open', 'create_dir', 'create_dir_all', 'remove_file', 'remove_dir', 'remove_dir_all', 'read_to_string', 'read_to_end', 'write_all', 'read', 'read_exact', 'copy', 'rename', 'current_dir', 'from_str',
            'to_string_pretty', 'read_dir', 'metadata', 'canonicalize', 'flush', 'sync_all', 'sync_data', 'set_len', 'try_exists', 'from_slice', 'from_reader', 'to_writer', 'into_inner')
STD = ('new', 'write', 'next', 'open', 'get', 'set', 'add', 'insert', 'remove', 'push', 'find', 'append', 'extend', 'take', 'replace', 'name', 'value', 'len')
OKTEXT = re.compile(r'\[ok\]|success|has been written', re.I)


def conj(cs):
    return And(*[norm(c) for c in cs])


def same(a, b):
    return a is b


def ret_result(f):
    r = str(f.node.get('ret') or '').replace(' ', '')
    return re.match(r'^(?:[\w:]*::)?(?:io::)?Result(<|$)', r) is not None


def owners(P):
    """types that stand for an option of the command line"""
    return {f.owner for f in functions(P) if f.name == 'get_err' and f.owner and f.node.get('self')}


def options_map(P):
    """(function, value, map term) of the place the options are put together"""
    for f in functions(P):
        if f.owner and not f.node.get('self') and f.name == 'new' and any(x.get('k') in ('path', 'call') and 'OptionOverwrite' in str(x.get('p', '')) for x in walk(f.node.get('body'))) and short(f.owner) not in [short(o) for o in owners(P)]:
            I = Interp(P)
            v, st = I.run_fn(f)
            return f, I, norm(v)
    return None, None, None


def insertions(t):
    out = {}
    while t.op == 'ins':
        k = t.a[1]
        if k.op == 'ctor' and k.a[0] not in out:
            out[short(k.a[0])] = t.a[2]
        t = t.a[0]
    return out, t.op == 'emptymap'


class Settle(object):
    """puts in what the options hold"""

    def __init__(self, P, table=None, ctrls=None):
        self.P, self.table, self.ctrls, self.memo = P, table, ctrls, {}

    def lookup(self, m, k):
        if k.op != 'ctor':
            return None
        if m.op == 'ins':
            ks, closed = insertions(m)
            if short(k.a[0]) in ks:
                return ctor('Some', ks[short(k.a[0])])
            return ctor('None') if closed else None
        if self.ctrls is not None and m is self.ctrls and short(k.a[0]) in self.table:
            return ctor('Some', self.table[short(k.a[0])])
        if self.ctrls is not None and m is self.ctrls:
            return ctor('None')
        return None

    def __call__(self, t):
        def f(x):
            if x.op == 'mcall' and x.a[1] in ('get', 'get_mut') and len(x.a) >= 3:
                y = self.lookup(x.a[0], x.a[2])
                if y is not None:
                    return y
            if x.op == 'index' and len(x.a) == 2:
                y = self.lookup(x.a[0], x.a[1])
                if y is not None:
                    return y.a[1] if short(y.a[0]) == 'Some' else None
            if x.op == 'mcall' and x.a[1] == 'contains_key':
                y = self.lookup(x.a[0], x.a[2])
                if y is not None:
                    return Bool(short(y.a[0]) == 'Some')
            if x.op == 'mcall' and x.a[0].op == 'slit' and len(x.a) == 2:
                g = [q for q in functions(self.P) if q.owner == x.a[0].a[0] and q.name == x.a[1] and q.node.get('self')]
                if g:
                    return self.method(g[0], x.a[0])
            if x.op == 'cast' and x.a[0] == 'bool':
                return x.a[1]
            if x.op == 'proj' and x.a[2].op == 'ctor' and short(x.a[2].a[0]) == short(x.a[0]) and len(x.a[2].a) > x.a[1] + 1:
                return x.a[2].a[x.a[1] + 1]
            return None
        return under(t, f)

    def method(self, fn, recv):
        k = (fn, recv)
        if k not in self.memo:
            I = Interp(self.P)
            v, st = I.run_fn(fn)
            d = dict(recv.a[1])
            self.memo[k] = under(norm(v), lambda y: d.get(y.a[1]) if y.op == 'field' and y.a[0].op == 'sym' and y.a[0].a[0] == 'self' else None)
        return self.memo[k]


def keys_of(flag):
    """the words of the command line the flag is set by; None if it is anything else"""
    if flag.op != 'exists':
        return None
    body = flag.a[2]
    out = set()
    for x in (body.a if body.op == 'or' else (body,)):
        if x.op == '==' and any(y.op == 'str' for y in x.a) and any(y.op == 'elem' for y in x.a):
            out |= {y.a[0] for y in x.a if y.op == 'str'}
        else:
            return None
    return out


def nonempty(t):
    """the condition under which a list has an element"""
    if t.op == 'cat':
        return Or(*[nonempty(x) for x in t.a[1]])
    if t.op == 'ite':
        return Or(And(t.a[0], nonempty(t.a[1])), And(Not(t.a[0]), nonempty(t.a[2])))
    if t.op in ('one', 'list'):
        return Bool(t.op == 'one' or len(t.a) > 0)
    return mk('sym', 'nonempty:%s' % show(t)[:80])


def exists_of(x, X):
    """the atom asks whether X is there"""
    if x.op == 'mcall' and x.a[1] in EXISTS and x.a[0] is X:
        return True
    if x.op == 'is' and x.a[0] == 'Ok' and x.a[1].op in ('call', 'mcall') and any(y is X for y in x.a[1].a if isinstance(y, T)) and str(x.a[1].a[1] if x.a[1].op == 'mcall' else x.a[1].a[0]).split('::')[-1] in ('metadata', 'symlink_metadata'):
        return True
    return False


def folder_of(x, X):
    return x.op == 'mcall' and x.a[1] in ('is_dir', 'is_symlink') and x.a[0] is X


def odd(c, X):
    """what is asked about X besides whether it is there"""
    return [x for x in subterms(c) if x.op in ('mcall', 'call') and (str(x.a[1]) not in LOOKS if x.op == 'mcall' else True) and not exists_of(x, X) and x.a and any(y is X for y in x.a if isinstance(y, T)) and str(x.a[1] if x.op == 'mcall' else x.a[0]).split('::')[-1] not in EXISTS
            and str(x.a[1] if x.op == 'mcall' else x.a[0]).split('::')[-1] not in FALLIBLE]


def reaches(P, names, inside=lambda f: True):
    """names of functions from which a call of one of these names can be reached (by name)"""
    fs = [f for f in functions(P) if inside(f)]
    calls = {}
    for f in fs:
        s = set()
        for x in walk(f.node.get('body')):
            if x.get('k') == 'mcall':
                s.add(x.get('n'))
            elif x.get('k') == 'call' and isinstance(x.get('f'), dict):
                s.add(str(x['f'].get('p', '')).split('::')[-1])
        calls[f] = s
    hit = {f for f in fs if calls[f] & set(names)}
    while True:
        more = {f for f in fs if f not in hit and calls[f] & {g.name for g in hit}}
        if not more:
            return hit
        hit |= more


def destructive(e):
    last = str(e.name or '').split('::')[-1]
    return e.kind == 'call' and e.args and (last in wf.DESTROY or last == 'open' and wf.opens_for_writing(e) or str(e.name).endswith(('File::create', 'fs::write', 'File::create_new')))


# ---------------------------------------------------------------- F02
def F02(ctx):
    P = subject.cli()
    fn, I, v = options_map(P)
    if fn is None:
        return ctx.missing('the place the options of the command line are put together')
    table = {}
    for x in subterms(v):
        if x.op == 'ins':
            ks, closed = insertions(x)
            if len(ks) > len(table):
                table = ks
    opt = {short(k): x for k, x in table.items()}
    if not {'OptionOverwrite', 'OptionFiles'} <= set(opt):
        return ctx.missing('the options of files and of overwriting')
    ctx.count('options of the command line', len(opt))
    files = opt['OptionFiles']
    S = Settle(P, table, mk('sym', 'ctrls'))
    flag = S(mk('mcall', opt['OptionOverwrite'], 'value'))
    if flag.op == 'ctor' and len(flag.a) > 1:
        flag = flag.a[1]
    else:
        flag = mk('proj', 'OptionOverwrite', 0, flag)
    words = overwrite_words(ctx, P, opt, S, flag)
    if words is None:
        return

    def off(x):
        if x is flag or x.op == 'exists' and x.a[2] is FALSE:
            return FALSE
        if x.op == '==' and any(y.op == 'elem' for y in x.a) and any(y.op == 'str' and y.a[0] in words for y in x.a):
            return FALSE
        return None

    def on(x):
        return TRUE if x is flag else None

    if files.op != 'slit':
        return ctx.undecided('options', 'how the options of files are kept: %s' % files.op)
    d = {k: S(norm(x)) for k, x in dict(files.a[1]).items()}
    owner = files.a[0]
    act = [f for f in functions(P) if f.owner == owner and f.name == 'action']
    if not act:
        return ctx.missing('%s.action' % short(owner))
    act = act[0]
    deep = lambda f: '/workflow/render/' in f.file and '/puml/' not in f.file
    hot = reaches(P, wf.DESTROY + ('open', 'create', 'write'), lambda f: not deep(f))
    hot = {(f.file, f.node.get('l')) for f in hot}
    J = Interp(P, opaque=lambda f: f is not act and ((f.file, f.node.get('l')) not in hot or f.name == 'parse') and not (f.owner == owner))
    av, ast = J.run_fn(act)
    param = [p['n'] if isinstance(p, dict) and 'n' in p else None for p in act.node.get('params') or ()]
    S2 = Settle(P, table, mk('sym', next((p for p in param if p), 'ctrls')))
    outs = {}
    for e in J.events:
        if not destructive(e):
            continue
        for a in e.args[:2]:
            for x in subterms(norm(a)):
                if x.op == 'field' and x.a[0].op == 'sym' and x.a[0].a[0] == 'self' and x.a[1] in d:
                    outs.setdefault(x.a[1], []).append(e)
    outs = {k: es for k, es in outs.items() if any(norm(a).op == 'proj' for e in es for a in e.args[:1])}
    ctx.count('output files', len(outs))
    ctx.floor('output files', len(outs), 3)
    errs = [k for k, x in d.items() if x.op == 'cat' and x.a[0] == 'v']
    refused = Or(*[nonempty(d[k]) for k in errs]) if errs else FALSE
    aval = S2(norm(av))
    for k, es in sorted(outs.items()):
        # how an existing file fares where the options are read
        setA = True
        silent = False
        for conds, leaf in leaves(d[k]):
            if not (leaf.op == 'ctor' and short(leaf.a[0]) == 'Some'):
                continue
            X = leaf.a[1]
            fx = lambda x: TRUE if exists_of(x, X) else FALSE if folder_of(x, X) else off(x)
            ctx.count('places a path is accepted at')
            c = under(conj(conds), fx)
            s = sat(c)
            if s is not False and odd(c, X) or s is None:
                setA = None
            elif s:
                setA = False
            # what is said about it
            given = under(conj(conds), on)
            r = sat(And(under(given, fx), Not(under(refused, fx))))
            if r is not False:
                silent = True if r else None
        if setA is True:
            ctx.ok('kept', '%s: not accepted' % k)
            if silent is False:
                ctx.ok('told', k)
            elif silent is None:
                ctx.undecided('told', k)
            else:
                ctx.bad('told', k, '%s: an existing file is passed over without an error' % k)
            continue
        # or where the files are written
        field = mk('field', mk('sym', 'self'), k)
        X = mk('proj', 'Some', 0, field)
        fx = lambda x: FALSE if folder_of(x, X) else TRUE if exists_of(x, X) or x.op == 'is' and x.a[1] is field and short(x.a[0]) == 'Some' else off(x)
        setB, where = True, None
        for e in es:
            c = under(S2(conj(e.pc)), fx)
            s = sat(c)
            ctx.count('places that take away or replace')
            if s is None or s and odd(c, X):
                setB = None if setB is True else setB
            elif s:
                setB, where = False, e
        if setB is False and setA is False:
            ctx.bad('kept', k, '%s: an existing file is replaced without the overwrite option (%s)' % (k, where.name), where.where())
        elif setB is not True:
            ctx.undecided('kept', k)
        else:
            ctx.ok('kept', '%s: refused before writing' % k)
            said = True
            for conds, leaf in leaves(under(aval, fx)):
                if is_err(leaf):
                    continue
                s = sat(under(S2(conj(conds)), fx))
                if s is not False:
                    said = False if s and said is not None else None
            if said is None:
                ctx.undecided('told', k)
            else:
                ctx.check(said, 'told', k, '%s: generation goes on without the existing file and ends without an error' % k, act.loc())
    chain(ctx, P, owner)


def overwrite_words(ctx, P, opt, S, flag):
    words = keys_of(flag)
    loose = [x for x in subterms(flag) if x.op == 'mcall' and x.a[1] in ('starts_with', 'ends_with', 'contains', 'find', 'is_some') and x.a[0].op == 'elem']
    o = opt['OptionOverwrite']
    where = o.a[0] if o.op == 'slit' else 'OptionOverwrite'
    if words is None:
        if flag is TRUE or flag.op == 'not' or loose:
            ctx.bad('option', short(where), 'the overwrite option is taken as given by %s' % show(flag)[:80])
        else:
            ctx.undecided('option', 'what sets the overwrite option: %s' % show(flag)[:80])
        return None
    # words of the other options
    other = set()
    for k, x in opt.items():
        if k == 'OptionOverwrite':
            continue
        x = under(S(norm(x)), lambda y: FALSE if y is flag or y.op == 'ins' else None)
        other |= {y.a[0] for y in subterms(x) if y.op == 'str' and y.a[0].startswith('-')}
    both = words & other
    ctx.check(not both, 'option', '%s:own words' % short(where), 'a word of another option (%s) also sets the overwrite option' % ', '.join(sorted(both)))
    helps = [f for f in functions(P) if f.owner == where and f.name == 'get_help']
    if helps:
        H = Interp(P)
        hv, _ = H.run_fn(helps[0])
        text = ' '.join(x.a[0] for x in subterms(norm(hv)) if x.op == 'str') if hv is not None else ''
        for w in sorted(words):
            ctx.check(re.search(r'(?<![\w-])%s(?![\w-])' % re.escape(w), text), 'option', '%s:%s' % (short(where), w), '%r sets the overwrite option, but is not one of its documented words' % w, helps[0].loc())
    ctx.count('words of the overwrite option', len(words))
    return words


# ---------------------------------------------------------------- errors up to the exit code
def exit_code(e):
    a = norm(e.args[0]) if e.args else None
    return a.a[0] if a is not None and a.op == 'int' else None


def exits(I):
    return [e for e in I.events if e.kind == 'call' and str(e.name).endswith(('process::exit', 'process::abort')) or e.kind == 'call' and e.name in ('exit', 'abort')]


def fails(ctx, rule, fn, I, st, facts, what, value=None):
    """under these facts the function ends the process with a failure code"""
    res = True
    for e in exits(I):
        c = under(conj(e.pc), facts)
        s = sat(c)
        if s is False:
            continue
        code = exit_code(e)
        if str(e.name).endswith('abort') or code is not None and code % 256:
            continue
        if s and code is not None:
            ctx.bad(rule, '%s:code' % fn.qual(), '%s: %s, but the exit code is %s' % (fn.qual(), what, code), e.where())
            return
        res = None
    end = And(*[under(norm(c), facts) for c in st.pc]) if st is not None and not st.dead else FALSE
    s = sat(end)
    if s and value is not None:
        s = any(sat(And(end, under(conj(c), facts))) is not False and not failing(under(l, facts)) for c, l in leaves(value))
    if s:
        ctx.bad(rule, '%s:end' % fn.qual(), '%s: %s, and the process ends as if nothing had happened' % (fn.qual(), what), fn.loc())
    elif s is None or res is None:
        ctx.undecided(rule, '%s: %s' % (fn.qual(), what))
    else:
        ctx.ok(rule, '%s: %s' % (fn.qual(), what))


def failing(v):
    """a value of main that is a failure"""
    return is_err(v) or v.op in ('ctor', 'const', 'path', 'sym') and 'FAILURE' in show(v)


def chain(ctx, P, owner):
    """what an option complains about, or an action returns, ends the process with a message and a failure code"""
    ge = [f for f in functions(P) if f.owner == owner and f.name == 'get_err']
    if not ge:
        return ctx.missing('%s.get_err' % short(owner))
    I = Interp(P)
    v, st = I.run_fn(ge[0])
    v = norm(v)
    lists = [x for x in subterms(v) if x.op == 'field' and x.a[0].op == 'sym' and x.a[0].a[0] == 'self']

    def some(x):
        if x.op == '==' and Int(0) in x.a and any(y.op == 'len' and y.a[0] in lists for y in x.a):
            return FALSE
        if x.op == '<' and x.a[0] is Int(0) and x.a[1].op == 'len' and x.a[1].a[0] in lists:
            return TRUE
        return None
    w = under(v, some)
    ls = [l for c, l in leaves(w) if sat(under(conj(c), some)) is not False]
    if all(l.op == 'ctor' and short(l.a[0]) == 'Some' for l in ls):
        ctx.ok('told', 'get_err')
    elif any(l.op == 'ctor' and short(l.a[0]) == 'None' for l in ls):
        ctx.bad('told', '%s.get_err' % short(owner), '%s: errors were noted, but none is returned: %s' % (ge[0].qual(), show(w)[:60]), ge[0].loc())
    else:
        ctx.undecided('told', 'get_err: %s' % show(w)[:60])
    # the function that asks all options
    n = 0
    for f in functions(P):
        I = None
        body = list(walk(f.node.get('body')))
        if any(x.get('k') == 'mcall' and x.get('n') == 'get_err' for x in body) and 'bool' in str(f.node.get('ret') or ''):
            n += 1
            asks(ctx, P, f, 'get_err', 'Some', TRUE)
        if any(x.get('k') == 'mcall' and x.get('n') == 'action' for x in body) and ret_result(f) and f.name != 'action':
            n += 1
            asks(ctx, P, f, 'action', 'Err', 'err')
    ctx.floor('functions that collect errors', n, 2)
    m = [f for f in functions(P) if f.name == 'main' and not f.owner]
    if not m:
        return ctx.missing('main')
    I = Interp(P, opaque=lambda g: g is not m[0] and (g.owner or '').endswith('CtrlArgs'))
    v, st = I.run_fn(m[0])
    seen = set()
    for e in I.events:
        if e.kind != 'call' or e.val is None or e.extra is None or not hasattr(e.extra, 'node') or not (e.extra.owner or '').endswith('CtrlArgs') or not e.extra.node.get('self'):
            continue
        t = norm(e.val)
        if ret_result(e.extra):
            fx = lambda x: Bool(short(x.a[0]) == 'Err') if x.op == 'is' and x.a[1] is t else None
            what = 'an action failed'
            seen.add('action')
        elif 'bool' in str(e.extra.node.get('ret') or ''):
            fx = lambda x: TRUE if x is t else None
            what = 'an option is wrong'
            seen.add('option')
        else:
            continue
        fails(ctx, 'exit', m[0], I, st, fx, what, norm(v) if v is not None else None)
        if ret_result(e.extra):
            said = [p for p in I.events if p.kind == 'print' and any(t in subterms(norm(a)) for a in p.args) and sat(under(And(conj(e.pc), Not(conj(p.pc))), fx)) is False]
            ctx.check(said or not p_any(I), 'exit', '%s:message' % m[0].qual(), '%s: an action failed, but what went wrong is not printed' % m[0].qual(), m[0].loc())
    for s in ('action', 'option'):
        if s not in seen:
            ctx.missing('main: where the %s are asked for' % ('actions' if s == 'action' else 'options'))


def p_any(I):
    return True


def asks(ctx, P, f, name, bad, want):
    """one of the options complains: the result of the function that asks them says so"""
    I = Interp(P, opaque=lambda g: g is not f and g.owner != f.owner or g.name == 'get_unknown_args')
    v, st = I.run_fn(f)
    v = norm(v)
    ev = [e for e in I.events if e.kind == 'call' and e.name == name and e.val is not None]
    if not ev:
        return ctx.undecided('told', '%s: where %s is called' % (f.qual(), name))
    for e in ev:
        t = norm(e.val)
        alive = []
        for x in I.events:
            if x.kind == 'call' and x.name == 'is_action_available' and x.val is not None:
                alive.append(norm(x.val))

        def fx(x):
            if x.op == 'is' and x.a[1] is t:
                return Bool(short(x.a[0]) == bad)
            if x in alive:
                return FALSE
            return None

        def latch(x):
            # a flag that is set when one complains and stays set
            if x.op == 'lout' and len(x.a) >= 4:
                li = I.loopinfo.get(x.a[0])
                nx = x.a[3]
                for k, y in ((li or {}).get('next') or {}).items():
                    if x.a[1] in (k, k[0] if isinstance(k, tuple) and len(k) == 1 else None):
                        nx = norm(y)
                own = {y for y in subterms(nx) if y.op == 'lv' and y.a[0] == x.a[0]}
                stay = under(nx, lambda y: TRUE if y in own else None)
                calm = lambda y: TRUE if y in own else Bool(short(y.a[0]) != bad) if y.op == 'is' and y.a[1] is t else None
                if under(nx, calm) is FALSE and li and not li['brk']:
                    return FALSE        # the next option makes it forgotten
                if under(nx, fx) is TRUE and stay is TRUE and not (li and li['brk']):
                    return TRUE
                if li and li['brk'] and under(nx, fx) is TRUE and stay is TRUE:
                    # leaving the loop earlier is fine once it is set
                    if all(sat(And(under(conj([b]), lambda y: FALSE if y in own else None), Not(under(nx, lambda y: FALSE if y in own else None)))) is False for b in li['brk']):
                        return TRUE
            return None
        pc = under(conj(e.pc), fx)
        seen = lambda x: TRUE if x.op == 'exists' and under(x.a[2], fx) is TRUE else latch(x) if x.op == 'lout' else fx(x)
        key = '%s:%s' % (f.qual(), name)
        if want is TRUE:
            r = under(v, seen)
            s = sat(And(under(pc, seen), Not(r)))
            if s is False:
                ctx.ok('told', key)
            elif s is None or any(x.op in ('lout', 'lv', 'mcall', 'closure') and x is not t and t in subterms(x) for x in subterms(r)):
                ctx.undecided('told', '%s: %s' % (key, show(r)[:60]))
            else:
                ctx.bad('told', key, '%s: one of the options complains (%s), but the result is %s' % (f.qual(), name, show(r)[:60]), e.where())
            continue
        for conds, leaf in leaves(under(v, seen)):
            if is_err(leaf):
                continue
            s = sat(And(under(pc, seen), *[under(norm(x), seen) for x in conds]))
            if s is False:
                continue
            if s is None or leaf.op != 'ctor':
                ctx.undecided('told', '%s: %s' % (key, show(leaf)[:60]))
            else:
                ctx.bad('told', key, '%s: one of the options complains (%s), but the result is %s' % (f.qual(), name, show(leaf)[:40]), e.where())
        ctx.ok('told', '%s:%s' % (f.qual(), name))


# ---------------------------------------------------------------- F03
def F03(ctx):
    P = subject.cli()
    fs = [f for f in functions(P) if not f.node.get('test')]
    hot = reaches(P, FALLIBLE)
    names = {}
    for f in hot:
        names.setdefault(f.name, []).append(f)
    n = 0
    for f in fs:
        n += steps(ctx, P, f, hot, names)
    ctx.count('functions', len(fs))
    ctx.count('calls that can fail', n)
    ctx.floor('calls that can fail', n, 150)
    own = [o for o in owners(P) if 'Files' in short(o)]
    if not own:
        ctx.missing('the option of files')
    for o in own:
        chain(ctx, P, o)
    stops(ctx, P)


def fallible(e, hot, names):
    last = str(e.name or '').split('::')[-1]
    g = e.extra if e.extra is not None and hasattr(e.extra, 'node') else None
    if g is not None:
        return (g.file, g.node.get('l')) in {(x.file, x.node.get('l')) for x in hot} and ret_result(g)
    if last in FALLIBLE:
        return last != 'open' or not (e.recv is None and '::' not in str(e.name)) or True
    # methods of a trait object
    c = names.get(last)
    return bool(c) and all(ret_result(x) for x in c) and e.recv is not None and last not in STD


def steps(ctx, P, f, hot, names):
    I = Interp(P, opaque=lambda g: g is not f)
    v, st = I.run_fn(f)
    ev = [e for e in I.events if e.kind == 'call' and e.val is not None and fallible(e, hot, names)]
    # a write that may be partial
    for e in I.events:
        if e.kind == 'call' and e.name == 'write' and e.recv is not None and e.args and len(e.args) == 1 and norm(e.args[0]).op != 'bool' and any(x.op == 'mcall' and x.a[1] == 'open' or x.op == 'call' and str(x.a[0]).endswith(('File::create', 'File::open')) for x in subterms(norm(e.recv))):
            ctx.bad('whole', f.qual(), '%s: write() may take a part of the text only' % f.qual(), e.where())
    bufs = [e for e in I.events if e.kind == 'call' and str(e.name).endswith(('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new'))]
    if bufs and not any(e.kind == 'call' and str(e.name).split('::')[-1] in ('flush', 'into_inner') for e in I.events):
        ctx.bad('whole', '%s:flush' % f.qual(), '%s: the end of the text is written when the writer is dropped, where an error is lost' % f.qual(), bufs[0].where())
    if not ev:
        return 0
    v = norm(v) if v is not None else None
    deep = None
    for e in ev:
        t = norm(e.val)
        key = '%s:%s' % (f.qual(), str(e.name).split('::')[-1])
        if f.name == 'main' and not f.owner or e.name in ('action', 'get_err') and e.extra is None:
            continue            # the end of the chain
        if any(u.kind == 'unwrap' and any(norm(x) is t for x in list(u.args or ()) + ([u.recv] if u.recv is not None else [])) for u in I.events):
            ctx.ok('reported', key)
            continue
        fx = lambda x: Bool(short(x.a[0]) == 'Err') if x.op == 'is' and x.a[1] is t else None
        if sat(under(conj(e.pc), fx)) is False:
            ctx.ok('reported', key)
            continue            # it has succeeded before
        # the process ends
        end = And(conj(e.pc), *[under(norm(c), fx) for c in st.pc]) if st is not None and not st.dead else FALSE
        gone = sat(under(end, fx)) is False
        early = [x for x in I.events if x.kind == 'return' and sat(under(And(conj(e.pc), conj(x.pc)), fx)) is not False]
        if gone and not early:
            bad = [x for x in exits(I) if sat(under(And(conj(e.pc), conj(x.pc)), fx)) and exit_code(x) is not None and exit_code(x) % 256 == 0 and not str(x.name).endswith('abort')]
            said = [x for x in I.events if x.kind in ('print', 'panic') and sat(under(And(conj(e.pc), conj(x.pc)), fx))]
            ctx.check(not bad, 'reported', key, '%s: %s fails, and the process ends with exit code 0' % (f.qual(), e.name), bad[0].where() if bad else None)
            ctx.check(said, 'reported', key + ':message', '%s: %s fails, and the process ends without a message' % (f.qual(), e.name), e.where())
            continue
        if ret_result(f):
            r, why = propagates(I, v, e)
            if r is None:
                ctx.undecided('reported', '%s %s' % (key, why or ''))
            else:
                ctx.check(r, 'reported', key, '%s: %s fails, but %s' % (f.qual(), e.name, why), e.where())
            announced(ctx, f, I, e, fx, key)
            continue
        # noted among the errors of the option
        if deep is None:
            K = Interp(P, opaque=lambda g: g is not f and (g.owner != f.owner or not f.owner))
            kv, kst = K.run_fn(f)
            deep = K
        noted = None
        for x in deep.events:
            if x.kind == 'call' and x.name in ('push', 'extend', 'append', 'insert') or x.kind in ('push', 'set'):
                where = [y for y in ([x.recv] if x.recv is not None else [])]
                nm = {y.a[1] for q in where for y in subterms(norm(q)) if y.op == 'field'} | ({x.name} if x.kind == 'set' else set())
                if not any('err' in str(y) for y in nm):
                    continue
                if sat(under(And(conj(e.pc), Not(conj(x.pc))), fx)) is False:
                    noted = x
        if noted is not None:
            ctx.ok('reported', key)
        elif str(f.node.get('ret') or '').strip() in ('', 'None', '()', 'bool') or 'Option' in str(f.node.get('ret')):
            ctx.bad('reported', key, '%s: %s fails, and nobody is told' % (f.qual(), e.name), e.where())
        else:
            ctx.undecided('reported', '%s returns %s' % (key, f.node.get('ret')))
    return len(ev)


def announced(ctx, f, I, e, fx, key):
    """success is announced after the step only, and only if it succeeded"""
    i = I.events.index(e)
    last = str(e.name).split('::')[-1]
    for j, p in enumerate(I.events):
        if p.kind != 'print':
            continue
        text = ''.join(x.a[0] for a in p.args for x in subterms(norm(a)) if x.op == 'str')
        if not OKTEXT.search(text):
            continue
        both = And(conj(e.pc), conj(p.pc))
        if j > i:
            s = sat(under(both, fx))
            if s is False:
                ctx.ok('announced', key)
            else:
                (ctx.bad if s else lambda *a: ctx.undecided('announced', key))('announced', key, '%s: success is announced also when %s failed' % (f.qual(), e.name), p.where())
        elif last in ('write_all', 'open', 'flush', 'sync_all') and sat(both):
            ctx.bad('announced', key, '%s: success is announced before %s' % (f.qual(), e.name), p.where())


def stops(ctx, P):
    """the macro that ends the run prints and ends with a failure code"""
    import os
    root = subject.CLI()
    n = 0
    for d, _, fl in os.walk(root):
        for x in fl:
            if not x.endswith('.rs'):
                continue
            s = open(os.path.join(d, x), errors='replace').read()
            if 'macro_rules!' not in s:
                continue
            s = re.sub(r'//[^\n]*', '', s)
            for m in re.finditer(r'macro_rules!\s*(\w+)\s*\{', s):
                k, i = 1, m.end()
                while i < len(s) and k:
                    k += {'{': 1, '}': -1}.get(s[i], 0)
                    i += 1
                body = s[m.end():i]
                if m.group(1) != 'stop':
                    continue
                n += 1
                codes = re.findall(r'exit\s*\(\s*([^)]*?)\s*\)', body)
                aborts = re.search(r'abort\s*\(|panic!', body)
                if not codes and not aborts:
                    ctx.bad('exit', 'stop!', 'stop! does not end the process', '%s (macro)' % x)
                for c in codes:
                    if re.match(r'^\d+$', c):
                        ctx.check(int(c) % 256, 'exit', 'stop!', 'stop! ends the process with exit code %s' % c, '%s (macro)' % x)
                    else:
                        ctx.undecided('exit', 'stop!: exit(%s)' % c)
                ctx.check(re.search(r'print', body) or aborts, 'exit', 'stop!:message', 'stop! ends the process without a message', '%s (macro)' % x)
    ctx.count('macros that end the run', n)
    used = any(x.get('k') == 'macro' and x.get('n') == 'stop' for f in functions(P) for x in walk(f.node.get('body')))
    if used and not n:
        ctx.missing('the macro stop!')
