"""E01: what one consumer does, or what fails for it, does not stop the producer."""
import re
from .. import worlds
from ..sat import sat, under as given
from ..terms import *
from ..worlds import norm
from .producer import *
from .session import token

TRANSPORT = ('send', 'disconnect')
ENDS = ('destroy', 'shutdown')          # the producer ends anyway


def E01(ctx):
    E01_rs(ctx)
    E01_ts(ctx)


# ---------------------------------------------------------------- Rust
def last(t):
    return t.a[0].split('::')[-1] if t.op == 'call' else t.a[1] if t.op == 'mcall' else None


def own_channel(t):
    """an end of a channel the producer made itself: its other end lives as long as the producer"""
    t = strip(t)
    while t.op in ('mut', 'lv', 'upd', 'field'):
        t = t.a[2] if t.op == 'lv' else t.a[0]
    return t.op == 'call' and last(t) in ('unbounded_channel', 'channel')


def decides(s):
    """user code whose failure is meant to end the producer: the handlers of errors and of the start"""
    return {f for f in s.p.user if f.rsplit('/', 1)[-1].rsplit('.', 1)[0] in ('error', 'ready')}


def made(s):
    out = {}
    for e in s.I.events:
        if e.kind == 'call' and e.val is not None:
            out.setdefault(strip(norm(e.val)), e)
    return out


def E01_rs(ctx):
    s = side('rs')
    ctx.derived(s.p)
    N = 'Rust producer'
    I = s.I
    tops = {e.loops[0][3] for e, _ in s.handlers(set(s.requests) | set(s.beacons)) if e.loops}
    if len(tops) != 1:
        ctx.missing('the loop of the Rust producer over what the transport reports')
        return
    top = tops.pop()
    li = I.loopinfo[top]
    user = {}
    for e in I.events:
        if e.kind == 'call' and getattr(e.extra, 'file', None) in s.p.user and e.val is not None:
            user.setdefault(strip(norm(e.val)).a[0], e.extra.file)
    judges = decides(s)
    ctx.floor('handlers of errors', len([f for f in judges if 'error' in f]), 1)

    def facts(x):
        if x.op == 'is':
            t = strip(x.a[1])
            if x.a[0] == 'Ok':
                f = user.get(t.a[0]) if t.op == 'call' else None
                if f is not None:
                    return TRUE if f in judges else None
                n = last(t)
                if n == 'pack':
                    return TRUE
                if n == 'send' and t.op == 'mcall' and own_channel(t.a[0]):
                    return TRUE
                return None
            if x.a[0] == 'Some':
                if last(t) == 'recv':
                    return TRUE
                # the transport reports a connection once
                if connected_uuid(t):
                    return FALSE
                return None
            if x.a[0] == 'Shutdown' and any(last(y) == 'recv' for y in subterms(t) if y.op in ('mcall', 'call')):
                return FALSE
        if x.op == 'mcall' and x.a[1] == 'contains_key' and connected_uuid(x):
            return FALSE
        if x.op == 'exists' and x.a[-1] is FALSE:
            return FALSE
        if last(x) in ('is_cancelled', 'is_canceled'):
            return FALSE
        return None

    def connected_uuid(t):
        return t.op == 'mcall' and t.a[1] in ('get', 'contains_key', 'insert', 'remove', 'get_mut') and len(t.a) > 2 and any(y.op == 'proj' and y.a[0] == 'Connected' for y in subterms(strip(t.a[2])))

    ways = [('break', norm(b), None) for b in li['brk']] + [('return', norm(And(*pc)), norm(v)) for pc, v, _, lps in li['rets']]
    ctx.count('ways out of the loop of the producer (Rust)', len(ways))
    for kind, c, v in ways:
        c = given(c, facts)
        r = sat(c)
        k = 'rs:%s' % label(c)
        if r is False:
            ctx.ok('ends', 'rs')
        elif r is None:
            ctx.undecided('ends', k)
        else:
            ctx.bad('ends', k, '%s: it ends%s if %s' % (N, ' with %s' % show(v)[:60] if v is not None else '', ' && '.join(show(x)[-110:] for x in conj(c)[-2:])), '%s:%s (%s)' % (li['loc'][0], li['loc'][2], li['loc'][1]))
    for e in I.events:
        if e.kind == 'index' and e.loops and e.loops[0][3] == top and e.recv is not None:
            m = fieldpath(norm(e.recv))
            if I.typeof(norm(e.recv)).name in ('HashMap', 'BTreeMap') or any(y.op == 'emptymap' for y in subterms(m[0])):
                ctx.count('points that may panic (Rust)')
                known = any(y.op == 'mcall' and y.a[1] in ('get', 'contains_key', 'get_mut') and fieldpath(strip(y.a[0]))[1] == m[1] for c in e.pc for y in subterms(c))
                ctx.check(known, 'panics', 'rs:index:%s' % e.where().split('(')[-1].rstrip(')'), '%s: it may panic' % N, e.where())
        if e.kind in ('panic', 'unwrap') and e.loops and e.loops[0][3] == top:
            ctx.count('points that may panic (Rust)')
            c = given(norm(And(*e.pc)), facts)
            r = sat(c)
            if r:
                ctx.bad('panics', 'rs:%s:%s' % (e.name, e.where().split('(')[-1].rstrip(')')), '%s: it may panic' % N, e.where())
            elif r is None:
                ctx.undecided('panics', 'rs: %s' % e.where())
    # one of several addressees: its failure is not that of the others
    one, told = {}, {}

    def several(t):
        if t not in one:
            one[t] = t.op == 'is' and t.a[0] == 'Ok' and last(strip(t.a[1])) == 'send' and strip(t.a[1]).op == 'mcall' and any(x.op == 'elem' for y in strip(t.a[1]).a[2:] for x in subterms(y))
        return one[t]

    def mentions(c):
        if c not in told:
            told[c] = next((strip(y.a[1]) for y in subterms(c) if several(y)), None)
        return told[c]
    sends = [e for e in I.events if e.kind == 'call' and e.name == 'send' and e.recv is not None and e.args and e.loops and any(x.op == 'elem' for x in subterms(norm(e.args[-1])))]
    ctx.count('sends to one of several (Rust)', len(sends))
    ctx.floor('sends to one of several (Rust)', len(sends), 1)
    wrong = {}
    for d in I.events:
        if d.kind == 'call' and (d.name in TRANSPORT and d.recv is not None or getattr(d.extra, 'file', None) in s.p.user):
            for c in d.pc:
                t = mentions(norm(c))
                if t is not None:
                    wrong.setdefault((last(t), d.name.split('::')[-1]), d)
    for (n, k), d in sorted(wrong.items()):
        ctx.bad('several', 'rs:%s' % k, '%s: when one of several consumers cannot be reached, %s depends on it' % (N, k), d.where())
    if not wrong:
        ctx.ok('several', 'rs')
    # the transport is used at all
    for n in TRANSPORT:
        ctx.floor('calls of %s (Rust)' % n, len([e for e in I.events if e.kind == 'call' and e.name == n and e.recv is not None and getattr(e.extra, 'file', None) not in s.p.user]), 1)


def label(c):
    """what fails on the way out"""
    out = set()
    for y in subterms(c):
        if y.op == 'is' and y.a[0] in ('Ok', 'Some'):
            n = last(strip(y.a[1]))
            if n:
                out.add(n.split('.')[-1])
    return '+'.join(sorted(out)) or 'end'


# ---------------------------------------------------------------- TypeScript
def links(t):
    """(what a chain of promises starts with, [(method, arguments)])"""
    out = []
    while t.op == 'mcall' and t.a[1] in ('then', 'catch', 'finally'):
        out.append((t.a[1], len([x for x in t.a[2:] if x.op != 'uid'])))
        t = t.a[0]
    return t, out[::-1]


def handled(ch):
    return any(n == 'catch' and k >= 1 or n == 'then' and k >= 2 for n, k in ch)


def promised(s, t, fns):
    """a value that may turn out to be a failure later"""
    b, ch = links(t)
    if ch or b.op == 'promise':
        return True
    if b.op == 'mcall' and b.a[1] in ('send', 'disconnect', 'destroy', 'shutdown'):
        return True
    if b.op == 'call':
        f = fns.get(b.a[0])
        return f is not None and 'Promise' in str(f.node.get('ret') or '')
    return False


def E01_ts(ctx):
    s = side('ts')
    ctx.derived(s.p)
    N = 'TypeScript producer'
    evs = []
    runs = [(n, fn, True) for n, fn in sorted(s.entries.items())]
    seen = {(fn.file, fn.node.get('l')) for _, fn, _ in runs}
    cls = runs[0][1].owner
    for fn in s.p.prog.all_fns:
        # what user code calls
        if fn.owner == cls and fn.file == runs[0][1].file and (fn.file, fn.node.get('l')) not in seen:
            seen.add((fn.file, fn.node.get('l')))
            runs.append((fn.name, fn, False))
    done, used = {}, set()
    for n, fn, entry in runs:
        I = s.I if fn is s.received else worlds.run(s.p, fn)
        ctx.count('functions followed (TypeScript)')
        fns = {}
        for e in I.events:
            if e.kind == 'call' and e.extra is not None and hasattr(e.extra, 'node') and e.val is not None and e.val.op == 'call':
                fns[e.val.a[0]] = e.extra
        caught = set()
        for e in I.events:
            for a in list(e.args or ()) + [x for x in (e.recv, e.val) if x is not None]:
                for t in subterms(a):
                    if t.op == 'mcall' and handled(links(t)[1]):
                        caught.add(norm(links(t)[0]))
        for e in I.events:
            if e.kind == 'call' and e.recv is not None and e.name in TRANSPORT and not hasattr(e.extra, 'node'):
                used.add((e.name, e.where()))
                if e.val is not None and e.args and e.loops and any(x.op == 'elem' for x in subterms(norm(e.args[-1]))):
                    # one of several addressees: its failure is not that of the others
                    ctx.count('sends to one of several (TypeScript)')
                    k = 'ts:several:%s' % e.where().split('(')[-1].rstrip(')')
                    ctx.check(norm(e.val) in caught or isinstance(e.extra, tuple) and e.extra[-1:] == ('try',), 'rejected', k, '%s: when one of several consumers cannot be reached, the failure is taken for one of the consumer whose message or event was handled' % N, e.where())
            if e.loc[0] in s.p.user:
                continue
            if e.kind == 'drop':
                for _, t in split(norm(e.args[0])):
                    if not promised(s, t, fns) or name_of(links(t)[0]) in ENDS:
                        continue
                    k = e.where()
                    ok = handled(links(t)[1])
                    if sat(norm(And(*e.pc))) is False:
                        continue
                    done[k] = done.get(k, True) and ok
                    if not ok:
                        b = links(t)[0]
                        ctx.bad('rejected', 'ts:%s:%s' % (k.split('(')[-1].rstrip(')'), name_of(b)), '%s: a failure of %s is not handled by anyone' % (N, name_of(b)), e.where())
            if e.kind in ('throw', 'panic') and entry:
                x = e.extra if isinstance(e.extra, tuple) else ()
                c = sat(norm(And(*e.pc)))
                if c is False:
                    continue
                if not x:
                    ctx.bad('thrown', 'ts:%s:%s' % (n, e.where().split('(')[-1].rstrip(')')), '%s: what the transport reports as %s may end with an exception' % (N, n), e.where())
                elif x[-1] == 'catch':
                    ctx.undecided('thrown', 'ts: %s' % e.where())
    for k, ok in sorted(done.items()):
        ctx.count('promises nobody waits for (TypeScript)')
        if ok:
            ctx.ok('rejected', 'ts:%s' % k)
    ctx.floor('promises nobody waits for (TypeScript)', len(done), 10)
    ctx.floor('sends to one of several (TypeScript)', ctx.scope.get('sends to one of several (TypeScript)', 0), 1)
    for n in TRANSPORT:
        ctx.floor('calls of %s (TypeScript)' % n, len([1 for a, _ in used if a == n]), 1)


def name_of(b):
    if b.op == 'mcall':
        return b.a[1]
    if b.op == 'call':
        return re.split(r'[:.]+', b.a[0])[-2] if '::' in b.a[0] else b.a[0]
    return b.op


def split(t):
    if t.op == 'ite':
        return list(split(t.a[1])) + list(split(t.a[2]))
    return [((), t)]
