"""U01: the sequence diagram derived from the renderers, compared with the workflow it was derived for."""
import re
from collections import Counter
from .. import subject, wf
from .files import functions

LINE = re.compile(r'^(?:"?(\w+)"?)\s*(<?[-.]+(?:\[[^\]]*\])?[-.]*[>ox\\/]*)\s*(?:"?(\w+)"?)\s*:\s*(.*)$')
CONSUMERS = ('Consumer', 'Consumers')


class Draw(wf.Exec):
    """carries out the renderers of the diagram"""

    def __init__(self, P):
        wf.Exec.__init__(self, P, ())
        for k in ('render', 'create', 'create_if'):
            self.g.calls.pop(k, None)

    def is_opaque(self, fn):
        return fn.name == 'write' and not fn.owner or fn.name in wf.LOOKUP and bool(fn.owner) and fn.owner.endswith('::Store')


def models():
    yield 'all kinds', wf.WorkflowModel()
    for part in ('requests', 'events', 'beacons'):
        m = wf.WorkflowModel()
        for other in ('requests', 'events', 'beacons'):
            if other != part:
                m.store.f[other] = []
                setattr(m, other, [])
        yield 'only %s' % part, m
    m = wf.WorkflowModel()
    for part in ('requests', 'events', 'beacons'):
        m.store.f[part] = list(reversed(m.store.f[part]))
        setattr(m, part, m.store.f[part])
    yield 'another order', m


def root(P):
    c = [f for f in functions(P) if f.name == 'render' and f.file.endswith('workflow/render/puml/mod.rs') and f.node.get('self')]
    return c[0] if len(c) == 1 else None


def arrows(text):
    """[(group, section, from, to, message)], problems"""
    out, problems = [], []
    lines = [l.strip() for l in text.split('\n')]
    body = [l for l in lines if l]
    if not body or not body[0].startswith('@startuml') or not body[-1].startswith('@enduml'):
        problems.append('the diagram is not enclosed in @startuml and @enduml')
    group, section, depth, serial = None, None, 0, 0
    for l in body[1:-1]:
        if re.match(r'^(group|alt|opt|loop|par|box)\b', l):
            depth += 1
            serial += 1
            group, section = (serial, l), None
        elif l in ('end', 'end box'):
            depth -= 1
            if depth < 0:
                problems.append('a group is closed that was not opened')
            group, section = None, None
        elif re.match(r'^==.*==$', l):
            section = l.strip('= ')
        else:
            m = LINE.match(l)
            if m:
                a, arrow, b, msg = m.groups()
                if arrow.startswith('<') and not arrow.endswith('>'):
                    a, b = b, a
                out.append((group, section, a, b, re.sub(r'<[^<>]*>', '', msg).strip()))
            elif '[[' in l:
                problems.append('a placeholder is left: %s' % l[:40])
    if depth > 0:
        problems.append('a group is not closed')
    return out, problems


def name(o, f):
    v = o.f[f]
    return v if isinstance(v, str) else v.a[0] if v.a else None


def U01(ctx):
    P = subject.cli()
    fn = root(P)
    if fn is None:
        return ctx.missing('the renderer of the diagram')
    n = 0
    for kind, m in models():
        x = Draw(P)
        try:
            x.run(fn, wf.Obj((fn.owner or '').split('::')[-1]), ['/out/d.puml', m.store, m.protocol.store])
        except wf.Stuck as e:
            ctx.undecided('diagram', str(e)[:120])
            continue
        if x.stuck:
            ctx.undecided('diagram', '%s: %s' % (kind, x.stuck[0][:120]))
        if not x.files:
            if not x.stuck:
                ctx.bad('written', kind, 'no diagram is written', fn.loc())
            continue
        if len(x.files) != 1 or not isinstance(list(x.files.values())[0], str):
            ctx.undecided('diagram', 'what is written')
            continue
        text = list(x.files.values())[0]
        got, problems = arrows(text)
        n += 1
        ctx.check(not problems, 'shape', (problems or ['ok'])[0], '%s' % (problems or [''])[0], fn.loc())
        ctx.count('diagrams derived')
        ctx.count('lines of the diagrams', len(got))
        requests(ctx, m, got, fn)
        events(ctx, m, got, fn)
        beacons(ctx, m, got, fn)
    if not ctx.undec:
        ctx.floor('diagrams derived', n, 5)


def inside(got, line):
    return sorted({g[0] for g in got if g[0] is not None and g[2:] == line})


def compare(ctx, rule, what, got, want, group, loc, owner):
    """every wanted line is in the group, between the right participants, once"""
    lines = [g for g in got if g[0] == group]
    for frm, to, msg, role in want:
        n = len([l for l in lines if l[2] == frm and l[3] in to and l[4] == msg])
        w = len([1 for f2, t2, m2, r2 in want if (f2, m2) == (frm, msg)])
        ctx.count('interactions looked for')
        if n == w:
            ctx.ok(rule, '%s:%s' % (what, role))
            continue
        other = [l for l in lines if l[4] == msg]
        if n > w:
            why = 'is drawn more often than declared'
        elif other and n < w and len(other) >= w:
            why = 'is drawn from %s to %s' % (other[0][2], other[0][3])
        else:
            why = 'is missing'
        ctx.bad(rule, '%s:%s' % (what, role), '%s: the %s %s' % (owner, '%s %s' % (role, msg), why), loc)
    extra = Counter((l[2], l[4]) for l in lines) - Counter((f, m) for f, t, m, r in want)
    return [k for k in extra]


def declared(m):
    out = set()
    for r in m.store.f['requests']:
        out |= {name(r, 'request'), name(r, 'error')}
        for a in r.f['actions']:
            out.add(name(a, 'response'))
            out |= {b.f['reference'] for b in a.f['broadcast']}
    for e in m.store.f['events']:
        out.add(name(e, 'reference'))
        out |= {b.f['reference'] for b in e.f['broadcasts']}
    out |= {b.f['reference'] for b in m.store.f['beacons']}
    return out


def stray(ctx, m, extra, what, owner, loc):
    known = declared(m)
    bad = sorted(str(k[1]) for k in extra if k[1] in known)
    ctx.check(not bad, 'own', what, '%s: %s is drawn, but is not part of it' % (owner, (bad or [''])[0]), loc)


def requests(ctx, m, got, fn):
    for r in m.store.f['requests']:
        req = name(r, 'request')
        gs = inside(got, ('Consumer', 'Producer', req))
        loc = fn.loc()
        kind = 'request with %s' % ('one response' if len(r.f['actions']) == 1 else 'several responses')
        ctx.count('requests')
        if len(gs) != 1:
            turned = [g for g in got if g[4] == req]
            ctx.bad('request', kind, 'the request %s %s' % (req, 'is drawn %d times' % len(gs) if gs else 'is drawn from %s to %s' % turned[0][2:4] if turned else 'is missing'), loc)
            continue
        want = [('Consumer', ('Producer',), req, 'request'), ('Producer', CONSUMERS, name(r, 'error'), 'error')]
        for a in r.f['actions']:
            want.append(('Producer', CONSUMERS, name(a, 'response'), 'response'))
            for b in a.f['broadcast']:
                want.append(('Producer', ('Consumers',), b.f['reference'], 'broadcast'))
        extra = compare(ctx, 'request', kind, got, want, gs[0], loc, 'request %s' % req)
        stray(ctx, m, extra, kind, 'request %s' % req, loc)
        # every broadcast stands behind its own response
        lines = [g for g in got if g[0] == gs[0]]
        order = [l[4] for l in lines]
        ctx.check(order and order[0] == req, 'order', '%s:request' % kind, 'request %s: something is drawn before the request' % req, loc)
        resp = [name(a, 'response') for a in r.f['actions']]
        cur, have = None, {}
        for l in lines:
            if l[4] in resp and l[2] == 'Producer':
                cur = l[4]
            elif cur is not None and l[2] == 'Producer':
                have.setdefault(cur, []).append(l[4])
        for a in r.f['actions']:
            want = [b.f['reference'] for b in a.f['broadcast']]
            mine = [x for x in have.get(name(a, 'response'), []) if x != name(r, 'error')]
            if resp.count(name(a, 'response')) == 1:
                ctx.check(Counter(mine) == Counter(want), 'order', '%s:broadcasts' % kind, 'request %s: behind the response %s the broadcasts %s are drawn, declared are %s' % (req, name(a, 'response'), mine, want), loc)
        secs = [l[1] for l in lines if l[4] in resp and l[2] == 'Producer']
        if len(resp) > 1 and any(secs):
            for a in r.f['actions']:
                s = [l[1] for l in lines if l[4] == name(a, 'response') and l[2] == 'Producer']
                ctx.check(name(a, 'conclusion') in s, 'order', '%s:conclusion' % kind, 'request %s: the response %s is drawn under %s instead of %s' % (req, name(a, 'response'), s, name(a, 'conclusion')), loc)


def events(ctx, m, got, fn):
    for e in m.store.f['events']:
        ref = name(e, 'reference')
        gs = [g for g in inside(got, ('Producer', 'Producer', ref))]
        loc = fn.loc()
        ctx.count('events')
        if len(gs) != 1:
            turned = [g for g in got if g[4] == ref]
            ctx.bad('event', 'event', 'the event %s %s' % (ref, 'is drawn %d times' % len(gs) if gs else 'is drawn from %s to %s' % turned[0][2:4] if turned else 'is missing'), loc)
            continue
        want = [('Producer', ('Producer',), ref, 'event')] + [('Producer', CONSUMERS, b.f['reference'], 'broadcast') for b in e.f['broadcasts']]
        extra = compare(ctx, 'event', 'event', got, want, gs[0], loc, 'event %s' % ref)
        stray(ctx, m, extra, 'event', 'event %s' % ref, loc)
        order = [g[4] for g in got if g[0] == gs[0]]
        ctx.check(order and order[0] == ref, 'order', 'event', 'event %s: something is drawn before the event' % ref, loc)


def beacons(ctx, m, got, fn):
    refs = [b.f['reference'] for b in m.store.f['beacons']]
    for ref in refs:
        ctx.count('beacons')
        all_ = [g for g in got if g[4] == ref]
        right = [g for g in all_ if g[2] in CONSUMERS and g[3] == 'Producer']
        ctx.check(len(right) == 1, 'beacon', 'beacon', 'the beacon %s %s' % (ref, 'is drawn %d times' % len(right) if len(right) > 1 else 'is drawn from %s to %s' % all_[0][2:4] if all_ else 'is missing'), fn.loc())
