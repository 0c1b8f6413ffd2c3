"""Reassembly of messages from the byte stream: one step of chunk() in either language as a transition
(buffer, queue, input) -> (buffer', queue'), and next() as the front of the queue."""
from ..terms import *
from ..interp import Interp, St, uncast
from ..wire import lin, install, facts_of, prove, Lin, assume, range_of
from .. import subject, codec
from .totality import holds_in_cases, literal

HDR = 26
LSYM = mk('sym', '%len')


def cut(I, t):
    """(base, lo, hi) of a part of a sequence"""
    t = codec.strip(t)
    if t.op == 'slice':
        return t.a
    if t.op == 'index' and t.a[1].op == 'range':
        lo, hi = range_of(I, t.a[1], t.a[0])
        return t.a[0], lo, hi
    return None


def leaves(t, conds=()):
    if t.op == 'ite':
        return leaves(t.a[1], conds + (t.a[0],)) + leaves(t.a[2], conds + (Not(t.a[0]),))
    return [(conds, t)]


def is_len(x, S):
    x = uncast(x)
    if x.op == 'rd' and x.a[1] is S and x.a[0] == 'u64le':
        return x.a[2] is Int(18)
    if x.op == 'field' and x.a[1] in ('len', 'length', 'len_usize') and x.a[0].op == 'new':
        return any(y is S for y in subterms(x.a[0]))
    return False


def with_len(t, S):
    m = {x: LSYM for x in subterms(t) if is_len(x, S)}
    return subst(t, m) if m else t


def whole(S):
    """26 + announced length <= bytes at hand, as a fact"""
    return lin(mk('len', S)).add(lin(LSYM), -1).add(Lin({}, HDR), -1)


def refuted(pc, extra):
    """pc and extra >= 0 cannot hold together"""
    return holds_in_cases(list(pc), lambda r: prove(Lin({}, -1), facts_of(r) + [extra]))


def entailed(pc, goal):
    return holds_in_cases(list(pc), lambda r: prove(goal, facts_of(r)) or prove(Lin({}, -1), facts_of(r)))


def self_field(t):
    while t.op in ('lv', 'lout'):
        t = t.a[2]
    return t.a[1] if t.op == 'field' and t.a[0].op == 'sym' and t.a[0].a[0] in ('self', 'this') else None


class Chunk:
    def __init__(self, ctx, lang):
        self.ctx, self.lang = ctx, lang
        self.p = subject.rs_static() if lang == 'rs' else subject.ts_static()
        fs = [f for f in self.p.all_fns if f.qual() in ('Buffer.chunk', 'BufferReader.chunk') and f.node.get('body')]
        self.f = fs[0] if fs else None

    def key(self, k):
        return '%s: %s' % (self.lang, k)

    def run(self):
        ctx, f = self.ctx, self.f
        if f is None:
            return ctx.missing('chunk() of the %s message buffer' % self.lang)
        I = self.I = install(Interp(self.p))
        if self.lang == 'ts':
            I.hooks['assume_reads'] = True
        r, st = I.run_fn(f)
        ctx.count('stream readers')
        ds = [e for e in I.events if e.kind == 'call' and e.name in ('get_msg', 'getMessage')]
        ctx.floor('delivery sites (%s)' % self.lang, len(ds), 1)
        S = None
        for d in ds:
            got = [x for _, x in leaves(d.args[-1]) if not codec.is_error(x)]
            plain = []
            for x in got:
                x = codec.strip(x)
                if x.op == 'mcall' and x.a[1] == 'decode' and len(x.a) > 2:
                    x = x.a[2]
                    ctx.count('bodies handed to a packing middleware')
                plain.append(x)
            for x in plain:
                c = cut(I, x)
                if c is None:
                    if x is S or x.op in ('cat', 'lv', 'lout') or self_field(x):
                        ctx.bad('body', self.key('body'), 'the decoder is given the buffer instead of the announced body', d.loc)
                    else:
                        ctx.undecided('body', self.key(show(x)[:120]))
                    continue
                S = S if S is not None else c[0]
                self.S = S
                if c[0] is not S:
                    ctx.undecided('body', self.key('two buffers'))
                    continue
                lo, hi = lin(c[1]), lin(with_len(c[2], S))
                dl = lo.add(Lin({}, HDR), -1).const()
                dh = hi.add(lin(LSYM), -1).add(Lin({}, HDR), -1).const()
                if dl is None:
                    ctx.undecided('body', self.key('start of the body: ' + show(c[1])[:120]))
                else:
                    ctx.check(dl == 0, 'body', self.key('start'), 'the body handed to the decoder starts at byte %s instead of %d' % (dl + HDR, HDR), d.loc)
                if dh is None and not set(hi.c) <= {LSYM, mk('len', S)}:
                    ctx.undecided('body', self.key('end of the body: ' + show(c[2])[:120]))
                else:
                    ctx.check(dh == 0, 'body', self.key('end'), 'the body handed to the decoder does not end where the announced length says', d.loc)
            if S is not None:
                pc = [with_len(c, S) for c in d.pc]
                ctx.check(entailed(pc, whole(S)), 'gate', self.key('delivery'), 'a message is decoded although its header or body may not be complete', d.loc)
        if S is None:
            return ctx.undecided('body', self.key('no buffer recognised'))
        self.accumulate(S, st)
        self.queue(ds, S)
        if S.op == 'lv':
            self.loop(S, ds)
        else:
            self.recursion(S, ds, r, st)

    def accumulate(self, S, st):
        init = S.a[2] if S.op == 'lv' else S
        ps = parts_of(init, 'v')
        par = [q for q in ps if q.op in ('sym', 'cast')]
        F = self_field(ps[0]) if ps else None
        self.F = F or next((self_field(q) for q in ps if self_field(q)), None)
        ok = len(ps) == 2 and F is not None and ps[1].op == 'sym'
        if self.F is None:
            self.ctx.undecided('accumulate', self.key(show(init)[:120]))
        else:
            self.ctx.check(ok, 'accumulate', self.key('input'), 'received bytes are not appended behind the bytes kept from before', self.f.loc())

    def remainder(self, t, S, loc, what):
        """t is what is kept after a message was taken: everything behind header and body"""
        c = cut(self.I, t)
        if t is S:
            return self.ctx.bad('rest', self.key(what), 'a message that was taken stays in the buffer', loc)
        if (t.op == 'cat' and not t.a[1]) or (t.op in ('zeros', 'rep') and Int(0) in t.a):
            return self.ctx.bad('rest', self.key(what), 'bytes behind a delivered message are dropped', loc)
        if c is None or c[0] is not S:
            return self.ctx.undecided('rest', self.key(show(t)[:120]))
        lo = lin(with_len(c[1], S))
        d = lo.add(lin(LSYM), -1).add(Lin({}, HDR), -1).const()
        h = lin(c[2]).add(lin(mk('len', S)), -1).const()
        if d is None and not set(lo.c) <= {LSYM, mk('len', S)}:
            return self.ctx.undecided('rest', self.key(show(t)[:120]))
        self.ctx.check(d == 0 and h == 0, 'rest', self.key(what), 'what is kept behind a message does not start where its body ends', loc)

    def loop(self, S, ds):
        ctx, I = self.ctx, self.I
        info = I.loopinfo[S.a[0]]
        ks = [k for k, ph in info['ph'].items() if ph is S]
        for k in ks:
            nx = info['next'].get(k)
            if nx is None:
                continue
            for cs, x in leaves(nx):
                s = St({}, [])
                for c in cs:
                    s.add(c)
                if not s.dead:
                    self.remainder(x, S, info['loc'], 'loop')
        ends = []
        pre = list(info['pre'])
        if info['cond'] is not None and info['cond'] is not TRUE:
            if info.get('post'):
                nx = info['next'].get(ks[0]) if ks else None
                ends.append((pre + list(info['exitpc']), nx))
            else:
                ends.append((pre + [Not(info['cond'])], S))
        for b in info['brk']:
            ends.append((pre + [b], S))
        for pc, v, _, _ in info['rets']:
            for cs, g in codec.goods(v):
                if not is_err_under(list(pc) + list(cs), g):
                    ends.append((pre + list(pc) + list(cs), S))
        for pc, b in ends:
            pc = [with_len(c, S) for c in pc]
            if b is S:
                ok = refuted(pc, whole(S))
            elif b is None:
                ok = True
            else:
                ok = refuted(pc, lin(mk('len', b)).add(Lin({}, HDR), -1))
            ctx.check(ok, 'complete', self.key('loop'), 'reading stops although a complete message is at hand', info['loc'])

    def recursion(self, S, ds, r, st):
        ctx, I = self.ctx, self.I
        me = self.f.name if hasattr(self.f, 'name') else 'chunk'
        recs = [e for e in I.events if e.kind == 'call' and e.name == 'chunk']
        R = None
        for e in recs:
            x = I.project(e.recv, self.F) if self.F else None
            ctx.check(e.args and e.args[0].op == 'cat' and not e.args[0].a[1] or e.args and e.args[0].op == 'list' and not e.args[0].a,
                      'accumulate', self.key('repetition'), 'bytes are appended again when reading goes on', e.loc)
            if x is not None:
                R = x
                self.remainder(x, S, e.loc, 'repetition')
        calls = [x for x in subterms(r) if x.op == 'mcall' and x.a[1] == 'chunk']
        for cs, g in codec.goods(r):
            if any(x in calls for x in subterms(g)):
                continue
            pc = [with_len(c, S) for c in cs]
            ok = refuted(pc, whole(S))
            if not ok and R is not None:
                ok = refuted(cs, lin(mk('len', R)).add(Lin({}, HDR), -1))
            ctx.check(ok, 'complete', self.key('end'), 'reading stops successfully although a complete message may be at hand', self.f.loc())
        fin = I.read(st, ('1#self', self.F)) if hasattr(I, 'read') else None
        fin = st.env.get(('1#self', self.F), fin)
        if fin is None:
            return ctx.undecided('rest', self.key('final buffer'))
        for cs, x in leaves(fin):
            s = St({}, [])
            for c in cs:
                s.add(c)
            if s.dead:
                continue
            if x is S:
                # kept as it is: only when nothing was taken
                for d in ds:
                    pc = [with_len(c, S) for c in list(cs) + list(d.pc)]
                    ctx.check(refuted(pc, Lin({}, 0)), 'rest', self.key('kept'), 'a message that was handed to the decoder stays in the buffer', d.loc)
            elif any(y.op in ('mut', 'havoc') or y.op == 'mcall' and y.a[1] == 'chunk' for y in subterms(x)):
                continue
            elif self.F and self_field(x) == self.F:
                ctx.bad('accumulate', self.key('dropped input'), 'received bytes are not kept', self.f.loc())
            else:
                self.remainder(x, S, self.f.loc(), 'end')

    def queue(self, ds, S):
        ctx, I = self.ctx, self.I
        n = 0
        for d in ds:
            res = [e for e in I.events if e.kind == 'call' and e.name in ('push', 'insert', 'push_back', 'push_front', 'unshift') and e.args and
                   any(x.op == 'mcall' and x.a[1] == d.name for y in e.args for x in subterms(y)) and self_field(e.recv)]
            for e in res:
                n += 1
                ctx.check(e.name in ('push', 'push_back'), 'queue', self.key('order'), 'a received message is not put at the end of the queue', e.loc)
                self.Q = self_field(e.recv)
                have = [with_len(c, S) for c in d.pc]
                for c in e.pc:
                    c2 = with_len(c, S)
                    if c2 in have or any(x.op == 'mcall' and x.a[1] in (d.name, 'decode') for x in subterms(c)):
                        continue
                    ctx.check(holds_under(have, c2), 'queue', self.key('condition'), 'a decoded message is queued only under an additional condition (%s)' % show(c)[:100], e.loc)
                if self.lang == 'rs':
                    ctx.check(any(x.op == 'rd' and x.a[0] == 'u32le' and x.a[1] is S and x.a[2] is Int(6) for y in e.args for x in subterms(y)),
                              'queue', self.key('header'), 'a queued message does not carry the header it came with', e.loc)
        ctx.check(n > 0, 'queue', self.key('queued'), 'a decoded message is not put into the queue', self.f.loc())


def is_err_under(pc, g):
    s = St({}, [])
    for c in pc:
        s.add(c)
    return s.dead or s.simp(Is('Error', g)) is TRUE


def holds_under(pc, c):
    s = St({}, [])
    for x in pc:
        s.add(x)
    return s.dead or s.simp(c) is TRUE


def item_at(I, v):
    """position in the queue a value was taken from: (queue, offset) or None"""
    v = codec.strip(v)
    while v.op == 'proj' and v.a[0] == 'Some':
        v = v.a[2]
    if v.op == 'mcall' and v.a[1] in ('clone', 'unwrap', 'next') and len(v.a) == 2:
        return item_at(I, v.a[0]) if v.a[1] != 'next' else first_of(I, v.a[0])
    if v.op == 'index' and v.a[1].op != 'range':
        b, off = v.a[0], lin(v.a[1])
        c = cut(I, b)
        if c:
            b, off = c[0], off.add(lin(c[1]))
        return b, off
    if v.op == 'mcall' and v.a[1] in ('first', 'pop_front', 'shift') and len(v.a) == 2:
        return first_of(I, v.a[0])
    if v.op == 'elem':
        return None
    return None


def first_of(I, b):
    c = cut(I, b)
    return (c[0], lin(c[1])) if c else (b, Lin({}, 0))


def queue_next(ctx, lang):
    p = subject.rs_static() if lang == 'rs' else subject.ts_static()
    fs = [f for f in p.all_fns if f.qual() in ('Buffer.next', 'BufferReader.next') and f.node.get('body')]
    if not fs:
        return ctx.missing('next() of the %s message buffer' % lang)
    f = fs[0]
    I = install(Interp(p))
    r, st = I.run_fn(f)
    key = lambda k: '%s: next: %s' % (lang, k)
    Q = None
    for cs, v in leaves(r):
        s = St({}, [])
        for c in cs:
            s.add(c)
        if s.dead:
            continue
        empty = v.op == 'ctor' and v.a[0] in ('None', 'undefined', 'null')
        if empty:
            qs = [x for c in cs for x in subterms(c) if x.op == 'len' and self_field(x.a[0])]
            if not qs:
                ctx.undecided('next', key('no message: ' + ' '.join(show(c)[:60] for c in cs)))
                continue
            ctx.check(refuted(cs, lin(qs[0]).add(Lin({}, 1), -1)), 'next', key('none'), 'no message is returned although one is queued', f.loc())
            continue
        it = item_at(I, v)
        if it is None or self_field(it[0]) is None:
            ctx.undecided('next', key(show(v)[:120]))
            continue
        Q = it[0]
        k = it[1].const()
        if k is None:
            ctx.check(not set(it[1].c) <= {mk('len', Q)}, 'next', key('front'), 'the message returned is not the oldest one', f.loc())
        else:
            ctx.check(k == 0, 'next', key('front'), 'the message returned is not the oldest one (position %s)' % k, f.loc())
        fin = st.env.get(('1#self', self_field(Q)))
        if fin is None:
            fin = Q
        for c2, x in leaves(fin):
            s = St({}, [])
            for c in list(cs) + list(c2):
                s.add(c)
            pc = list(cs) + list(c2)
            if s.dead or refuted(pc, Lin({}, 0)):
                continue
            if x is Q:
                ctx.bad('next', key('kept'), 'the message returned stays in the queue', f.loc())
            elif x.op in ('cat', 'emptymap', 'list') and not (x.a[1] if x.op == 'cat' else x.a):
                ctx.check(refuted(pc, lin(mk('len', Q)).add(Lin({}, 2), -1)), 'next', key('rest'), 'messages behind the one returned are dropped', f.loc())
            else:
                c3 = cut(I, x)
                if c3 is None or c3[0] is not Q:
                    ctx.undecided('next', key(show(x)[:120]))
                    continue
                ctx.check(lin(c3[1]).const() == 1 and lin(c3[2]).add(lin(mk('len', Q)), -1).const() == 0, 'next', key('rest'),
                          'the queue kept behind the message returned is not the rest of the queue', f.loc())
    ctx.check(Q is not None, 'next', key('message'), 'no queued message is ever returned', f.loc())
    return self_field(Q) if Q is not None else None


def W06(ctx):
    for lang in ('rs', 'ts'):
        c = Chunk(ctx, lang)
        c.run()
        q = queue_next(ctx, lang)
        if q and getattr(c, 'Q', None):
            ctx.check(q == c.Q, 'queue', '%s: same queue' % lang, 'messages are queued in %s and taken from %s' % (c.Q, q))
