"""H03, R03: the derived consumers."""
import functools, re
from .. import proj, worlds
from ..program import Ty
from ..schema import Stuck
from ..terms import *
from ..worlds import World, norm, UNDEF
from .producer import fieldpath, conj, struct_named, declared_once, same_map, LNAME

KEY_ANSWER, HASH_ANSWER, HASH_REQUEST, WELCOME, BEACON_ANSWER = [
    'InternalServiceGroup.' + n for n in ('SelfKeyResponse', 'HashResponse', 'HashRequest', 'ConnectConfirmationBeacon', 'BeaconConfirmation')]


def messages(p):
    """dotted names of everything the protocol can carry"""
    pr = p.model.protocol
    by = {g.id: g for g in pr.groups}
    out = []
    for x in list(pr.structs) + list(pr.enums):
        q, g = [x.name], x.parent
        while g:
            q.append(by[g].name)
            g = by[g].parent
        out.append('.'.join(q[::-1]))
    return out


def broadcasts(p):
    out = []
    for b in [b for r in p.model.requests for a in r.actions for b in a.broadcast] + [b for e in p.model.events for b in e.broadcasts]:
        if b.reference not in out:
            out.append(b.reference)
    return out


def answers(r):
    """(declared answer, conclusion or None for the error)"""
    out = []
    for a in r.actions:
        c = a.conclusion.a[0] if a.conclusion.name == 'Some' else None
        out.append((a.response.a[0], c or 'Response'))
    out.append((r.error.a[0], 'Err'))
    return out


def first_param(p, fn):
    ps = [x for x in fn.node.get('params') or [] if not x.get('self')]
    if not ps:
        return None
    ty = ps[0].get('ty') or (ps[0].get('pat') or {}).get('ty')
    if not ty:
        return None
    return type_path(p.prog.parse_type(ty, fn.mod))


def type_path(ty):
    while ty.name in ('ref', '&') and ty.args:
        ty = ty.args[0]
    for pre in ('crate::protocol::', 'protocol::', 'Protocol::'):
        if ty.name.startswith(pre):
            return ty.name[len(pre):].replace('::', '.')
    return None


# ---------------------------------------------------------------- Rust
def channel_end(t, end):
    """the channel a term is the sending ('0') or receiving ('1') end of"""
    t = strip_lv(t)
    if t.op == 'field' and t.a[1] == end and t.a[0].op == 'call' and t.a[0].a[0].split('::')[-1] in ('channel', 'unbounded_channel'):
        return t.a[0]
    return None


def strip_lv(t):
    while t.op == 'mcall' and t.a[1] in ('clone', 'by_ref', 'as_ref', 'as_mut', 'borrow') and len(t.a) == 2:
        t = t.a[0]
    return t


def received_from(t):
    """the channel whose next message this term is"""
    if t.op == 'proj' and t.a[0] == 'Some' and t.a[1] == 0:
        r = t.a[2]
        if r.op == 'mcall' and r.a[1] in ('recv', 'next', 'try_recv', 'blocking_recv'):
            return channel_end(r.a[0], '1')
    return None


def oneshot_answer(t):
    """the channel an answer term comes from"""
    if t.op == 'proj' and t.a[0] == 'Ok' and t.a[1] == 0:
        return channel_end(t.a[2], '1')
    return None


SEND = ('send', 'try_send', 'blocking_send', 'unbounded_send')


class Rust(object):
    lang = 'rs'

    def __init__(self):
        p = self.p = proj.project('consumer', 'rs')
        if p.errors:
            raise Stuck('the derived consumer does not parse: %s' % p.errors[:2])
        c = [f for f in p.prog.all_fns if f.name == 'connect' and not f.owner and f.file not in p.user]
        c = list({(f.file, f.node.get('l')): f for f in c}.values())
        if len(c) != 1:
            raise Stuck('connect() of the Rust consumer')
        self.connect = c[0]
        self.I = worlds.run(p, c[0])
        self.ev = self.I.events
        self.user = [(e, first_param(p, e.extra)) for e in self.ev if e.kind == 'call' and getattr(e.extra, 'file', None) in p.user]
        self.sent = {}
        for e in self.ev:
            if e.kind == 'call' and e.name in SEND and e.recv is not None and e.args:
                ch = channel_end(norm(e.recv), '0')
                if ch is not None:
                    self.sent.setdefault(ch, []).append(e)
        self.find_root()
        self.find_task()
        self.methods = [f for f in {(f.file, f.node.get('l')): f for f in p.prog.all_fns if f.owner and f.owner.split('::')[-1] == 'Consumer' and f.file not in p.user and f.node.get('self')}.values()]

    def find_root(self):
        roots = {}
        for e in self.ev:
            for t in list(e.args) + list(e.pc):
                for x in worlds.root_in(norm(t)):
                    roots[x] = roots.get(x, 0) + 1
        if len(roots) != 1:
            raise Stuck('%d origins of received messages' % len(roots))
        self.msg = list(roots)[0]
        self.hdr = mk('field', self.msg.a[0], 'header')

    def find_task(self):
        """roles of the commands of the channel the network task reads: told apart by what the task does with them"""
        self.cmd = None
        self.roles = {}
        self.task = []
        for e in self.ev:
            for ch, v, path in self.about(e):
                if e.kind == 'call' and e.name == 'insert' and len(e.args) == 2:
                    k, t = self.part(e.args[0]), self.part(e.args[1])
                    if k and t and k[:2] == t[:2]:
                        self.roles['request'] = (k[0], k[1], k[2], t[2], e)
                        self.pending = e.recv
        if 'request' not in self.roles:
            return
        self.cmd = self.roles['request'][0]
        for e in self.ev:
            if e.kind == 'call' and e.name in SEND and e.recv is not None and e.args:
                r = self.part(e.recv)
                a = norm(e.args[0])
                if r and r[0] is self.cmd and any(x.op == 'lv' for x in subterms(a)) and not any(x.op == 'mcall' for x in subterms(a)) and 'int' in (self.I.typeof(a).name, 'int') and self.counter(a):
                    self.roles['sequence'] = (r[0], r[1], r[2], e)

    def counter(self, a):
        for x in subterms(a):
            if x.op == 'lv' and len(x.a) == 3 and x.a[2].op == 'int':
                return True
        return False

    def about(self, e):
        seen = set()
        for t in list(e.args) + ([e.recv] if e.recv is not None else []):
            for x in subterms(norm(t)):
                r = self.part(x)
                if r and r not in seen:
                    seen.add(r)
                    yield r

    def part(self, t):
        """(channel, variant, path) of a part of a received command"""
        t = strip_lv(norm(t))
        q = []
        while True:
            if t.op == 'field':
                q.append(t.a[1])
                t = t.a[0]
            elif t.op == 'proj' and t.a[2].op != 'mcall':
                ch = received_from(t.a[2])
                if ch is not None:
                    return ch, t.a[0].split('::')[-1], tuple([str(t.a[1])] + q[::-1])
                return None
            else:
                return None

    def pick(self, t, path):
        """part of a built command"""
        if t.op != 'ctor':
            return None
        path = list(path)
        k = path.pop(0)
        try:
            t = t.a[1 + int(k)]
        except (ValueError, IndexError):
            return None
        for k in path:
            if t.op == 'tuple' and k.isdigit() and int(k) < len(t.a):
                t = t.a[int(k)]
            elif t.op == 'slit' and k in dict(t.a[1]):
                t = dict(t.a[1])[k]
            else:
                return None
        return t

    def variants(self, t):
        """[(condition, variant, payload)] of a value sent over a channel"""
        if t.op == 'ite':
            a, b = self.variants(t.a[1]), self.variants(t.a[2])
            if a is None or b is None:
                return None
            return [(And(t.a[0], c), v, x) for c, v, x in a] + [(And(Not(t.a[0]), c), v, x) for c, v, x in b]
        if t.op == 'ctor':
            return [(TRUE, t.a[0].split('::')[-1], t)]
        return None

    def possible(self, conds, of, depth=0):
        """can these conditions hold, given of(), if what channels deliver is what was sent into them?  Sender and
        receiver are different moments, so their conditions are judged apart; only the message ties them."""
        cs = []
        for c in conds:
            cs += conj(norm(c))
        got = None
        for c in cs:
            if c.op == 'is' and received_from(c.a[1]) in self.sent:
                got = c
                break
        if got is None or depth > 6:
            return And(*[of(c) for c in cs]) is not FALSE
        if And(*[of(c) for c in cs]) is FALSE:
            return False
        m, v = got.a[1], got.a[0].split('::')[-1]
        for e in self.sent[received_from(m)]:
            vs = self.variants(norm(e.args[0]))
            if vs is None:
                return True
            for c, w, y in vs:
                if w != v or not self.possible(list(e.pc) + [c], of, depth + 1):
                    continue

                def f(x):
                    if x.op == 'is' and x.a[1] is m:
                        return Bool(x.a[0].split('::')[-1] == v)
                    if x.op == 'proj' and x.a[2] is m and x.a[0].split('::')[-1] == v and x.a[1] + 1 < len(y.a):
                        return y.a[1 + x.a[1]]
                    return x
                if self.possible([rewrite(x, f, {}) for x in cs], of, depth + 1):
                    return True
        return False

    def delivered(self, t, of):
        """[value] a term about a received message can have"""
        t = norm(t)
        m = [x for x in subterms(t) if x.op == 'proj' and received_from(x.a[2]) in self.sent]
        if not m:
            return [t]
        x = m[0]
        v = x.a[0].split('::')[-1]
        out = []
        for e in self.sent[received_from(x.a[2])]:
            for c, w, y in self.variants(norm(e.args[0])) or []:
                if w == v and self.possible(list(e.pc) + [c], of) and x.a[1] + 1 < len(y.a):
                    out += self.delivered(subst(t, {x: y.a[1 + x.a[1]]}), of)
        return out

    def commands(self, I, pick='request'):
        """[(event, sequence, buffer, answer channel)] of the requests handed to the network task"""
        ch, v, kp, tp, ins = self.roles['request']
        out = []
        for e in I.events:
            if e.kind != 'call' or e.name not in SEND or not e.args:
                continue
            for c, w, x in self.variants(norm(e.args[0])) or []:
                if w == v:
                    tx = self.pick(x, tp)
                    out.append((e, self.pick(x, kp), x, channel_end(tx, '0') if tx is not None else None))
        return out

    def buffer(self, x):
        """the pack call whose bytes a command carries"""
        return [y for y in subterms(x) if y.op == 'mcall' and y.a[1] == 'pack']


def infra(x):
    """local channels, packing and sending work"""
    if x.op == 'is' and x.a[0] == 'Ok':
        t = x.a[1]
        if t.op == 'mcall' and t.a[1] in ('pack',) + SEND:
            return TRUE
        if channel_end(t, '1') is not None:
            return TRUE
    return None


def answered(ch, path, more=None):
    """facts of the case that the answer of a channel is the message named by path (None: no answer)"""
    rx = mk('field', ch, '1')
    full = ('Ok',) + tuple(path.split('.')) if path else ()

    def f(x):
        if x.op == 'is':
            if path is None and x.a[1] is rx:
                return FALSE
            q, b = worlds.proj_chain(x.a[1])
            if b is rx and path is not None and q == list(full[:len(q)]):
                return Bool(len(q) < len(full) and full[len(q)] == x.a[0].split('::')[-1])
        return more(x) if more else None
    return f


def error_field(ch, path, has):
    t = mk('field', ch, '1')
    for v in ['Ok'] + path.split('.'):
        t = mk('proj', v, 0, t)
    t = mk('field', t, 'error')

    def f(x):
        if x.op == 'is' and x.a[0] in ('Some', 'None') and strip_lv(x.a[1]) is t:
            return Bool((x.a[0] == 'Some') == has)
        return None
    return f


def chain(*fs):
    def f(x):
        for g in fs:
            y = g(x)
            if y is not None:
                return y
        return infra(x)
    return f


@functools.lru_cache(None)
def rust():
    return Rust()


def H03(ctx):
    H03_rs(ctx)
    H03_ts(ctx)


def H03_rs(ctx):
    s = rust()
    ctx.derived(s.p)
    if 'request' not in s.roles:
        ctx.undecided('handshake', 'rs: how requests wait for their answers')
        return
    name = 'Rust consumer'
    key = [(e, sq, x, ch) for e, sq, x, ch in s.commands(s.I) if not any(struct_named(y)[0] == HASH_REQUEST for y in subterms(x))]
    hsh = [(e, sq, x, ch) for e, sq, x, ch in s.commands(s.I) if any(struct_named(y)[0] == HASH_REQUEST for y in subterms(x))]
    ctx.count('requests of the handshake (Rust)', len(key) + len(hsh))
    ok = ctx.check(len(hsh) == 1, 'handshake', 'rs:hash', '%s: the hashes are sent at %d places instead of one' % (name, len(hsh)))
    ok &= ctx.check(len(key) == 1, 'handshake', 'rs:key', '%s: the self key is sent at %d places instead of one' % (name, len(key)))
    con = [e for e, t in s.user if t is None and event_of(e) == 'connected']
    if not con:
        ctx.missing('call of the connected event of the Rust consumer')
        return
    if not ok:
        return
    c1, c2 = key[0][3], hsh[0][3]
    if c1 is None or c2 is None:
        ctx.undecided('handshake', 'rs: where the answers arrive')
        return
    hev = hsh[0][0]
    errs = [e for ch in s.sent for e in s.sent[ch] if any(v == 'Error' for _, v, _ in s.variants(norm(e.args[0])) or [])]

    def under(e, a1, a2, err=False):
        w = World('rs', mk('sym', '-'), (), chain(*([answered(c1, a1)] + [answered(c2, a2)] + [error_field(c2, HASH_ANSWER, err)])))
        return s.possible(e.pc, lambda t: w.of(norm(t)))
    if not ctx.check(any(under(e, KEY_ANSWER, HASH_ANSWER) for e in con), 'connected', 'rs:good', '%s: the connected event is not raised after a successful handshake' % name, con[0].where()):
        return
    if not under(hev, KEY_ANSWER, HASH_ANSWER):
        ctx.bad('handshake', 'rs:hash', '%s: the hashes are not sent after the key was acknowledged' % name, hev.where())
    bad = [(m, HASH_ANSWER, False, 'the key was answered with %s' % m) for m in messages(s.p) if m != KEY_ANSWER]
    bad += [(KEY_ANSWER, m, False, 'the hashes were answered with %s' % m) for m in messages(s.p) if m != HASH_ANSWER]
    bad += [(KEY_ANSWER, HASH_ANSWER, True, 'the hashes were rejected'), (None, HASH_ANSWER, False, 'the key was not answered'), (KEY_ANSWER, None, False, 'the hashes were not answered')]
    quiet = [e for e in errs if not under(e, KEY_ANSWER, HASH_ANSWER)]
    for a1, a2, err, why in bad:
        ctx.count('wrong answers (Rust)')
        k = 'rs:%s' % why.replace(' ', '-')
        for e in con:
            ctx.check(not under(e, a1, a2, err), 'connected', k, '%s: the connected event is raised although %s' % (name, why), e.where())
        if a1 != KEY_ANSWER:
            ctx.check(not under(hev, a1, a2), 'order', k, '%s: the hashes are sent although %s' % (name, why), hev.where())
        ctx.check(any(under(e, a1, a2, err) for e in quiet), 'error', k, '%s: no error is reported although %s' % (name, why), con[0].where())
    ctx.floor('wrong answers (Rust)', ctx.scope.get('wrong answers (Rust)', 0), 40)


def event_of(e):
    """name of the user module a handler lives in"""
    return e.extra.file.rsplit('/', 1)[-1].split('.')[0]


# ---------------------------------------------------------------- R03
def R03(ctx):
    declared_once(ctx, proj.project('consumer', 'rs'), 'Rust consumer')
    R03_rs(ctx)
    declared_once(ctx, proj.project('consumer', 'ts'), 'TypeScript consumer')
    R03_ts(ctx)


def R03_rs(ctx):
    s = rust()
    ctx.derived(s.p)
    name = 'Rust consumer'
    if 'request' not in s.roles:
        ctx.bad('pending', 'rs:request', '%s: no command keeps the sender of an answer under a sequence number' % name)
        return
    task_request(ctx, s, name)
    acc = task_accept(ctx, s, name)
    seqv = task_sequence(ctx, s, name)
    if acc is not None:
        dropped(ctx, s, name, acc[0])
        incoming(ctx, s, name, acc)
    own_methods(ctx, s, name, seqv)


NOBODY = mk('sym', '-')


def cmd_world(s, v, more=None):
    """facts of the case that the network task received the command v"""
    def f(x):
        y = more(x) if more else None
        if y is not None:
            return y
        if x.op == 'is' and received_from(x.a[1]) is s.cmd:
            return Bool(x.a[0].split('::')[-1] == v)
        return infra(x)
    return World('rs', NOBODY, (), f)


def mentions(c, ch):
    return any(received_from(x) is ch for x in subterms(c))


def known_number(c):
    """whether a number is in use already"""
    return any(x.op == 'mcall' and x.a[1] in ('contains_key', 'get') for x in subterms(c))


def task_request(ctx, s, name):
    ch, v, kp, tp, ins = s.roles['request']
    w = cmd_world(s, v)
    extra = [c for c in conj(w.pc(ins)) if mentions(c, s.cmd) and not known_number(c)]
    ctx.check(not extra, 'pending', 'rs:kept', '%s: a request is kept waiting only if %s' % (name, show(extra[0])[:80] if extra else ''), ins.where())
    sends = []
    for e in s.ev:
        if e.kind == 'call' and e.name in SEND and e.args and e is not ins and s.part(e.recv) is None and w.pc(e) is not FALSE:
            # the bytes themselves, as they are or wrapped
            x = norm(e.args[0])
            while x.op in ('ctor', 'tuple') and len(x.a) == (2 if x.op == 'ctor' else 1):
                x = x.a[-1]
            r = s.part(x)
            if r and r[0] is s.cmd and r[1] == v and r[2] not in (kp, tp):
                sends.append((e, r[2]))
    if not ctx.check(len(sends) == 1, 'pending', 'rs:sent', '%s: the message of a request is sent %d times' % (name, len(sends)), ins.where()):
        return
    e, bp = sends[0]
    extra = [c for c in conj(w.pc(e)) if mentions(c, s.cmd) and not known_number(c)]
    ctx.check(not extra, 'pending', 'rs:sent-always', '%s: the message of a request is sent only if %s' % (name, show(extra[0])[:80] if extra else ''), e.where())
    s.roles['bytes'] = bp


def vary(t, ch):
    """a comparison of parts of the received command with constants"""
    if t.op in ('and', 'or'):
        return all(vary(x, ch) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a))
    if t.op == 'not':
        return vary(t.a[0], ch)
    if t.op in ('==', '<', '<=') or t.op == 'bin':
        xs = [x for x in t.a if isinstance(x, T)]
        return sum(x.op in ('int', 'str', 'bool') for x in xs) == 1 and any(x.op not in ('int', 'str', 'bool') and part_of(x, ch) for x in xs)
    return False


def part_of(t, root):
    """reached from the received value by projections only"""
    while True:
        if t is root or received_from(t) is root or t.op == 'field' and t.a[0] is root and t.a[1] == '1':
            return True
        if t.op in ('field', 'lv', 'ref', 'deref', 'len') or t.op == 'mcall' and len(t.a) == 2:
            t = t.a[0]
        elif t.op == 'proj':
            t = t.a[2]
        else:
            return False
        if not isinstance(t, T):
            return False


def dropped(ctx, s, name, acc):
    """nothing but its answer ends the waiting of a request"""
    for e in s.ev:
        if e.kind == 'call' and e.name in ('remove', 'remove_entry', 'retain', 'clear', 'drain') and e.recv is not None and same_map(norm(e.recv), norm(s.pending)):
            for v in sorted({x.a[0].split('::')[-1] for x in subterms(And(*e.pc)) if x.op == 'is' and received_from(x.a[1]) is s.cmd}):
                if v != acc and cmd_world(s, v).pc(e) is not FALSE:
                    ctx.bad('deliver', 'rs:dropped:%s' % v, '%s: the command %s makes requests stop waiting' % (name, v), e.where())
    ctx.ok('deliver', 'rs:dropped')


def task_accept(ctx, s, name):
    """the command that offers an incoming message to the pending requests"""
    out = []
    for e in s.ev:
        if e.kind != 'call' or e.name not in SEND or not e.args or e.recv is None:
            continue
        r = strip_lv(norm(e.recv))
        m = s.part(e.args[0])
        if r.op == 'proj' and r.a[0] == 'Some' and r.a[2].op in ('mcall', 'mut') and m and m[0] is s.cmd:
            g = r.a[2]
            k = s.part(g.a[2]) if len(g.a) > 2 else None
            out.append((e, m, g, k))
    if not ctx.check(len(out) == 1, 'deliver', 'rs:accept', '%s: incoming messages are handed to waiting requests at %d places instead of one' % (name, len(out)), out[0][0].where() if out else None):
        return None
    e, m, g, k = out[0]
    av = m[1]
    ctx.check(same_map(norm(g.a[0]), norm(s.pending)), 'deliver', 'rs:map', '%s: the waiting request is looked up in %s, requests are kept in %s' % (name, show(g.a[0])[:40], show(s.pending)[:40]), e.where())
    if not ctx.check(k is not None and k[:2] == m[:2] and k[2] != m[2], 'deliver', 'rs:key', '%s: the waiting request is looked up with %s' % (name, show(g.a[2])[:80] if len(g.a) > 2 else '?'), e.where()):
        return None

    def when(yes):
        return lambda x: Bool(yes == (x.a[0] == 'Some')) if x.op == 'is' and x.a[1] is g and x.a[0] in ('Some', 'None') else None
    extra = [c for c in conj(cmd_world(s, av, when(True)).pc(e)) if mentions(c, s.cmd)]
    ctx.check(not extra, 'deliver', 'rs:handed', '%s: the answer is handed over only if %s' % (name, show(extra[0])[:80] if extra else ''), e.where())
    reply = []
    for e2 in s.ev:
        if e2.kind == 'call' and e2.name in SEND and e2.recv is not None and e2.args:
            r = s.part(e2.recv)
            if r and r[0] is s.cmd and r[1] == av:
                reply.append((e2, r[2]))
    if not ctx.check(len(reply) >= 1, 'deliver', 'rs:reply', '%s: nobody is told whether a waiting request took the message' % name, e.where()):
        return None
    for yes in (True, False):
        wy = cmd_world(s, av, when(yes))
        vals = [wy.of(norm(e2.args[0])) for e2, _ in reply if wy.pc(e2) is not FALSE]
        # a value that varies with the command alone takes both
        vals = [Bool(not yes) if t.op != 'bool' and vary(t, s.cmd) else t for t in vals]
        if any(t.op != 'bool' for t in vals):
            ctx.undecided('deliver', 'rs: the reply %s' % show(vals[0])[:80])
            continue
        ctx.check(vals == [Bool(yes)], 'deliver', 'rs:reply-%s' % ('taken' if yes else 'free'), '%s: a message %s is reported as %s' % (name, 'a waiting request took' if yes else 'no request waits for', ' and '.join('taken' if t is TRUE else 'not taken' for t in vals) or 'nothing'), reply[0][0].where())
    return av, k[2], m[2], reply[0][1]


def leaves(t, conds=()):
    if t.op == 'ite':
        yield from leaves(t.a[1], conds + (t.a[0],))
        yield from leaves(t.a[2], conds + (Not(t.a[0]),))
    else:
        yield t, conds


def task_sequence(ctx, s, name):
    """sequence numbers are new each time and never those of the handshake"""
    if 'sequence' not in s.roles:
        ctx.bad('sequence', 'rs:source', '%s: no command answers with a new sequence number' % name)
        return None
    ch, v, rp, e = s.roles['sequence']
    own = [sq.a[0] for _, sq, _, _ in s.commands(s.I) if sq is not None and sq.op == 'int']
    ctx.check(len(set(own)) == len(own), 'sequence', 'rs:handshake', '%s: two requests of the handshake use the same sequence number' % name, e.where())
    counter_rule(ctx, 'sequence', 'rs', name, norm(e.args[0]), s.I, lambda k, t: cmd_world(s, k or v).of(norm(t)), own,
                 lambda nxt: [k for k in {x.a[0].split('::')[-1] for x in subterms(nxt) if x.op == 'is' and received_from(x.a[1]) is s.cmd} if k != v], e)
    return v


def modulus(t, lv):
    """the counter taken modulo a constant"""
    if t.op == 'bin' and t.a[0] in ('%', '&') and t.a[2].op == 'int' and offset(t.a[1], lv):
        return t.a[2].a[0] + (t.a[0] == '&')
    if t.op == 'bin' and t.a[0] == '+':
        return next((r for r in (modulus(x, lv) for x in t.a[1:]) if r), None)
    return None


def offset(t, lv):
    """(relative to the counter?, number)"""
    if t is lv:
        return True, 0
    if t.op == 'int':
        return False, t.a[0]
    if t.op == 'bin' and t.a[0] == '+':
        for a, b in (t.a[1:], t.a[:0:-1]):
            if b.op == 'int':
                r = offset(a, lv)
                if r is not None:
                    return r[0], r[1] + b.a[0]
    return None


def counter_rule(ctx, rule, lang, name, val, I, case, own, others, e):
    lv = list(dict.fromkeys(x for x in subterms(val) if x.op == 'lv' and len(x.a) == 3 and x.a[2].op == 'int'))
    if len(lv) != 1:
        ctx.undecided(rule, '%s: %s' % (lang, show(val)[:100]))
        return
    lv = lv[0]
    init = lv.a[2].a[0]
    li = I.loopinfo.get(lv.a[0])
    nxt = None
    for k, ph in (li or {'ph': {}})['ph'].items():
        if ph is lv:
            nxt = li['next'].get(k)
    if nxt is None:
        ctx.undecided(rule, '%s: how the counter goes on' % lang)
        return
    r = [(offset(t, lv), c, t) for t, c in leaves(case(None, val))]
    q = [(offset(t, lv), c, t) for t, c in leaves(case(None, nxt))]
    small = [m for o, _, t in r + q if o is None for m in [modulus(t, lv)] if m and m < 1 << 16]
    if small:
        ctx.bad(rule, lang + ':reset', '%s: sequence numbers start over after %d' % (name, small[0]), e.where())
        return
    if any(o is None for o, _, _ in r + q):
        ctx.undecided(rule, '%s: the number sent is %s, the counter becomes %s' % (lang, show(r[0][2])[:80], show(q[0][2])[:80]))
        return
    low = max(own) if own else 0
    for (o, c, t) in r:
        for (p, d, u) in q:
            if And(*(c + d)) is FALSE or any(Not(x) in d for x in c):
                continue
            if o[0] and p[0]:
                ctx.check(p[1] >= 1, rule, lang + ':advance', '%s: the counter of sequence numbers does not advance when a number is handed out' % name, e.where())
                ctx.check(init + o[1] > low, rule, lang + ':first', '%s: the first sequence number %d is one the handshake uses' % (name, init + o[1]), e.where())
            else:
                big = [b for x in c + d for b in bounds(x, lv)]
                ctx.check(bool(big) and min(big) >= 1 << 16, rule, lang + ':reset', '%s: sequence numbers start over %s' % (name, 'after %d' % min(big) if big else 'at once'), e.where())
                n = o[1] if not o[0] else p[1]
                ctx.check(n > low, rule, lang + ':reset-value', '%s: sequence numbers start over at %d, which the handshake uses' % (name, n), e.where())
    for k in others(norm(nxt)):
        for t, c in leaves(case(k, nxt)):
            o = offset(t, lv)
            ctx.check(o is None or o[0] and o[1] >= 0, rule, '%s:other-%s' % (lang, k), '%s: %s sets the counter of sequence numbers back' % (name, k), e.where())


def bounds(c, lv):
    """numbers the counter is compared with"""
    out = []
    for x in subterms(c):
        if x.op in ('<', '<=', '>', '>=', '==', 'lt', 'le', 'bin') and (x.op != 'bin' or x.a[0] in ('<', '<=', '>', '>=')):
            k = [y.a[0] for y in x.a if isinstance(y, T) and y.op == 'int']
            if k and any(z is lv for y in x.a if isinstance(y, T) for z in subterms(y)):
                out += k
    return out


def incoming(ctx, s, name, acc):
    av, kp, mp, rp = acc
    bs = set(broadcasts(s.p))
    offers = []
    for e in s.ev:
        if e.kind == 'call' and e.name in SEND and e.args and channel_end(norm(e.recv), '0') is s.cmd:
            for c, w, x in s.variants(norm(e.args[0])) or []:
                if w == av:
                    offers.append((e, s.pick(x, kp), s.pick(x, mp), channel_end(s.pick(x, rp) or UNIT, '0')))
    if not ctx.check(len(offers) >= 1, 'offer', 'rs', '%s: incoming messages are not offered to waiting requests' % name):
        return
    hs = [(e, t) for e, t in s.user if t is not None]
    errs = [e for ch in s.sent for e in s.sent[ch] if any(v == 'Error' for _, v, _ in s.variants(norm(e.args[0])) or [])]
    for m in messages(s.p):
        if m == WELCOME:
            continue
        ctx.count('messages followed (Rust)')
        w = World('rs', s.msg, m.split('.'), infra)
        al = [o for o in offers if w.pc(o[0]) is not FALSE]
        if not ctx.check(len(al) == 1, 'offer', 'rs:%s' % m, '%s: a message %s is offered to the waiting requests %d times' % (name, m, len(al)), offers[0][0].where()):
            continue
        e, k, x, ch = al[0]
        extra = [c for c in conj(w.pc(e)) if any(y is s.msg or y is s.hdr for y in subterms(norm(c)))]
        ctx.check(not extra, 'offer', 'rs:%s:always' % m, '%s: a message %s is offered to the waiting requests only if %s' % (name, m, show(extra[0])[:80] if extra else ''), e.where())
        ctx.check(strip_lv(norm(k)) is mk('field', s.hdr, 'sequence'), 'offer', 'rs:%s:sequence' % m, '%s: a message %s is offered under %s instead of its own sequence number' % (name, m, show(k)[:60]), e.where())
        ctx.check(strip_lv(norm(x)) is s.msg, 'offer', 'rs:%s:message' % m, '%s: instead of a message %s the waiting requests are offered %s' % (name, m, show(x)[:60]), e.where())
        if ch is None:
            ctx.undecided('offer', 'rs:%s: the reply' % m)
            continue
        rep = mk('proj', 'Ok', 0, mk('field', ch, '1'))

        def taken(yes):
            return lambda t: Bool(yes) if t is rep else infra(t)
        for yes in (True, False):
            wy = World('rs', s.msg, m.split('.'), taken(yes))
            of = lambda t: wy.of(norm(t))
            got = [(h, t) for h, t in hs if s.possible(h.pc, of)]
            what = '%s that %s' % (m, 'a waiting request took' if yes else 'no request waits for')
            key = 'rs:%s:%s' % (m, 'taken' if yes else 'free')
            if yes or m not in bs:
                for h, t in got:
                    ctx.bad('broadcast', key, '%s: a message %s reaches the broadcast handler of %s' % (name, what, t), h.where())
                if not got:
                    ctx.ok('broadcast', key)
                if not yes:
                    wt = World('rs', s.msg, m.split('.'), taken(True))
                    told = [h for h in errs if s.possible(h.pc, of) and not s.possible(h.pc, lambda t: wt.of(norm(t)))]
                    ctx.check(bool(told), 'report', key, '%s: a message %s is dropped without an error' % (name, what), e.where())
            elif ctx.check([t for _, t in got] == [m], 'broadcast', key, '%s: a broadcast %s reaches the handlers of %s' % (name, what, ', '.join(t for _, t in got) or 'nobody'), got[0][0].where() if got else None):
                h = got[0][0]
                vals = s.delivered(h.args[0], of)
                ctx.check(bool(vals) and all(wy.of(strip_lv(norm(y))) is wy.payload() for y in vals), 'payload', key, '%s: the handler of %s is given %s' % (name, m, show(vals[0])[:80] if vals else 'nothing'), h.where())
    ctx.floor('messages followed (Rust)', ctx.scope.get('messages followed (Rust)', 0), 40)


def own_methods(ctx, s, name, seqv):
    """the requests and beacons users send"""
    reqs = {r.request.a[0]: r for r in s.p.model.requests}
    beas = {b.reference for b in s.p.model.beacons}
    by = {}
    for f in s.methods:
        t = first_param(s.p, f)
        if t in reqs or t in beas:
            by.setdefault(t, []).append(f)
    for n in sorted(reqs) + sorted(beas):
        fs = by.get(n, [])
        ctx.count('requests and beacons (Rust)')
        if ctx.check(len(fs) == 1, 'method', 'rs:%s' % n, '%s: %d methods send %s' % (name, len(fs), n), fs[0].loc() if fs else None):
            method(ctx, s, name, n, fs[0], reqs.get(n), seqv)
    ctx.floor('requests and beacons (Rust)', ctx.scope.get('requests and beacons (Rust)', 0), 12)


def method(ctx, s, name, n, fn, r, seqv):
    I = worlds.run(s.p, fn)
    key = 'rs:%s' % n
    cs = s.commands(I)
    if not ctx.check(len(cs) == 1, 'request', key, '%s: %s is handed to the network %d times' % (name, n, len(cs)), fn.loc()):
        return
    e, sq, x, ch = cs[0]
    par = [p['pat'].get('n') for p in fn.node['params']][0]
    packs = [y for y in s.buffer(x) if strip_lv(y.a[0]) is mk('sym', par)]
    if not ctx.check(len(set(packs)) == 1, 'request', key + ':message', '%s: what is sent for %s is not the message given' % (name, n), e.where()):
        return
    ctx.check(packs[0].a[2] is sq, 'request', key + ':sequence', '%s: %s is packed with the sequence number %s, its answer is expected under %s' % (name, n, show(packs[0].a[2])[:60], show(sq)[:60]), e.where())
    src = oneshot_answer(sq)
    if src is None:
        if sq.op in ('int', 'field', 'sym'):
            ctx.bad('request', key + ':fresh', '%s: %s uses the sequence number %s instead of a new one' % (name, n, show(sq)[:60]), e.where())
        else:
            ctx.undecided('request', key + ': origin of the sequence number')
    elif seqv is not None:
        asks = [c for c in I.events if c.kind == 'call' and c.name in SEND and c.args and any(w == seqv and any(channel_end(z, '0') is src for z in subterms(y)) for _, w, y in s.variants(norm(c.args[0])) or [])]
        ctx.check(len(asks) == 1, 'request', key + ':fresh', '%s: %s uses a sequence number that is not a new one' % (name, n), e.where())
    if ch is None:
        ctx.undecided('request', key + ': where the answer arrives')
        return
    sel = [c for c in e.pc if c.op == 'selected' or c.op == 'not' and c.a[0].op == 'selected']
    decl = answers(r) if r is not None else [(BEACON_ANSWER, None)]

    def arm(on):
        def f(t):
            for c in sel:
                if t is c:
                    return Bool(on)
                if c.op == 'not' and t is c.a[0]:
                    return Bool(not on)
            return None
        return f
    for m in messages(s.p):
        ctx.count('answers followed (Rust)')
        want = [c for t, c in decl if t == m]
        cases = [(None, None)] if r is not None or m != BEACON_ANSWER else [(error_field(ch, m, False), False), (error_field(ch, m, True), True)]
        for more, err in cases:
            w = World('rs', mk('field', ch, '1'), ('Ok',) + tuple(m.split('.')), chain(arm(True), answered(ch, m, more)))
            v = w.of(norm(I.result))
            k2 = '%s:%s%s' % (key, m, '' if err is None else ':rejected' if err else ':confirmed')
            if v.op == 'ite':
                # what depends on the answer alone can come out either way
                wrong = 'Ok' if not want or err else 'Err'
                for u, cs in leaves(v):
                    if u.op == 'ctor' and u.a[0] == wrong and all(vary(c, w.payload()) or vary(c, ch) for c in cs):
                        v = u
                        break
            if v.op != 'ctor' or v.a[0] not in ('Ok', 'Err'):
                ctx.undecided('answer', '%s: %s' % (k2, show(v)[:120]))
                continue
            if not want or err:
                ctx.check(v.a[0] == 'Err', 'answer', k2, '%s: %s succeeds although it was answered with %s%s' % (name, n, m, ' carrying an error' if err else ''), fn.loc())
                continue
            if not ctx.check(v.a[0] == 'Ok', 'answer', k2, '%s: %s fails although it was answered with %s' % (name, n, m), fn.loc()) or r is None:
                continue
            u = v.a[1]
            if u.op != 'ctor' or len(u.a) != 2:
                ctx.undecided('answer', '%s: %s' % (k2, show(u)[:120]))
                continue
            var = u.a[0].split('::')[-1]
            ctx.check(var == want[0], 'answer', k2 + ':variant', '%s: the answer %s of %s is returned as %s, declared as %s' % (name, m, n, var, want[0]), fn.loc())
            ctx.check(strip_lv(u.a[1]) is w.payload(), 'answer', k2 + ':payload', '%s: with the answer %s of %s the caller is given %s' % (name, m, n, show(u.a[1])[:60]), fn.loc())
    # no answer at all
    w = World('rs', NOBODY, (), chain(arm(True), answered(ch, None)))
    v = w.of(norm(I.result))
    if v.op == 'ctor':
        ctx.check(v.a[0] == 'Err', 'answer', key + ':gone', '%s: %s succeeds although it was not answered' % (name, n), fn.loc())
    else:
        ctx.undecided('answer', '%s: %s' % (key, show(v)[:100]))
    if r is None:
        return
    late = [c for c in I.events if c.kind == 'call' and (c.name or '').split('::')[-1] in ('sleep', 'timeout', 'sleep_until', 'timeout_at')]
    if not ctx.check(bool(late), 'timeout', key, '%s: %s waits for its answer without a limit' % (name, n), fn.loc()):
        return
    waits = [c for c in late if c.name.split('::')[-1] == 'sleep']
    if not waits or not sel:
        if waits:
            ctx.bad('timeout', key + ':beside', '%s: the limit of %s does not run while the answer is awaited' % (name, n), waits[0].where())
        else:
            ctx.undecided('timeout', '%s: how the limit is applied' % key)
        return
    w = World('rs', NOBODY, (), chain(arm(False)))
    for c in waits:
        t = norm(c.args[0]) if c.args else UNIT
        okay = t.op == 'call' and t.a[0].split('::')[-1] == 'from_millis' and own_timeout(s, t.a[1])
        ctx.check(okay, 'timeout', key + ':length', '%s: %s waits %s; the limit is the request timeout of the options in milliseconds' % (name, n, show(t)[:60]), c.where())
        ctx.check(w.pc(c) is not FALSE, 'timeout', key + ':beside', '%s: the limit of %s does not run while the answer is awaited' % (name, n), c.where())
        only = [x for x in (w.of(y) for y in c.pc if y not in e.pc) if x is not TRUE and any(y is mk('sym', 'self') or y is mk('sym', par) for y in subterms(x))]
        ctx.check(not only, 'timeout', key + ':always', '%s: the limit of %s only runs if %s' % (name, n, show(only[0])[:80] if only else ''), c.where())
    v = w.of(norm(I.result))
    if v.op == 'ctor':
        ctx.check(v.a[0] == 'Err', 'timeout', key + ':error', '%s: %s succeeds although no answer came in time' % (name, n), fn.loc())
    else:
        ctx.undecided('timeout', '%s: %s' % (key, show(v)[:100]))


def own_timeout(s, t):
    """the field of the consumer that connect() fills from the options"""
    b, q = fieldpath(strip_lv(t))
    if b is not mk('sym', 'self') or not q:
        return False
    for e in s.ev:
        for a in e.args:
            for x in subterms(norm(a)):
                if x.op == 'slit' and x.a[0].split('::')[-1] == 'Consumer':
                    y = x
                    for n in q:
                        y = dict(y.a[1]).get(n) if y is not None and y.op == 'slit' else None
                    if y is not None:
                        return show(strip_lv(y)) == 'options.request_timeout'
    return False


# ---------------------------------------------------------------- TypeScript
def resolver(e):
    """('resolve' | 'reject', promise) of a call that settles a promise"""
    if e.kind == 'call' and e.recv is not None and e.recv.op == 'sym':
        for k in ('resolve', 'reject'):
            n = e.recv.a[0]
            if n.startswith(k) and n[len(k):].isdigit():
                return k, int(n[len(k):])
    return None


def promise_of(t):
    """the promise a resolver kept for later belongs to"""
    if t.op == 'sym' and t.a[0].startswith('resolve') and t.a[0][7:].isdigit():
        return mk('promise', int(t.a[0][7:]))
    return None


class Ts(object):
    lang = 'ts'

    def __init__(self):
        p = self.p = proj.project('consumer', 'ts')
        if p.errors:
            raise Stuck('the derived consumer does not parse: %s' % p.errors[:2])
        self.cls = self.owner('Consumer', 'request')
        self.memo = {}

    def owner(self, cls, method):
        fs = [f for f in self.p.prog.all_fns if f.name == method and f.owner and f.owner.split('::')[-1] == cls]
        if len({(f.file, f.node.get('l')) for f in fs}) != 1:
            raise Stuck('%s.%s of the TypeScript consumer' % (cls, method))
        return fs[0].owner

    def method(self, name, owner=None):
        return self.p.prog.method(Ty(owner or self.cls), name)

    def run(self, fn):
        k = (fn.file, fn.node.get('l'), fn.name)
        if k not in self.memo:
            self.memo[k] = worlds.run(self.p, fn)
        return self.memo[k]

    @functools.lru_cache(None)
    def entries(self):
        """methods subscribed to the events of the client"""
        fn = self.method('constructor')
        I = self.run(fn)
        out = {}
        for e in I.events:
            if e.kind == 'call' and e.name == 'subscribe' and e.recv is not None and e.recv.op == 'field':
                b, q = fieldpath(e.recv)
                a = norm(e.args[0])
                while a.op == 'mcall' and a.a[1] == 'bind':
                    a = a.a[0]
                if b.op == 'mcall' and b.a[1] == 'getEvents' and a.op == 'field':
                    f = self.method(a.a[1])
                    if f is not None:
                        out[q[-1]] = f
        return out

    def fields(self):
        """initial values of the fields of the consumer"""
        return fields_of(self.p, self.cls)


def fields_of(p, cls):
    it = p.prog.items.get(cls)
    return {} if it is None else {m.get('n'): m for m in it[0].get('members') or it[0].get('fields') or [] if isinstance(m, dict)}


def ts_facts(ok=True, numbers=()):
    """sending works, numbers are new, whoever asks is defined"""
    def f(x):
        if x.op == 'is':
            t = x.a[1]
            if x.a[0] == 'undefined':
                if t in numbers or t.op == 'field' and t.a[1] in ('_consumer',):
                    return FALSE
                if t.op == 'mcall' and t.a[1] == 'next':
                    return FALSE
                if t.op == 'elem':
                    return FALSE
            if x.a[0] == 'Error':
                if t.op == 'mcall' and t.a[1] == 'send':
                    return Bool(not ok)
                if t.op == 'field' and t.a[1] == '_consumer':
                    return FALSE
            if x.a[0] == 'Array' and t.op == 'mcall' and t.a[1] == 'chunk':
                return FALSE
            if x.a[0] in ('Pending', 'Destroyed') and t.op == 'field' and t.a[0] is mk('sym', 'self'):
                return FALSE
            if x.a[0] == 'Ready' and t.op == 'field' and t.a[0] is mk('sym', 'self'):
                return TRUE
        if x.op == 'mcall' and x.a[1] == 'has':
            return FALSE
        return None
    return f


class TsWorld(object):
    """A case: what the requests waiting in the pending map are answered with."""

    def __init__(self, s, I, answers, facts, more=None):
        """answers: promise term -> (path or None if nobody answers)"""
        self.s, self.I, self.answers = s, I, answers
        self.busy = set()
        self.settled = {}
        steps = [World('ts', k, tuple(v.split('.'))).step for k, v in answers.items() if v]

        def f(x):
            if more:
                y = more(x)
                if y is not None:
                    return y
            if x.op == 'is' and x.a[0] in ('undefined', 'Error', 'null') and x.a[1] in answers:
                return FALSE
            if x.op == 'is' and x.a[0] == 'Fulfilled':
                t = x.a[1]
                if t in answers:
                    return Bool(answers[t] is not None)
                r = self.outcome(t)
                if r is not None:
                    return Bool(r == 'resolve')
            y = facts(x)
            if y is not None:
                return y
            for g in steps:
                y = g(x)
                if y is not x:
                    return y
            return None
        self.w = World('ts', NOBODY, (), f)

    def of(self, t):
        return self.w.of(norm(t))

    def pc(self, e):
        return self.w.pc(e)

    def outcome(self, t):
        """'resolve' or 'reject' if this promise surely settles that way; the first call that settles it counts"""
        if t.op == 'mcall' and t.a[1] in ('reject', 'resolve') and t.a[0].op == 'sym' and t.a[0].a[0] == 'Promise':
            return t.a[1]
        if t.op == 'mcall' and t.a[1] == 'then' and len(t.a) == 3 and self.outcome(t.a[0]) == 'reject':
            return 'reject'
        if t.op != 'promise' or t in self.busy:
            return None
        if t in self.settled:
            return self.settled[t]
        self.busy.add(t)
        r = None
        open_ = False
        for e in self.I.events:
            q = resolver(e)
            if q is None or q[1] != t.a[0]:
                continue
            c = self.pc(e)
            if c is FALSE:
                continue
            if c is TRUE and not open_:
                r = q[0]
                break
            open_ = True
            r = q[0] if r in (None, q[0]) else 'either'
            if c is TRUE:
                break
        self.busy.discard(t)
        if r is None:
            r = 'never'
        self.settled[t] = r
        return None if r == 'either' else r

    def value(self, t):
        """what a promise is resolved with, per possible call"""
        out = []
        for e in self.I.events:
            q = resolver(e)
            if q is not None and q[1] == t.a[0]:
                c = self.pc(e)
                if c is FALSE:
                    continue
                if q[0] == 'resolve':
                    out.append(self.of(e.args[0]) if e.args else UNDEF)
                if c is TRUE:
                    break
        return out


@functools.lru_cache(None)
def ts():
    return Ts()


def waiting(s, I, mapname=None):
    """[(pack call, sequence, promise, event)] of the requests a function leaves waiting for their answers"""
    out = []
    last = None
    for e in I.events:
        if e.kind == 'call' and e.name == 'send' and e.args:
            last = e
        if e.kind == 'call' and e.name == 'set' and e.recv is not None and len(e.args) == 2:
            k = promise_of(e.args[1])
            if k is not None:
                out.append((last, e.args[0], k, e))
    return out


def packed(t):
    return [y for y in subterms(t) if y.op == 'mcall' and y.a[1] == 'pack']


def H03_ts(ctx):
    s = ts()
    ctx.derived(s.p)
    name = 'TypeScript consumer'
    fn = s.entries().get('connected')
    if fn is None:
        ctx.missing('what the TypeScript consumer does once the client is connected')
        return
    I = s.run(fn)
    ws = waiting(s, I)
    numbers = {q for _, q, _, _ in ws}
    isf = lambda se: any(struct_named(y.a[0])[0] == HASH_REQUEST for y in packed(norm(se.args[0])))
    hsh = [x for x in ws if x[0] is not None and isf(x[0])]
    key = [x for x in ws if x[0] is not None and not isf(x[0])]
    ctx.count('requests of the handshake (TypeScript)', len(ws))
    ok = ctx.check(len(hsh) == 1, 'handshake', 'ts:hash', '%s: the hashes are sent at %d places instead of one' % (name, len(hsh)), fn.loc())
    ok &= ctx.check(len(key) == 1, 'handshake', 'ts:key', '%s: the self key is sent at %d places instead of one' % (name, len(key)), fn.loc())
    rdy = []
    for f in {(f.file, f.node.get('l')): f for f in s.p.prog.all_fns if f.owner == s.cls}.values():
        for e in s.run(f).events:
            if ready_emit(e):
                rdy.append((f, e))
    mine = [e for e in I.events if ready_emit(e)]
    own = {e.loc for e in mine}
    for f, e in rdy:
        if e.loc not in own:
            ctx.bad('connected', 'ts:elsewhere:%s' % f.name, '%s: the ready event is raised in %s, outside the handshake' % (name, f.qual()), e.where())
    if not mine:
        ctx.missing('ready event of the TypeScript consumer')
        return
    if not ok:
        return
    p1, p2 = key[0][2], hsh[0][2]
    hev = hsh[0][0]

    def world(a1, a2, err=False, sent=True):
        t = mk('field', mk('field', mk('field', p2, 'InternalServiceGroup'), 'HashResponse'), 'error')
        t2 = mk('index', mk('index', mk('index', p2, Str('InternalServiceGroup')), Str('HashResponse')), Str('error'))

        def more(x):
            if x is t or x is t2:
                return x if err else UNDEF
            if x.op == 'un' and x.a[0] == 'typeof' and x.a[1] in (t, t2):
                return Str('string')
            if x.op == 'is' and x.a[1] in (t, t2):
                return FALSE
            return None
        return TsWorld(s, I, {p1: a1, p2: a2}, ts_facts(sent, numbers), more)
    good = world(KEY_ANSWER, HASH_ANSWER)
    if not ctx.check(any(good.pc(e) is not FALSE for e in mine), 'connected', 'ts:good', '%s: the ready event is not raised after a successful handshake' % name, mine[0].where()):
        return
    if good.pc(hev) is FALSE:
        ctx.bad('handshake', 'ts:hash', '%s: the hashes are not sent after the key was acknowledged' % name, hev.where())
    bad = [(m, HASH_ANSWER, False, True, 'the key was answered with %s' % m) for m in messages(s.p) if m != KEY_ANSWER]
    bad += [(KEY_ANSWER, m, False, True, 'the hashes were answered with %s' % m) for m in messages(s.p) if m != HASH_ANSWER]
    bad += [(KEY_ANSWER, HASH_ANSWER, True, True, 'the hashes were rejected'), (None, HASH_ANSWER, False, True, 'the key was not answered'), (KEY_ANSWER, None, False, True, 'the hashes were not answered'),
            (KEY_ANSWER, HASH_ANSWER, False, False, 'nothing could be sent')]
    outer = [mk('promise', n) for n in sorted({resolver(e)[1] for e in I.events if resolver(e)})]
    for a1, a2, err, sent, why in bad:
        ctx.count('wrong answers (TypeScript)')
        k = 'ts:%s' % why.replace(' ', '-')
        w = world(a1, a2, err, sent)
        for e in mine:
            ctx.check(w.pc(e) is FALSE, 'connected', k, '%s: the ready event is raised although %s' % (name, why), e.where())
        if a1 != KEY_ANSWER or not sent:
            ctx.check(w.pc(hev) is FALSE, 'order', k, '%s: the hashes are sent although %s' % (name, why), hev.where())
        if a1 is not None and a2 is not None:
            ctx.check(any(w.outcome(t) == 'reject' for t in outer), 'error', k, '%s: no error is reported although %s' % (name, why), mine[0].where())
    ctx.floor('wrong answers (TypeScript)', ctx.scope.get('wrong answers (TypeScript)', 0), 40)


def ready_emit(e):
    return e.kind == 'call' and e.name == 'emit' and e.recv is not None and fieldpath(norm(e.recv))[1][-1:] == ['ready']


def R03_ts(ctx):
    s = ts()
    ctx.derived(s.p)
    name = 'TypeScript consumer'
    ts_request(ctx, s, name)
    ts_sequence(ctx, s, name)
    ts_incoming(ctx, s, name)
    ts_methods(ctx, s, name)


def ts_request(ctx, s, name):
    fn = s.method('request')
    I = s.run(fn)
    ps = [p.get('n') or (p.get('pat') or {}).get('n') for p in fn.node['params']]
    if len(ps) < 2:
        ctx.undecided('pending', 'ts: parameters of request()')
        return
    buf, seq = mk('sym', ps[0]), mk('sym', ps[1])
    w = TsWorld(s, I, {}, ts_facts(True, {seq}))
    sets = [(e, k) for _, q, k, e in waiting(s, I) if w.pc(e) is not FALSE]
    if not ctx.check(len(sets) == 1, 'pending', 'ts:kept', '%s: a request is kept waiting at %d places' % (name, len(sets)), fn.loc()):
        return
    e, k = sets[0]
    ctx.check(w.pc(e) is TRUE, 'pending', 'ts:kept-always', '%s: a request is kept waiting only if %s' % (name, show(w.pc(e))[:80]), e.where())
    ctx.check(e.args[0] is seq, 'pending', 'ts:key', '%s: a request is kept waiting under %s instead of its sequence number' % (name, show(e.args[0])[:60]), e.where())
    s.pending = norm(e.recv)
    sends = [x for x in I.events if x.kind == 'call' and x.name == 'send' and w.pc(x) is not FALSE]
    ctx.check(len(sends) == 1 and w.pc(sends[0]) is TRUE and sends[0].args and sends[0].args[0] is buf, 'pending', 'ts:sent', '%s: the message of a request is not sent as it is, once and always' % name, sends[0].where() if sends else fn.loc())
    ctx.check(w.of(I.result) is k, 'pending', 'ts:promise', '%s: request() returns %s instead of what waits for the answer' % (name, show(w.of(I.result))[:60]), fn.loc())
    bad = TsWorld(s, I, {}, ts_facts(False, {seq}))
    ctx.check(bad.outcome(bad.of(I.result)) == 'reject', 'pending', 'ts:unsent', '%s: request() does not fail although the message could not be sent' % name, fn.loc())


def counter_field(s):
    """the field a new sequence number comes from, and what it becomes"""
    fn = s.method('getSequence')
    if fn is None:
        return None
    I = s.run(fn)
    return fn, I


def ts_sequence(ctx, s, name):
    fi = counter_field(s)
    if fi is None:
        ctx.missing('getSequence() of the TypeScript consumer')
        return
    fn, I = fi
    sets = [e for e in I.events if e.kind == 'set' and e.recv is mk('sym', 'self')]
    if not ctx.check(len(sets) >= 1, 'sequence', 'ts:advance', '%s: the counter of sequence numbers does not advance when a number is handed out' % name, fn.loc()):
        return
    names = {e.name for e in sets}
    if len(names) != 1:
        ctx.undecided('sequence', 'ts: fields %s' % sorted(names))
        return
    c = mk('field', mk('sym', 'self'), list(names)[0])
    val = norm(I.result)
    for t, cs in leaves(val):
        o = offset(t, c)
        m = modulus(t, c)
        if o is None and m and m < 1 << 16:
            ctx.bad('sequence', 'ts:reset', '%s: sequence numbers start over after %d' % (name, m), fn.loc())
            return
        if o is None:
            ctx.undecided('sequence', 'ts: the number handed out is %s' % show(t)[:80])
            return
        if not o[0]:
            ctx.bad('sequence', 'ts:constant', '%s: the sequence number handed out is the constant %d' % (name, o[1]), fn.loc())
            continue
        init = (s.fields().get(list(names)[0]) or {}).get('init') or {}
        if init.get('t') != 'int':
            ctx.undecided('sequence', 'ts: the first number %s' % str(init)[:60])
        else:
            first = int(init['v']) + o[1]
            ctx.check(first >= 1, 'sequence', 'ts:first', '%s: the first sequence number is %d, the number broadcasts carry' % (name, first), fn.loc())
    for e in sets:
        for t, cs in leaves(norm(e.args[0])):
            o = offset(t, c)
            if o is None:
                ctx.undecided('sequence', 'ts: the counter becomes %s' % show(t)[:80])
                continue
            cond = list(cs) + [norm(x) for x in e.pc]
            if o[0]:
                ctx.check(o[1] >= 1, 'sequence', 'ts:advance', '%s: the counter of sequence numbers does not advance when a number is handed out' % name, e.where())
            else:
                big = [b for x in cond for b in bounds(x, c)]
                ctx.check(bool(big) and min(big) >= 1 << 16, 'sequence', 'ts:reset', '%s: sequence numbers start over %s' % (name, 'after %d' % min(big) if big else 'at once'), e.where())
    live = Or(*[And(*e.pc) for e in sets])
    ctx.check(live is TRUE, 'sequence', 'ts:always', '%s: the counter of sequence numbers advances only if %s' % (name, show(live)[:80]), fn.loc())
    # nothing else sets it
    for f in {(f.file, f.node.get('l')): f for f in s.p.prog.all_fns if f.owner == s.cls and f.name not in ('getSequence', 'constructor')}.values():
        for e in s.run(f).events:
            if e.kind == 'set' and e.name == list(names)[0] and e.recv is mk('sym', 'self') and 'getSequence' not in e.where():
                o = offset(norm(e.args[0]), c)
                ctx.check(o is None or o[0] and o[1] >= 0, 'sequence', 'ts:other:%s' % f.name, '%s: %s sets the counter of sequence numbers back' % (name, f.qual()), e.where())


def ref_of(t, nx):
    """the received message, typed"""
    return t.op == 'mcall' and t.a[1] == 'getRef' and t.a[0] is nx


def ts_incoming(ctx, s, name):
    fn = s.entries().get('data')
    if fn is None:
        ctx.missing('what the TypeScript consumer does with received data')
        return
    I = s.run(fn)
    nx = list(dict.fromkeys(x for e in I.events for t in list(e.args) + [norm(c) for c in e.pc] for x in subterms(norm(t)) if x.op == 'mcall' and x.a[1] == 'next'))
    if len(nx) != 1:
        ctx.undecided('offer', 'ts: %d origins of received messages' % len(nx))
        return
    nx = nx[0]
    seq = mk('field', mk('field', nx, 'header'), 'sequence')
    msg = mk('field', nx, 'msg')
    gets = [x for x in {y for e in I.events for t in list(e.args) + list(e.pc) + ([e.recv] if e.recv is not None else []) for y in subterms(norm(t))} if x.op == 'mcall' and x.a[1] == 'get' and same_map(x.a[0], getattr(s, 'pending', x.a[0]))]
    if not ctx.check(len(gets) >= 1, 'offer', 'ts', '%s: incoming messages are not offered to waiting requests' % name, fn.loc()):
        return
    for g in gets:
        ctx.check(len(g.a) > 2 and g.a[2] is seq, 'deliver', 'ts:key', '%s: the waiting request is looked up with %s' % (name, show(g.a[2])[:60] if len(g.a) > 2 else '?'), fn.loc())
    g = gets[0]

    def world(yes, m=None):
        def f(x):
            if x.op == 'is' and x.a[1] is g and x.a[0] in ('undefined', 'null'):
                return Bool(not yes)
            if x.op == 'mcall' and x.a[1] == 'has' and same_map(x.a[0], g.a[0]):
                return Bool(yes)
            if x.op == 'un' and x.a[0] == 'typeof' and x.a[1] is g:
                return Str('function' if yes else 'undefined')
            if x.op == '==' and m is not None:
                o = [y.a[0] if y.op == 'mcall' and y.a[1] == 'getId' else None for y in x.a]
                if o[0] is not None and o[1] is not None:
                    n = [proto_name(y) for y in o]
                    i = 0 if n[0] else 1
                    if n[i] and ref_of(o[1 - i], nx):
                        return Bool(n[i] == m)
            if x.op == 'is' and x.a[0] == 'undefined' and ref_of(x.a[1], nx):
                return FALSE
            return None
        base = ts_facts()
        return TsWorld(s, I, {}, lambda x: f(x) if f(x) is not None else base(x) if not (x.op == 'mcall' and x.a[1] == 'has') else None)
    calls = [e for e in I.events if e.kind == 'call' and e.recv is not None and norm(e.recv) is g]
    taken, free = world(True), world(False)
    al = [e for e in calls if taken.pc(e) is not FALSE]
    if ctx.check(len(al) == 1, 'deliver', 'ts:handed', '%s: a message a request waits for is handed over %d times' % (name, len(al)), fn.loc()):
        e = al[0]
        extra = [c for c in conj(taken.pc(e)) if any(x is nx for x in subterms(c))]
        ctx.check(not extra, 'deliver', 'ts:always', '%s: the answer is handed over only if %s' % (name, show(extra[0])[:80] if extra else ''), e.where())
        ctx.check(e.args and norm(e.args[0]) is msg, 'deliver', 'ts:message', '%s: instead of the message the waiting request is given %s' % (name, show(e.args[0])[:60] if e.args else 'nothing'), e.where())
    rem = [e for e in I.events if e.kind == 'call' and e.name in ('remove', 'delete') and e.recv is not None and same_map(norm(e.recv), g.a[0]) and taken.pc(e) is not FALSE]
    ctx.check(len(rem) >= 1 and all(norm(e.args[0]) is seq for e in rem if e.args), 'deliver', 'ts:once', '%s: a request that got its answer keeps waiting' % name, fn.loc())
    ctx.check(all(free.pc(e) is FALSE for e in rem), 'deliver', 'ts:kept', '%s: a message no request waits for makes a request stop waiting' % name, fn.loc())
    emits = [e for e in I.events if e.kind == 'call' and e.name == 'emit' and e.recv is not None]
    bs = set(broadcasts(s.p))
    for m in messages(s.p):
        if m == WELCOME:
            continue
        ctx.count('messages followed (TypeScript)')
        for yes in (True, False):
            w = world(yes, m)
            got = [e for e in emits if w.pc(e) is not FALSE]
            key = 'ts:%s:%s' % (m, 'taken' if yes else 'free')
            what = '%s that %s' % (m, 'a waiting request took' if yes else 'no request waits for')
            if yes or m not in bs:
                for e in got:
                    ctx.bad('broadcast', key, '%s: a message %s is given to subscribers of %s' % (name, what, fieldpath(norm(e.recv))[1][-1:]), e.where())
                if not got:
                    ctx.ok('broadcast', key)
                if not yes:
                    wt = world(True, m)
                    told = [e for e in I.events if e.kind in ('call', 'print') and e.name in ('warn', 'err', 'error', 'emit') and w.pc(e) is not FALSE and wt.pc(e) is FALSE]
                    ctx.check(bool(told), 'report', key, '%s: a message %s is dropped without a report' % (name, what), fn.loc())
                continue
            if not ctx.check(len(got) == 1, 'broadcast', key, '%s: a broadcast %s is given to %d kinds of subscribers' % (name, what, len(got)), fn.loc()):
                continue
            e = got[0]
            extra = [c for c in conj(w.pc(e)) if any(x is nx for x in subterms(c))]
            ctx.check(not extra, 'broadcast', key + ':always', '%s: a broadcast %s is passed on only if %s' % (name, what, show(extra[0])[:80] if extra else ''), e.where())
            q = fieldpath(norm(e.recv))[1]
            ty = subject_type(s, q)
            if ty is None:
                ctx.undecided('broadcast', '%s: the type of the subject %s' % (key, '.'.join(q)))
            else:
                ctx.check(ty == m, 'broadcast', key + ':subject', '%s: a broadcast %s is given to the subscribers of %s' % (name, what, ty), e.where())
            ctx.check(e.args and ref_of(norm(e.args[0]), nx), 'payload', key, '%s: subscribers of %s are given %s' % (name, m, show(e.args[0])[:60] if e.args else 'nothing'), e.where())
    ctx.floor('messages followed (TypeScript)', ctx.scope.get('messages followed (TypeScript)', 0), 40)


def proto_name(t):
    if t.op == 'sym' and t.a[0].startswith('crate::protocol::'):
        return t.a[0][len('crate::protocol::'):].replace('::', '.')
    return None


def subject_type(s, q):
    """the message type of a subject of the consumer, by its declaration"""
    it = s.p.prog.items[s.cls][0]
    f = [x for x in it.get('fields') or [] if x.get('n') == q[0]]
    if len(q) != 2 or not f:
        return None
    m = re.search(r'[{,;]\s*(?:readonly\s+)?%s\s*:\s*Subject<([\w.]+)>' % re.escape(q[1]), f[0].get('ty') or '')
    if m is None:
        for n, x in (f[0].get('init') or {}).get('f') or []:
            if n == q[1] and x.get('k') == 'new':
                t = x.get('g') or ''
                break
        else:
            return None
    else:
        t = m.group(1)
    return t.partition('.')[2] if t.startswith('Protocol.') else None


def ts_methods(ctx, s, name):
    """the requests and beacons users send"""
    reqs = {r.request.a[0]: r for r in s.p.model.requests}
    beas = {b.reference for b in s.p.model.beacons}
    by = {}
    for f in s.p.prog.all_fns:
        if f.name == 'send' and f.owner and f.file not in s.p.user:
            it = s.p.prog.items.get(f.owner, ({},))[0]
            x = it.get('ext')
            x = x[0] if isinstance(x, list) and x else x
            x = x.get('n') if isinstance(x, dict) else x
            if isinstance(x, str) and x.startswith('Protocol.'):
                by.setdefault(x[9:], {})[(f.file, f.node.get('l'))] = f
    for n in sorted(reqs) + sorted(beas):
        fs = list(by.get(n, {}).values())
        ctx.count('requests and beacons (TypeScript)')
        if ctx.check(len(fs) == 1, 'method', 'ts:%s' % n, '%s: %d classes send %s' % (name, len(fs), n), fs[0].loc() if fs else None):
            ts_method(ctx, s, name, n, fs[0], reqs.get(n))
    ctx.floor('requests and beacons (TypeScript)', ctx.scope.get('requests and beacons (TypeScript)', 0), 12)


def enum_name(t):
    return re.split(r'::|\.', show(t))[-1]


def own(t):
    while t.op == 'upd':
        t = t.a[0]
    return t is mk('sym', 'self')


def registry(s, owner):
    """field path -> name of the method that stores a handler there"""
    out = {}
    for f in {(f.file, f.node.get('l')): f for f in s.p.prog.all_fns if f.owner == owner}.values():
        if f.name in ('send', 'destroy', 'constructor') or len(f.node.get('params') or []) != 1:
            continue
        for e in s.run(f).events:
            if e.kind == 'set' and e.args and e.args[0].op == 'sym':
                out[e.name] = f.name
    return out


def ts_method(ctx, s, name, n, fn, r):
    I = s.run(fn)
    key = 'ts:%s' % n
    ws = waiting(s, I)
    numbers = {q for _, q, _, _ in ws}
    base = ts_facts(True, numbers)
    w = TsWorld(s, I, {}, base)
    numbers |= {w.of(q) for q in numbers}
    w = TsWorld(s, I, {}, base)
    ws = [x for x in ws if w.pc(x[3]) is not FALSE]
    if not ctx.check(len(ws) == 1, 'request', key, '%s: %s is handed to the network %d times' % (name, n, len(ws)), fn.loc()):
        return
    se, sq, k, e = ws[0]
    ps = packed(norm(se.args[0])) if se is not None else []
    if not ctx.check(len(set(ps)) == 1 and own(ps[0].a[0]), 'request', key + ':message', '%s: what is sent for %s is not the message itself' % (name, n), e.where()):
        return
    sq, pq = w.of(sq), w.of(ps[0].a[2]) if len(ps[0].a) > 2 else UNDEF
    ctx.check(pq is sq, 'request', key + ':sequence', '%s: %s is packed with the sequence number %s, its answer is expected under %s' % (name, n, show(pq)[:60], show(sq)[:60]), e.where())
    # a number nobody else has: the counter moves on
    cf = counter_field(s)
    names = {x.name for x in cf[1].events if x.kind == 'set'} if cf else set()
    moved = [x for x in I.events if x.kind == 'set' and x.name in names and w.pc(x) is not FALSE]
    ctx.check(len(moved) >= 1 and any(fieldpath(y)[1][-1:] == [x.name] for x in moved for y in subterms(sq)), 'request', key + ':fresh', '%s: %s uses the sequence number %s instead of a new one' % (name, n, show(sq)[:60]), e.where())
    prom = w.of(norm(I.result))
    if prom.op != 'promise':
        ctx.undecided('answer', '%s: send() returns %s' % (key, show(prom)[:80]))
        return
    decl = answers(r) if r is not None else [(BEACON_ANSWER, None)]
    reg = registry(s, fn.owner)
    for m in messages(s.p):
        ctx.count('answers followed (TypeScript)')
        want = [c for t, c in decl if t == m]
        for err in (None,) if r is not None or m != BEACON_ANSWER else (False, True):
            t = k
            for v in m.split('.'):
                t = mk('field', t, v)
            pay = t

            def more(x):
                if err is not None and x.op in ('field', 'index') and x.a[0] is pay and (x.a[1] == 'error' or x.a[1] is Str('error')):
                    return UNDEF if not err else x
                if err and x.op == 'un' and x.a[0] == 'typeof' and x.a[1].op == 'field' and x.a[1].a[0] is pay:
                    return Str('string')
                if err and x.op == 'is' and x.a[1].op == 'field' and x.a[1].a[0] is pay and x.a[0] in ('undefined', 'null'):
                    return FALSE
                if x.op == 'is' and x.a[0] == 'undefined' and x.a[1].op == 'field' and '.'.join(fieldpath(x.a[1])[1]) in reg:
                    return FALSE
                if x.op == 'is' and x.a[0] == 'Error' and x.a[1] is UNDEF:
                    return FALSE
                return None
            wm = TsWorld(s, I, {k: m}, base, more)
            o = wm.outcome(prom)
            k2 = '%s:%s%s' % (key, m, '' if err is None else ':rejected' if err else ':confirmed')
            if o is None:
                ctx.undecided('answer', k2)
                continue
            if not want or err:
                ctx.check(o == 'reject', 'answer', k2, '%s: %s %s although it was answered with %s%s' % (name, n, 'succeeds' if o == 'resolve' else 'never ends', m, ' carrying an error' if err else ''), fn.loc())
            elif ctx.check(o == 'resolve', 'answer', k2, '%s: %s %s although it was answered with %s' % (name, n, 'fails' if o == 'reject' else 'never ends', m), fn.loc()) and r is not None:
                vals = wm.value(prom)
                ctx.check(len(vals) == 1 and index_free(vals[0]) is pay, 'answer', k2 + ':payload', '%s: with the answer %s of %s the caller is given %s' % (name, m, n, show(vals[0])[:60] if vals else 'nothing'), fn.loc())
            if o == 'resolve':
                # the object can be used again
                sets = [x for x in I.events if x.kind == 'set' and x.name == '_state' and wm.pc(x) is TRUE]
                if sets and any(enum_name(wm.of(x.args[0])) == 'Pending' for x in sets):
                    ctx.check(enum_name(wm.of(sets[-1].args[0])) != 'Pending', 'answer', k2 + ':again', '%s: %s stays pending after its answer %s' % (name, n, m), sets[-1].where())
            # the handlers
            called = [(reg.get('.'.join(fieldpath(norm(x.recv))[1] + [x.name])), x) for x in I.events if x.kind == 'call' and x.recv is not None and own(fieldpath(norm(x.recv))[0]) and '.'.join(fieldpath(norm(x.recv))[1] + [x.name]) in reg and wm.pc(x) is not FALSE]
            exp = [c.lower() for c in want] if r is not None else ['err' if err or not want else 'response']
            if r is not None and len(r.actions) == 1:
                exp = ['response' if c == decl[0][1].lower() else c for c in exp]
            if r is not None or m == BEACON_ANSWER:
                ctx.check(sorted(h.lower() for h, _ in called) == sorted(exp), 'handler', k2, '%s: the answer %s of %s reaches the handlers %s, declared: %s' % (name, m, n, ', '.join(h for h, _ in called) or 'none', ', '.join(exp) or 'none'), fn.loc())
                for h, x in called:
                    if r is not None:
                        ctx.check(x.args and index_free(wm.of(x.args[0])) is pay, 'handler', k2 + ':payload', '%s: the handler %s of %s is given %s' % (name, h, n, show(x.args[0])[:60] if x.args else 'nothing'), x.where())
    gone = TsWorld(s, I, {}, ts_facts(False, numbers))
    ctx.check(gone.outcome(prom) == 'reject', 'answer', key + ':unsent', '%s: %s does not fail although it could not be sent' % (name, n), fn.loc())


def index_free(t):
    if t.op == 'index' and t.a[1].op == 'str':
        return mk('field', index_free(t.a[0]), t.a[1].a[0])
    if t.op == 'field':
        return mk('field', index_free(t.a[0]), t.a[1])
    return t
