"""Decoding any byte string ends with a value or an error: range, arithmetic, allocation and progress obligations of every
decoding root, discharged from the guards that dominate them."""
from ..terms import *
from ..interp import Interp, St, uncast
from ..wire import lin, lin_len, facts_of, prove, entails_le, install, Lin, assume, range_of
from .. import subject, codec
from ..layout import storage_owner

U64 = 1 << 64


def choice(ts):
    for t in ts:
        for x in subterms(t):
            if x.op == 'ite':
                return x.a[0]
    return None


def cases(ts, pc, f, budget=None):
    """f(ts, pc) on every combination of the choices occurring in ts (three valued guards are kept)"""
    budget = budget if budget is not None else [600]
    c = choice(ts)
    if c is None:
        return f(ts, pc)
    if budget[0] <= 0:
        return False
    budget[0] -= 1
    c = (atom_of(c) or c) if not literal(c) else c
    if c.op == 'not':
        c = c.a[0]
    for v in (True, False):
        s = St({}, [])
        for p in pc:
            s.add(assume(p, c, v))
        s.add(c if v else Not(c))
        if s.dead or prove(Lin({}, -1), facts_of([x for x in s.pc if literal(x)])):
            continue
        if not cases([assume(t, c, v) for t in ts], list(s.pc), f, budget):
            return False
    return True


def atom_of(c):
    """an undecided elementary condition inside a compound one"""
    if c.op in ('and', 'or', 'not'):
        for x in c.a:
            if x.op in ('and', 'or', 'not', 'ite'):
                r = atom_of(x)
                if r is not None:
                    return r
            elif c.op != 'not':
                return x
        return c.a[0] if c.op == 'not' and c.a[0].op not in ('and', 'or', 'ite') else None
    if c.op == 'ite':
        return atom_of(c.a[0]) if c.a[0].op in ('and', 'or', 'ite') or c.a[0].op == 'not' and c.a[0].a[0].op in ('and', 'or', 'ite') else \
            c.a[0].a[0] if c.a[0].op == 'not' else c.a[0]
    return None


def literal(c):
    return c.op not in ('and', 'or', 'ite') and not (c.op == 'not' and c.a[0].op in ('and', 'or', 'ite'))


def holds_in_cases(pc, f, budget=None):
    """f(literals) in every case of a compound path condition; f is tried before each split"""
    budget = budget if budget is not None else [400]
    s = St({}, [])
    for p in pc:
        s.add(p)
    if s.dead:
        return True
    pc = list(s.pc)
    lits = [c for c in pc if literal(c)]
    if f(lits):
        return True
    comp = sorted((c for c in pc if not literal(c)), key=lambda c: c.id if hasattr(c, 'id') else 0)
    a = None
    for c in comp:
        a = atom_of(c)
        if a is not None:
            break
    if a is None:
        for c in pc:
            for x in subterms(c):
                if x.op == 'ite':
                    a = x.a[0]
                    break
            if a is not None:
                break
    if a is None or budget[0] <= 0:
        return False
    budget[0] -= 1
    return all(holds_in_cases([assume(p, a, v) for p in pc] + [a if v else Not(a)], f, budget) for v in (True, False))


class Loops:
    """inductive bounds of the loop variables of one run:  lv <= len(buffer)"""

    def __init__(self, I):
        self.I = I
        self.inv = {}        # lv term -> list of conditions

    def buffers(self):
        bs = []
        for e in self.I.events:
            b = e.recv if e.kind in ('read', 'index') else None
            if b is not None and b not in bs and b.op != 'lv':
                bs.append(b)
        return bs

    def all_buffers(self):
        bs = self.buffers()
        for e in self.I.events:
            for t in list(e.args) + [e.recv]:
                if isinstance(t, T):
                    for x in subterms(t):
                        b = x.a[0] if x.op == 'len' else x.a[1] if x.op == 'rd' else None
                        if b is not None and b not in bs:
                            bs.append(b)
        return bs

    def solve(self):
        I = self.I
        bs = self.buffers()
        for uid, info in I.loopinfo.items():
            for k, ph in info['ph'].items():
                if ph.op != 'lv' or I.loopinfo[uid]['next'].get(k) is None:
                    continue
                nx = info['next'][k]
                if not is_int(I, info['init'][k]):
                    continue
                for b in bs:
                    if not entails(self, info['init'][k], mk('len', b), info['pre']):
                        continue
                    hyp = [Not(Lt(mk('len', b), ph))]
                    if all(entails(self, nx, mk('len', b), list(info['pre']) + hyp + list(c)) for c in info['conds']):
                        self.inv.setdefault(ph, []).append(hyp[0])


def is_int(I, t):
    t = uncast(t)
    return t.op in ('int', 'len', 'bin') or t.op == 'rd' or I.typeof(t).name in ('usize', 'u64', 'u32', 'u16', 'u8')


def entails(loops, a, b, pc):
    """a <= b under pc and the loop invariants"""
    def leaf(ts, p):
        goal = lin(ts[1]).add(lin(ts[0]), -1)

        def holds(r):
            fs = facts_of(r)
            for c in r:
                if c.op == 'not' and c.a[0].op == '==':
                    l = lin(c.a[0].a[1]).add(lin(c.a[0].a[0]), -1)
                    for d in (l, l.scale(-1)):
                        if prove(d, fs):
                            fs = fs + [Lin(d.c, d.k - 1)]
                            break
            return prove(goal, fs) or prove(Lin({}, -1), fs)
        return holds_in_cases(list(p), holds)
    pc = list(pc)
    for x in [a, b] + pc:
        for y in subterms(x):
            for c in loops.inv.get(y, ()):
                if c not in pc:
                    pc.append(c)
    return cases([a, b], pc, leaf)


def wide_atoms(l):
    """atoms of a sum that can be as large as the type: 64-bit values taken from the bytes"""
    out = []
    for a, v in l.c.items():
        if v > 0 and any(x.op == 'rd' and x.a[0][:3] in ('u64', 'i64') for x in [a] + ([uncast(a)] if a.op == 'cast' else [])):
            out.append(a)
    return out


def data_len(t):
    """64-bit numbers a peer announces: the header fields are plain parameters of the functions that use them"""
    return [x for x in subterms(t) if x.op == 'field' and x.a[1] in ('len', 'len_usize') and x.a[0].op == 'sym']


def obligations(I):
    """(rule, construct, ok, message, loc) of every run-time fault a root can raise"""
    loops = Loops(I)
    loops.solve()
    bufs = [b for b in loops.buffers()]
    for e in I.events:
        for t in list(e.args) + [e.recv]:
            if isinstance(t, T):
                for x in subterms(t):
                    if x.op == 'len' and x.a[0] not in bufs:
                        bufs.append(x.a[0])
                    if x.op == 'rd' and x.a[1] not in bufs:
                        bufs.append(x.a[1])
    for e in I.events:
        pc = list(e.pc)
        w = '%s %s' % (e.kind, e.name)
        if e.kind == 'read':
            pos, n = e.args[0], e.args[1]
            ok = entails(loops, mk('bin', '+', pos, n), mk('len', e.recv), pc)
            yield 'read', e, ok, 'bytes are read (%s) without a check that they are there' % e.name
        elif e.kind == 'index':
            i = e.args[0]
            if i.op == 'range':
                lo, hi = range_of(I, i, e.recv)
                ok = entails(loops, lo, hi, pc) and entails(loops, hi, mk('len', e.recv), pc)
                yield 'slice', e, ok, 'a range is cut (%s) without a check that it lies inside' % e.name
            else:
                ok = entails(loops, mk('bin', '+', i, Int(1)), mk('len', e.recv), pc)
                yield 'index', e, ok, 'an element is taken without a check that it is there'
        elif e.kind == 'copy':
            a, b = mk('len', e.recv), mk('len', e.args[0])
            ok = entails(loops, a, b, pc) and entails(loops, b, a, pc)
            yield 'copy', e, ok, 'bytes are copied between ranges whose lengths may differ'
        elif e.kind == 'alloc':
            n = e.args[0]
            ok = lin(n).const() is not None or any(entails(loops, n, mk('len', b), pc) for b in bufs)
            yield 'alloc', e, ok, 'memory is allocated for an announced length before it is compared with the received bytes'
        elif e.kind == 'arith':
            a, b = e.args[0], e.args[1]
            if e.name == '-':
                yield 'minus', e, entails(loops, b, a, pc), 'a subtraction can go below zero'
            elif e.name in ('+', '*'):
                def leaf(ts, p):
                    l = lin(ts[0])
                    at = wide_atoms(l) + [x for x in l.c if data_len(x) and x.op != 'len']
                    return all(any(entails(loops, x, l, p) for l in ts[1:]) for x in at)
                yield 'plus', e, cases([mk('bin', '+', a, b)] + [mk('len', x) for x in bufs], pc, leaf), 'an announced 64-bit length is added to before it is compared with the received bytes: the sum can overflow'
        elif e.kind in ('unwrap', 'panic'):
            yield 'panic', e, False, '%s in a decoder' % e.name
    for uid, info in I.loopinfo.items():
        if info['kind'] == 'for':
            continue
        yield 'progress', info, progress(I, loops, info), 'the loop can repeat without consuming a byte'


def progress(I, loops, info):
    for k, ph in info['ph'].items():
        nx = info['next'].get(k)
        if nx is None:
            continue
        conds = [list(info['pre']) + list(c) for c in info['conds']]
        if not conds:
            return True
        if ph.op == 'lv' and is_int(I, info['init'][k]):
            if all(entails(loops, mk('bin', '+', ph, Int(1)), nx, c) for c in conds):
                if ph in loops.inv:
                    return True
                after = [c + [info['cond']] for c in conds] if info.get('post') and info['cond'] is not None else None
                for b in loops.all_buffers():
                    if all(entails(loops, ph, mk('len', b), c) for c in conds):
                        return True
                    if after and all(entails(loops, nx, mk('len', b), c) for c in after):
                        return True
        elif ph.op == 'lv':
            if nx.op == 'index' and nx.a[1].op == 'range':
                lo, hi = range_of(I, nx.a[1], nx.a[0])
                nx = mk('slice', nx.a[0], lo, hi)
            if all(entails(loops, mk('bin', '+', mk('len', nx), Int(1)), mk('len', ph), c) for c in conds):
                return True
    if not info['conds'] and info.get('brk'):
        return True
    return False


def decode_roots(p):
    out = []
    for f in p.all_fns:
        if not f.node.get('body'):
            continue
        q = f.qual()
        n = q.split('.')[-1]
        if not f.trait and not f.node.get('pub'):
            continue
        if n in ('get_from_storage', 'extract', 'extract_from_storage', 'get_header_from_buffer', 'get_body_from_buffer', 'has_buffer_header', 'has_buffer_body', 'chunk', 'decode') or \
           q.split('.')[0] in ('Storage', 'Buffer') and n not in ('from',):
            out.append(f)
    return out


def W04(ctx):
    p = subject.rs_static()
    seen = set()
    nf = 0
    for f in decode_roots(p):
        I = install(Interp(p))
        I.run_fn(f)
        nf += 1
        ctx.count('decoding functions (Rust run-time)')
        for rule, e, ok, msg in obligations(I):
            loc = e['loc'] if isinstance(e, dict) else e.loc
            ctx.count('obligations: ' + rule)
            key = '%s:%s' % (rule, loc[1])
            if ok:
                ctx.ok(rule)
            else:
                ctx.bad(rule, '%s in %s' % (rule, loc[1]), msg, loc)
    ctx.floor('decoding functions', nf, 20)


# ------------------------------------------------------------------ TypeScript
def ts_roots(p):
    out = []
    for f in p.all_fns:
        if f.node.get('body') and (f.qual().split('.')[-1] in ('decode', 'decodeSelfArray') or f.qual() in ('Storage.read', 'BufferReader.chunk')):
            out.append(f)
    return out


def exits(info, ph, k):
    """(path condition, final position) of every way a loop ends without an error"""
    pre = list(info['pre'])
    nx = info['next'].get(k)
    out = []
    if info['cond'] is not None and info['cond'] is not TRUE:
        if info.get('post'):
            if info['exitpc'] is not None:
                out.append((pre + list(info['exitpc']), nx))
        else:
            out.append((pre + [Not(info['cond'])], ph))
    for b in info['brk']:
        out.append((pre + [b], ph))
    for pc, v, _, _ in info['rets']:
        for cs, g in codec.goods(v):
            s = St({}, [])
            for c in pre + list(pc) + list(cs):
                s.add(c)
            if s.dead or s.simp(Is('Error', g)) is TRUE:
                continue
            out.append((list(s.pc), ph))
    return out


def position(I, loops, info, buf):
    """the variable of a loop that is the position in buf"""
    for e in I.events:
        if e.kind in ('read', 'slice') and e.recv is buf and e.loops and e.loops[-1][3] == info['uid']:
            for k, ph in info['ph'].items():
                if contains(e.args[0], ph) and info['next'].get(k) is not None and ph is not buf:
                    return k, ph
    return None, None


def exact_end(I, loops, info, buf):
    """every successful end of the loop leaves the position exactly at the end of the buffer"""
    k, ph = position(I, loops, info, buf)
    if k is None:
        return None
    xs = exits(info, ph, k)
    if not xs:
        return None
    n = mk('len', buf)
    for pc, pos in xs:
        s = St({}, [])
        for c in pc:
            s.add(c)
        if s.dead:
            continue
        if not (entails(loops, pos, n, list(s.pc)) and entails(loops, n, pos, list(s.pc))):
            return False
    return True


def W05(ctx):
    p = subject.ts_static()
    nf = 0
    seen = set()
    for f in ts_roots(p):
        I = install(Interp(p))
        I.hooks['assume_reads'] = True
        r, st = I.run_fn(f)
        loops = Loops(I)
        loops.solve()
        for u, i in I.loopinfo.items():
            i['uid'] = u
        nf += 1
        ctx.count('decoding functions (TypeScript run-time)')
        for e in I.events:
            tried = bool(e.extra and 'try' in e.extra)
            key = '%s in %s' % (e.kind, e.loc[1])
            if e.kind == 'read':
                ok = tried or entails(loops, mk('bin', '+', e.args[0], e.args[1]), mk('len', e.recv), list(e.pc))
                ctx.check(ok, 'read', key, 'bytes are read (%s) without a check that they are there, outside of try: a short input throws' % e.name, e.loc)
            elif e.kind == 'throw' and not tried:
                own = e.pc[-1] if e.pc else TRUE
                data = any(x.op in ('rd', 'len') for x in subterms(own))
                ctx.check(not data, 'throw', key, 'malformed bytes make the decoder throw instead of returning an error', e.loc)
            elif e.kind == 'slice':
                lo, hi = e.args[0], e.args[1]
                ok = entails(loops, hi, mk('len', e.recv), list(e.pc))
                if not ok and e.loops and e.loops[-1][3] in I.loopinfo:
                    info = I.loopinfo[e.loops[-1][3]]
                    k, ph = position(I, loops, info, e.recv)
                    ok = k is not None and exact_end(I, loops, info, e.recv) is True and \
                        all(entails(loops, hi, info['next'][k], list(info['pre']) + list(c)) for c in info['conds'])
                ctx.check(ok, 'slice', key, 'a part is cut from the input without a check that it is there: a truncated input yields a shortened value', e.loc)
        for u, info in I.loopinfo.items():
            if info['kind'] == 'for':
                continue
            ctx.check(progress(I, loops, info), 'progress', 'progress in %s' % info['loc'][1], 'the loop can repeat without consuming a byte', info['loc'])
        # a value is made of the whole input
        q = f.qual()
        for b in loops.buffers():
            for u, info in I.loopinfo.items():
                x = exact_end(I, loops, info, b) if info['kind'] != 'for' else None
                if x is not None:
                    ctx.check(x, 'end', 'end of %s' % info['loc'][1], 'the loop can end successfully before or behind the end of the input', info['loc'])
        rs = [e for e in I.events if e.kind == 'read']
        if len(rs) == 1 and not rs[0].loops and rs[0].args[0] is Int(0) and rs[0].recv.op == 'sym' and not any(e.kind == 'slice' for e in I.events):
            w = rs[0].args[1]
            n = mk('len', rs[0].recv)
            for cs, g in codec.goods(r):
                ctx.count('fixed-size decoders')
                ok = entails(loops, n, w, list(cs)) and entails(loops, w, n, list(cs))
                ctx.check(ok, 'size', 'size in ' + q, 'a body whose length does not fit the type is accepted', rs[0].loc)
    ctx.floor('decoding functions', nf, 20)
