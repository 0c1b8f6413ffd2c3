"""A01: a run creates what its options and the configuration of the workflow ask for, at the places they name, and nothing else."""
from .. import front, subject, wf
from ..schema import Stuck, Obj, Ct, Some, None_
from ..terms import mk
from ..wf import Exec, Inst
from .cli import options_map, owners
from .files import functions

KEYS = {'source': ('-s', '--src', '--source'), 'workflow': ('-wf', '--workflow'), 'rs': ('-rs', '--dest-rs', '--destination-rs'), 'ts': ('-ts', '--dest-ts', '--destination-ts'),
        'consumer': ('-cd', '--consumer-dest'), 'producer': ('-pd', '--producer-dest'), 'puml': ('-d', '--puml')}
AT = {'source': 'a.prot', 'workflow': 'b.workflow', 'rs': 'x.rs', 'ts': 'x.ts', 'consumer': 'c', 'producer': 'p', 'puml': 'u.puml'}
PWD = '/w'
LANGS = {'rs': 'Rust', 'ts': 'TypeScript'}
FOLDER = {'rs': 'rust', 'ts': 'typescript'}


class Run(Exec):
    """the effects of one run; reading the sources is answered by the model"""

    def __init__(self, P, model, existing=(), broken=()):
        Exec.__init__(self, P, existing)
        self.read, self.modes = [], {}
        self.g.keeps = {'parse', 'render'}
        c = self.g.calls
        for f in P.all_fns:
            if self.parser(f) and f.name == 'new' and f.owner:
                kind = self.parser(f)
                def new(*a, kind=kind, f=f):
                    self.read.append((kind, a[0]))
                    o = Obj('Parser:' + kind, src=a[0])
                    return Ct('Ok', o) if 'Result' in str(f.node.get('ret')) else o
                c[f.owner + '::new'] = new

        def parse(recv, *rest):
            if not isinstance(recv, Obj) or not recv.ty.startswith('Parser:'):
                raise Stuck('parse of %r' % (recv,))
            kind = recv.ty[7:]
            if kind in broken:
                return Ct('Err', ['broken'] if kind == 'source' else 'broken')
            return Ct('Ok', model.store if kind == 'workflow' else model.protocol.store)
        c['parse'] = parse

    @staticmethod
    def parser(f):
        return 'source' if f.file.endswith('protocol/parser.rs') else 'workflow' if f.file.endswith('workflow/parser.rs') else None

    def is_opaque(self, fn):
        return self.parser(fn) is not None or Exec.is_opaque(self, fn)


    def effect(self, inst, fn, e, env, depth):
        callee = self.callee(inst, e, fn)
        if callee is not None and callee.name == 'render' and '/protocol/render/' in callee.file and '/workflow/' not in fn.file and e.recv is not None:
            o = inst.ev(e.recv, env)
            self.modes[inst.ev(e.args[1], env)] = sorted(v for v in o.f.values() if isinstance(v, bool)) if isinstance(o, Obj) else None
        if callee is not None and callee.name == 'render' and '/puml/' in callee.file and '/puml/' not in fn.file:
            # what the diagram shows is U01
            self.order.append((inst.ev(e.args[0], env), None, None, callee))
            return
        Exec.effect(self, inst, fn, e, env, depth)


def part(fn):
    if '/protocol/render/rust/' in fn.file:
        return 'rs'
    if '/protocol/render/typescript/' in fn.file:
        return 'ts'
    return 'puml' if '/puml/' in fn.file else 'workflow'


class Runs(object):
    def __init__(self, ctx):
        self.ctx, self.P = ctx, subject.cli()
        fs = functions(self.P)
        c = [f for f in fs if f.owner and f.name == 'action' and f.node.get('self') and '/protocol/' not in f.file and self.sources(f)]
        self.act = c[0] if len(c) == 1 else None
        n = [f for f in fs if self.act is not None and f.owner == self.act.owner and f.name == 'new' and not f.node.get('self') and f.trait] if self.act else []
        if self.act and not n:
            n = [f for f in fs if f.owner == self.act.owner and f.name == 'new' and len(f.node.get('params') or []) == 3]
        self.new = n[0] if len(n) == 1 else None
        e = [f for f in fs if self.act is not None and f.owner == self.act.owner and f.name == 'get_err']
        self.all = options_map(self.P)[0]
        a = [f for f in fs if self.all is not None and f.owner == self.all.owner and f.node.get('self') and str(f.node.get('ret')).strip() == 'bool' and not (f.node.get('params') or [])[1:]]
        self.wrong = a[0] if len(a) == 1 else None
        self.cx = None
        self.flags = []
        for ow in sorted(owners(self.P)):
            own = {f.name: f for f in fs if f.owner == ow}
            if self.act and ow != self.act.owner and 'new' in own and 'name' in own and len(own['new'].node.get('params') or []) == 3:
                self.flags.append((own['new'], own['name']))
        self.err = e[0] if len(e) == 1 else None

    def sources(self, f):
        own = [g for g in functions(self.P) if g.owner == f.owner]
        return 'Parser' in str([g.node.get('body') for g in own])

    def value(self, x, fn, selfv, args):
        I, ps, v = x.g.summary(fn)
        env = {mk('sym', 'self'): selfv}
        for n, a in zip(ps, args):
            env[mk('sym', n)] = a
        return Inst(x.g, I, fn, 0).ev(v, env)

    def model(self, cons, prod):
        m = wf.WorkflowModel()
        m.config.f['consumer'] = [Ct(LANGS[x]) for x in cons]
        m.config.f['producer'] = [Ct(LANGS[x]) for x in prod]
        return m

    def go(self, opts, m, broken=(), existing=None):
        """(what the options say is wrong, outcome, written files, sources read)"""
        args = [y for k, w in opts for y in ((w, AT[k]) if k in AT else (w,))]
        x = Run(self.P, m, existing if existing is not None else {PWD + '/' + AT['source'], PWD + '/' + AT['workflow']}, broken)
        flags = {}
        for new, name in self.flags:
            f = self.value(x, new, None, [PWD, args, {}])
            flags[self.value(x, name, f, [])] = f
        o = self.value(x, self.new, None, [PWD, args, flags])
        err = self.value(x, self.err, o, []) if self.err is not None else None_
        x.read = []
        x.run(self.act, o, [flags])
        gaps = [s for s in x.stuck if 'render_cargo' not in s and 'render_package' not in s]
        if gaps:
            raise Stuck(gaps[0][:200])
        read = list(x.read)
        res = self.value(x, self.act, o, [flags])
        self.x = x
        return err, res, [(p, t, fn) for p, t, _, fn in x.order], read

    def complaint(self, args, existing):
        """whether a run with these arguments ends before anything is done"""
        if self.cx is None:
            self.cx = Run(self.P, self.model(('rs',), ('ts',)), existing)
        x = self.cx
        x.existing = set(existing)
        x.g.calls['args'] = lambda *_: ['clibri'] + list(args)
        x.g.calls['args_os'] = x.g.calls['args']
        x.g.calls['current_dir'] = lambda *_: Ct('Ok', PWD)
        v = self.value(x, self.wrong, self.value(x, self.all, None, []), [])
        if not isinstance(v, bool):
            raise Stuck('complaint %r' % (v,))
        return v

    def known(self, args, want, what, existing=None):
        ctx = self.ctx
        try:
            got = self.complaint(args, existing if existing is not None else {PWD + '/' + AT['source'], PWD + '/' + AT['workflow']})
        except Stuck as e:
            ctx.undecided('arguments', '%s: %s' % (what, e))
            return
        loc = '%s:%s' % (self.wrong.file, self.wrong.node.get('l'))
        ctx.check(got == want, 'arguments', what, 'a run with "%s" is %s' % (what, 'refused because of its arguments' if got else 'not refused because of its arguments'), loc)

    def sides(self, m, cons, prod):
        """what the two configured sides consist of"""
        out = {}
        for side, langs, base in (('consumer', cons, AT['consumer']), ('producer', prod, AT['producer'])):
            for l in langs:
                d = '%s/%s' % (PWD, base) + ('/' + FOLDER[l] if len(langs) > 1 else '')
                x, _ = wf.emit(side, l, (), m)
                for p, t in x.files.items():
                    out[d + p[len(wf.ROOT):]] = t
        return out

    def say(self, opts):
        return ' '.join('%s %s' % (w, AT[k]) if k in AT else w for k, w in opts) or 'no options'

    def one(self, opts, want, cons=('rs',), prod=('ts',), fails=False, broken=(), existing=None, label=''):
        ctx = self.ctx
        rule = 'refused' if fails else 'created'
        what = self.say(opts) + label
        key = what
        m = self.model(cons, prod)
        self.n += 1
        try:
            err, res, got, read = self.go(opts, m, broken, existing)
        except Stuck as e:
            ctx.undecided(rule, '%s: %s' % (what, e))
            return
        loc = '%s:%s' % (self.act.file, self.act.node.get('l'))
        said = isinstance(err, Ct) and err.name == 'Some' or isinstance(res, Ct) and res.name == 'Err'
        if fails:
            ctx.check(said, rule, key, 'a run with "%s" is not refused' % what, loc)
            if not (isinstance(err, Ct) and err.name == 'Some'):
                ctx.check(not got, rule, key + ':nothing', 'a run with "%s" is refused, but creates %s' % (what, got and got[0][0]), loc)
            return
        ctx.check(not said, rule, key + ':accepted', 'a run with "%s" is refused' % what, loc)
        if said:
            return
        exp = {}
        for k in want:
            if k in ('rs', 'ts', 'puml'):
                exp['%s/%s' % (PWD, AT[k])] = k
        sides = self.sides(m, cons, prod) if 'sides' in want else {}
        seen = set()
        for p, t, fn in got:
            k = part(fn)
            seen.add(p)
            if p in exp:
                ctx.check(exp[p] == k, rule, '%s:%s' % (key, p), 'a run with "%s" writes %s with the generator of %s (%s), it is the place for %s' % (what, p, k, fn.qual(), exp[p]), '%s:%s' % (fn.file, fn.node.get('l')))
            elif p in sides:
                if t is not None and sides[p] is not None:
                    ctx.check(t == sides[p], rule, '%s:%s' % (key, p), 'a run with "%s" writes something else to %s than the configured part of the project' % (what, p), '%s:%s' % (fn.file, fn.node.get('l')))
                else:
                    ctx.check(t is sides[p], rule, '%s:%s' % (key, p), 'a run with "%s" writes something else to %s than the configured part of the project' % (what, p), '%s:%s' % (fn.file, fn.node.get('l')))
            else:
                ctx.bad(rule, '%s:%s' % (key, p), 'a run with "%s" writes %s, which nothing asks for' % (what, p), '%s:%s' % (fn.file, fn.node.get('l')))
        for p in sorted(set(exp) | set(sides)):
            ctx.check(p in seen, rule, '%s:%s:there' % (key, p), 'a run with "%s" does not create %s' % (what, p), loc)
        for p in sorted(exp):
            if exp[p] in LANGS and p in seen:
                md = self.x.modes.get(p)
                if md is None or len(md) != 1:
                    ctx.undecided('embedded', '%s: the generator of %s' % (what, p))
                    continue
                emb = any(k == 'embedded' for k, _ in opts)
                ctx.check(md[0] == emb, 'embedded', '%s:%s' % (key, p), 'a run with "%s" creates %s %s the additional code' % (what, p, 'with' if md[0] else 'without'), loc)
        for k in ('source', 'workflow'):
            if k in [o for o, _ in opts]:
                ps = {p for kk, p in read if kk == k}
                ctx.check(ps == {PWD + '/' + AT[k]}, 'source', '%s:%s' % (key, k), 'a run with "%s" reads %s as the %s' % (what, ', '.join(map(str, sorted(ps, key=str))) or 'nothing', 'protocol' if k == 'source' else 'workflow'), loc)


def A01(ctx):
    R = Runs(ctx)
    R.n = 0
    if R.act is None or R.new is None:
        ctx.missing('the option that stands for the files of a run')
        return
    K = lambda *ks: [(k, KEYS[k][0]) for k in ks]
    for w in KEYS['source']:
        R.one([('source', w)] + K('rs'), ['rs'])
    for k in ('rs', 'ts'):
        for w in KEYS[k]:
            R.one(K('source') + [(k, w)], [k])
    R.one(K('source', 'rs', 'ts'), ['rs', 'ts'])
    R.one(K('ts', 'rs', 'source'), ['rs', 'ts'])
    R.one(K('source'), [])
    for w in KEYS['workflow']:
        R.one(K('source') + [('workflow', w)] + K('consumer', 'producer'), ['sides'])
    for k in ('consumer', 'producer'):
        for w in KEYS[k][1:]:
            R.one(K('source', 'workflow', *[x for x in ('consumer', 'producer') if x != k]) + [(k, w)], ['sides'])
    for w in KEYS['puml']:
        R.one(K('source', 'workflow') + [('puml', w)], ['puml'])
    R.one(K('producer', 'workflow', 'ts', 'consumer', 'source', 'rs'), ['sides', 'rs', 'ts'])
    for cons, prod in ((('ts',), ('rs',)), (('rs', 'ts'), ('ts',)), (('rs',), ('ts', 'rs')), ((), ('rs',)), (('ts',), ())):
        R.one(K('source', 'workflow', 'consumer', 'producer'), ['sides'], cons, prod, label=' (consumers: %s; producers: %s)' % (' '.join(cons) or 'none', ' '.join(prod) or 'none'))
    R.one(K('source', 'workflow', 'producer'), ['sides'], (), ('rs',), label=' (only a producer)')
    R.one(K('source', 'workflow', 'consumer'), ['sides'], ('rs', 'ts'), (), label=' (only consumers)')
    for w in ('-e', '--em', '--embedded'):
        R.one(K('source', 'rs', 'ts') + [('embedded', w)], ['rs', 'ts'])
    R.one([('embedded', '--em')] + K('source', 'ts'), ['ts'])
    both = {PWD + '/' + AT[k] for k in ('source', 'workflow', 'rs', 'ts', 'puml')}
    for w in ('-o', '--ow', '--overwrite'):
        R.one(K('source', 'rs', 'ts') + [('overwrite', w)], ['rs', 'ts'], existing=both, label=' (both exist)')
    R.one([('overwrite', '-o')] + K('source', 'workflow', 'puml'), ['puml'], existing=both, label=' (it exists)')
    # what cannot be done is refused
    R.one(K('workflow', 'consumer', 'producer'), [], fails=True)
    R.one(K('source', 'puml'), [], fails=True)
    R.one(K('source', 'workflow', 'producer'), [], fails=True, label=' (a consumer is configured)')
    R.one(K('source', 'workflow', 'consumer'), [], fails=True, label=' (a producer is configured)')
    R.one(K('source', 'rs'), [], fails=True, broken=('source',), label=' (incorrect protocol)')
    R.one(K('source', 'workflow', 'consumer', 'producer', 'rs'), [], fails=True, broken=('workflow',), label=' (incorrect workflow)')
    R.one(K('source', 'rs'), [], fails=True, existing=set(), label=' (no such protocol)')
    R.one(K('source', 'workflow', 'consumer', 'producer'), [], fails=True, existing={PWD + '/' + AT['source']}, label=' (no such workflow)')
    if R.wrong is None:
        ctx.undecided('arguments', 'the place where the arguments are judged')
    else:
        words = lambda opts: [y for k, w in opts for y in ((w, AT[k]) if k in AT else (w,))]
        allk = K('source', 'workflow', 'rs', 'ts', 'consumer', 'producer')
        good = [K('source', 'rs'), allk, allk[::-1], K('source', 'workflow', 'puml')] + [K('source') + [(k, w)] for k in KEYS for w in KEYS[k] if k != 'source'] + [[('source', w)] for w in KEYS['source']]
        good += [allk[:2] + [('flag', w)] + allk[2:] for w in ('-e', '--em', '--embedded', '-o', '--ow', '--overwrite')]
        for o in good:
            R.known(words(o), False, ' '.join(words(o)))
        for at in (0, 2, 4):
            for w in ('-q', '--nope', '-r', '--dest', 'more', '-O'):
                a = words(K('source', 'rs'))
                a = a[:at] + [w] + a[at:]
                R.known(a, True, ' '.join(a))
        R.known(words(allk) + ['x', 'y'], True, ' '.join(words(allk) + ['x', 'y']))
        R.known(words(K('source', 'rs')), True, 'the protocol %s, which does not exist' % AT['source'], set())
        R.known(words(allk), True, 'the workflow %s, which does not exist' % AT['workflow'], {PWD + '/' + AT['source']})
    ctx.count('combinations of options', R.n)
    ctx.floor('combinations of options', R.n, 25)
