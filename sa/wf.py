"""Derived projects: what the workflow generator writes for a schematic workflow, as parsed programs."""
import functools, posixpath
from . import subject, front
from .program import Program
from .schema import Gram, Inst, Obj, Ct, Some, None_, Stuck
from .terms import *
from .model import Model
from .interp import Interp

TARGETS = {('producer', 'rs'): 'workflow/render/producer/rust/', ('producer', 'ts'): 'workflow/render/producer/typescript/',
           ('consumer', 'rs'): 'workflow/render/consumer/rust/', ('consumer', 'ts'): 'workflow/render/consumer/typescript/'}
ROOT = '/out'


class WorkflowModel(object):
    """One member per case the generator tells apart; every name is fresh."""

    def __init__(self):
        m = self.protocol = ProtocolModel()
        B = lambda r, o=False: Obj('Broadcast', reference=r, optional=o)
        A = lambda concl, resp, *br: Obj('Action', conclusion=Some(concl) if concl else None_, response=Some(resp), broadcast=list(br), current='', optional=False)
        R = lambda req, err, *acts: Obj('Request', request=Some(req), error=Some(err), actions=list(acts), broadcasts=[], expectation=[], closed=True)
        E = lambda ref, *br: Obj('Event', reference=Some(ref), broadcasts=list(br), expectation=[], closed=True)
        self.requests = [
            R('ReqPlain', 'ErrPlain', A(None, 'RespPlain')),
            R('Gr.ReqMany', 'Gr.ErrMany', A('Acc', 'Gr.RespAcc', B('EvA'), B('Gr.EvB', True)), A('Den', 'Gr.RespDen'), A('Oth', 'Gr.RespOth', B('Gr.In.EvC', True), B('Gr.EvLast'))),
            R('Gr.In.ReqDeep', 'Gr.In.ErrDeep', A(None, 'Gr.In.RespDeep')),
            R('ReqTwo', 'ErrTwo', A('Yes', 'RespYes'), A('No', 'RespNo', B('EvD'), B('EvSecond', True))),
            R('ReqOne', 'ErrOne', A('Sole', 'RespSole', B('EvE'))),
            R('ReqDup', 'ErrDup', A('Left', 'RespLeft', B('EvA')), A('Right', 'RespRight', B('EvA'), B('EvD', True))),
            R('Gr.In.Low.reqLow9', 'Gr.ErrMany', A('first', 'RespYes', B('EvD'), B('EvA', True), B('Gr.EvB'), B('Gr.In.EvC', True), B('Gr.In.Low.evLow'), B('EvE', True)), A('second', 'RespNo', B('EvE', True), B('EvD', True), B('EvA')),
              A('third', 'Gr.In.Low.respLow'), A('fourth', 'RespLeft', B('EvDMore')), A('fifth', 'RespRight')),
            R('ReqPlainMore', 'ErrPlain', A(None, 'RespPlainMore')),
        ]
        self.events = [
            E('connected', B('EvA'), B('Gr.EvB', True)),
            E('disconnected', B('EvD')),
            E('UserEv', B('EvA')),
            E('Gr.OwnEv', B('Gr.EvB', True), B('EvA'), B('Gr.In.EvOwn')),
            E('Gr.In.DeepEv', B('Gr.In.EvC', True)),
            E('OptEv', B('EvD', True)),
            E('Gr.In.Low.evFour', B('EvE'), B('EvDMore', True), B('Gr.In.Low.evLow', True), B('EvD'), B('EvA')),
            E('UserEvMore', B('EvDMore')),
        ]
        self.beacons = [B('BeaOne'), B('Gr.BeaTwo'), B('Gr.In.BeaThree'), B('Gr.In.Low.beaFour'), B('BeaOneMore')]
        self.config = Obj('Config', producer=[], consumer=[], self_key=Some('Gr.KeySelf'), self_key_response='InternalServiceGroup.SelfKeyResponse', assigned_key=Some('KeyAssigned'),
                          closed=True, expectation=[])
        self.store = Obj('Store', events=self.events, requests=self.requests, beacons=self.beacons, config=Some(self.config), hash='0WorkflowHash0')


class ProtocolModel(Model):
    def build(self):
        gr = self.group('Gr', None)
        gi = self.group('In', gr)
        f = self.field
        gl = self.group('Low', gi)
        self.G = {(): None, ('Gr',): gr, ('Gr', 'In'): gi, ('Gr', 'In', 'Low'): gl}
        for n in ('ReqPlain ErrPlain RespPlain Gr.ReqMany Gr.ErrMany Gr.RespAcc Gr.RespDen Gr.RespOth Gr.In.ReqDeep Gr.In.ErrDeep Gr.In.RespDeep '
                  'EvSecond Gr.EvLast Gr.In.EvOwn ReqOne ErrOne RespSole EvE ReqDup ErrDup RespLeft RespRight ReqTwo ErrTwo RespYes RespNo EvA Gr.EvB Gr.In.EvC EvD UserEv Gr.OwnEv Gr.In.DeepEv OptEv BeaOne Gr.BeaTwo Gr.In.BeaThree '
                  'Gr.In.Low.reqLow9 Gr.In.Low.evLow Gr.In.Low.respLow EvDMore ReqPlainMore RespPlainMore Gr.In.Low.evFour UserEvMore Gr.In.Low.beaFour BeaOneMore').split():
            p = n.split('.')
            self.struct(p[-1], self.G[tuple(p[:-1])], [f('x%s' % p[-1].lower(), 'str')])
        self.struct('KeySelf', gr, [f('ka', 'str'), f('kb', 'u32', optional=True), f('ke', 'str', optional=True), f('kf', 'u16')])
        self.struct('KeyAssigned', None, [f('kc', 'str'), f('kd', 'u32', optional=True), f('kg', 'str', optional=True)])
        self.service()
        self.store = Obj('Store', structs=self.structs, enums=self.enums, groups=self.groups, hash='0ProtocolHash0', path=[], sequence=0,
                         c_struct=None_, c_group=None_, c_enum=None_, c_field=None_)

    def service(self):
        """the service structures the generator adds to every protocol"""
        P = subject.cli()
        g = None
        for fn in P.all_fns:
            if fn.name == 'add_service_struct' or not has_call(fn.node.get('body'), 'add_service_struct'):
                continue
            I = Interp(P, opaque=lambda f: f.name == 'add_service_struct' or f.owner and f.owner.endswith('Parser') and f is not fn)
            try:
                I.run_fn(fn)
            except Exception as e:
                raise Stuck('service structures: %s' % e)
            for e in I.events:
                if e.kind == 'call' and (e.name or '').split('::')[-1] == 'add_service_struct':
                    inst = Inst(Gram(P), I, fn, 0)
                    name, fields = inst.ev(e.args[0], {}), inst.ev(e.args[1], {})
                    if g is None:
                        g = self.group('InternalServiceGroup', None)
                    if [s for s in self.structs if s.name == name]:
                        continue
                    self.struct(name, g, [self.field(x.name, x.kind, optional=x.optional, repeated=x.repeated) for x in fields])
        if g is None:
            raise Stuck('no service structures')


def has_call(n, name):
    if isinstance(n, dict):
        if n.get('k') == 'mcall' and n.get('n') == name:
            return True
        return any(has_call(v, name) for v in n.values())
    if isinstance(n, list):
        return any(has_call(v, name) for v in n)
    return False


def free_state(c, env):
    return any(x.op in ('lv', 'iter') and x not in env for x in subterms(c))


def lookup(store, frm, path):
    """the entity a dotted path denotes, seen from the root"""
    *gs, last = path.split('.')
    parent = frm
    for g in gs:
        c = [x for x in store.groups if x.name == g and x.parent == parent]
        if not c:
            return None
        parent = c[0].id
    c = [x for x in store.structs + store.enums if x.name == last and x.parent == parent]
    return c[0] if c else None


LOOKUP = ('get_struct_by_str_path', 'get_enum_by_str_path', 'find_by_str_path')


DESTROY = ('remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'set_len')


def opens_for_writing(e):
    return e.recv is not None and e.args and any(x.op in ('mcall', 'call') and str(x.a[1] if x.op == 'mcall' else x.a[0]).split('::')[-1] in ('write', 'truncate', 'append', 'create', 'create_new') for x in subterms(e.recv))


class Exec(object):
    """Carries out the effects of a generator function on a schematic model: what it writes where."""

    def __init__(self, P, existing=()):
        self.P = P
        self.files = {}
        self.order = []
        self.stuck = []             # effects that could not be derived
        self.g = Gram(P, opaque=self.is_opaque)
        self.existing = set(existing)
        c = self.g.calls
        self.asked = []             # per written file: the paths whose existence the write depends on
        self.removed = []           # (path, name of the call, function)
        self.unsure = []            # writes whose condition could not be decided: (path, event, function)
        self.queries = set()

        def there(p):
            self.queries.add(p)
            return p in self.existing
        c['exists'] = c['is_file'] = there
        c['is_dir'] = lambda p: '.' not in posixpath.basename(p) and there(p)
        c['with_extension'] = lambda p, x: posixpath.splitext(p)[0] + ('.' + x if x else '')
        c['with_file_name'] = lambda p, x: posixpath.join(posixpath.dirname(p), x)
        c['file_name'] = lambda p: Some(posixpath.basename(p))
        c['parent'] = lambda p: Some(posixpath.dirname(p))
        c['try_exists'] = lambda p: Ct('Ok', (there(p),))
        for n in ('to_path_buf', 'as_path', 'to_string_lossy', 'canonicalize', 'into_os_string', 'to_str', 'display'):
            c[n] = lambda p: p
        for n in ('create_dir', 'create_dir_all', 'remove_file', 'remove_dir', 'remove_dir_all', 'rename', 'copy', 'sync_all', 'flush', 'write', 'write_all', 'render', 'create', 'create_if'):
            c[n] = lambda *a: Ct('Ok', ())
        def find(ty):
            def f(store, frm, path):
                x = lookup(store, frm, path)
                return Some(x) if x is not None and (ty is None or x.ty == ty) else None_
            return f
        c['get_struct_by_str_path'], c['get_enum_by_str_path'], c['find_by_str_path'] = find('Struct'), find('Enum'), find(None)
        c['join'] = lambda b, x: x.join(str(y) for y in b) if isinstance(b, list) else posixpath.normpath(posixpath.join(b, x))

    def is_opaque(self, fn):
        if fn.name == 'write' and not fn.owner:
            return True
        if fn.name in LOOKUP and fn.owner and fn.owner.endswith('::Store'):
            return True
        return fn.name == 'render' and bool(fn.owner) or fn.name in ('create', 'create_if') and bool(fn.owner)

    def run(self, fn, selfv, args, depth=0):
        if depth > 12:
            raise Stuck('recursion')
        I, ps, v = self.g.summary(fn)
        env = {mk('sym', 'self'): selfv}
        for n, a in zip(ps, args):
            env[mk('sym', n)] = a
        inst = Inst(self.g, I, fn, depth)
        todo = []
        for e in I.events:
            if e.kind != 'call':
                continue
            last = (e.name or '').split('::')[-1]
            if last in ('write', 'write_all'):
                pass
            elif last in ('render', 'create', 'create_if'):
                pass
            elif last in DESTROY or last == 'open' and opens_for_writing(e):
                pass
            else:
                continue
            todo.append(e)
        for e in todo:
            if e.loops and self.never(inst, e.pc, env):
                continue
            for en in self.rounds(inst, list(e.loops), dict(env)):
                try:
                    self.queries = set()
                    if all(self.holds(inst, c, en, fn, e) for c in e.pc):
                        self.effect(inst, fn, e, en, depth)
                except Stuck as x:
                    self.stuck.append('%s: %s' % (fn.loc(), x))
                    try:
                        if e.args and (e.name or '').split('::')[-1] in ('write', 'write_all', 'open') + DESTROY:
                            self.unsure.append((inst.ev(e.args[0], en), e, fn))
                    except Stuck:
                        pass

    def never(self, inst, pc, env):
        """whether what leads to the loops does not hold; their collections may have no value then"""
        for c in pc:
            if c.op == 'is' or c.op == 'not' and c.a[0].op == 'is':
                try:
                    if not inst.truth(c, dict(env)):
                        return True
                except Stuck:
                    pass
        return False

    def holds(self, inst, c, env, fn, e):
        try:
            return inst.truth(c, env)
        except Stuck as x:
            # what the turns of an earlier loop established: the schematic model is a valid one
            if free_state(c, env):
                return True
            raise Stuck('%s: condition of %s: %s' % (fn.qual(), e.name, x))

    def rounds(self, inst, loops, env):
        if not loops:
            yield env
            return
        kind, coll, cond, uid, lvl = loops[0]
        if kind != 'for':
            raise Stuck('loop of kind %s' % kind)
        li = inst.I.loopinfo.get(uid)
        state = None
        for i, x in enumerate(inst.items(coll, env)):
            e = dict(env)
            e[mk('elem', lvl, coll)] = x
            e[mk('idx', lvl, coll)] = i
            yield from self.rounds(inst, loops[1:], e)

    def effect(self, inst, fn, e, env, depth):
        last = (e.name or '').split('::')[-1]
        if last in ('write', 'write_all'):
            if len(e.args) >= 2:
                path, text = inst.ev(e.args[0], env), inst.ev(e.args[1], env)
                over = inst.ev(e.args[2], env) if len(e.args) > 2 else None
                self.files[path] = text
                self.order.append((path, text, over, fn))
                self.asked.append(frozenset(self.queries))
            return
        if last in DESTROY or last == 'open' or (e.name or '').endswith('File::create'):
            if last in ('rename', 'copy'):
                self.removed.append((inst.ev(e.args[-1], env), last, fn))
            if last != 'copy':
                self.removed.append((inst.ev(e.args[0], env), last, fn))
            return
        # a further part of the generator
        callee = self.callee(inst, e, fn)
        if callee is None:
            raise Stuck('%s: call of %s' % (fn.qual(), e.name))
        if '/protocol/render/' in callee.file:
            path = inst.ev(e.args[1], env)
            self.files[path] = None
            self.order.append((path, None, None, callee))
            self.asked.append(frozenset(self.queries))
            return
        recv = None
        if e.recv is not None:
            recv = inst.ev(e.recv, env)
        self.run(callee, recv, [inst.ev(a, env) for a in e.args], depth + 1)

    def callee(self, inst, e, fn):
        x = e.extra
        if x is not None and hasattr(x, 'node'):
            return x
        return None


def find_root(P, side, lang):
    d = TARGETS[(side, lang)]
    c = [f for f in P.all_fns if f.name == 'render' and f.file.endswith(d + 'render.rs')]
    c = list({(f.file, f.node.get('l')): f for f in c}.values())
    if len(c) != 1:
        raise Stuck('root of %s %s' % (side, lang))
    return c[0]


def emit(side, lang, existing=(), model=None):
    P = subject.cli()
    m = model or WorkflowModel()
    x = Exec(P, existing)
    root = find_root(P, side, lang)
    owner = 'RustRender' if lang == 'rs' else 'TypescriptRender'
    x.run(root, Obj(owner), [ROOT, m.store, m.protocol.store, Obj('Protocol' + owner, embedded=True, signature=0)])
    return x, m
