"""Derived programs: what the generator emits for the schematic model, as parsed programs."""
import functools
from . import subject, front
from .model import Model
from .program import Program
from .schema import Gram, Obj, Stuck, Inst, Ct
from .terms import *

OPAQUE = {'structs', 'enums', 'groups', 'entity_default', 'buffer', 'get_messages_list', 'includes'}
SIG = 4242
OWN = {'rs': 'RustRender', 'ts': 'TypescriptRender'}


class Derived(object):
    def __init__(self, lang):
        self.lang = lang
        self.model = Model()
        P = subject.cli()
        self.g = Gram(P, opaque=lambda fn: (fn.name in OPAQUE and (fn.owner or '').endswith('Render')) or fn.name in ('write', 'add_service_struct') and not fn.owner)
        self.g.calls['includes'] = lambda *a: ''
        self.fn = self.root(P)
        self.text = self.emit()
        self.prog = Program(lang)
        self.prog.strict = True
        tr = front.parse_texts(lang, [self.text])[0]
        self.errors = []
        if 'error' in tr:
            self.errors.append(tr['error'])
        else:
            self.prog.add_text(tr, '<derived>')
            self.prog.finish()

    def root(self, P):
        c = [f for f in P.all_fns if f.qual() == OWN[self.lang] + '.render' and 'protocol' in f.file]
        if not c:
            raise Stuck('%s.render not found' % OWN[self.lang])
        return c[0]

    def emit(self):
        I, ps, v = self.g.summary(self.fn)
        evs = [e for e in I.events if e.kind == 'call' and (e.name or '').split('::')[-1] == 'write' and len(e.args) >= 2]
        if len(evs) != 1:
            raise Stuck('%d places write the rendered protocol' % len(evs))
        e = evs[0]
        env = {mk('sym', 'self'): Obj(OWN[self.lang], signature=SIG, embedded=False)}
        for n, a in zip(ps, [self.model.store, 'dest']):
            env[mk('sym', n)] = a
        txt = Inst(self.g, I, self.fn, 0).ev(e.args[1], env)
        if not isinstance(txt, str):
            raise Stuck('rendered text')
        return txt

    def loc(self, name):
        fn = self.g.fn(OWN[self.lang] + '.' + name)
        return fn.loc() if fn else OWN[self.lang] + '.' + name


@functools.lru_cache(None)
def derived(lang):
    return Derived(lang)
