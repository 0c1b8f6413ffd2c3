"""Schematic protocol model: one member per case the generator tells apart, with fresh names and ids."""
import itertools
from . import subject
from .schema import Obj, Ct, Some, None_

PRIMS = ['bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'str']


class Model(object):
    def __init__(self):
        self._id = 40000
        self.groups, self.structs, self.enums = [], [], []
        self.build()

    def id(self):
        # not monotone with the position, never equal to one
        self._id = (self._id + 7919) % 60000 + 1000
        return self._id

    def group(self, name, parent):
        g = Obj('Group', id=self.id(), parent=parent.id if parent else 0, name=name, structs=[], enums=[], groups=[])
        if parent:
            parent.groups.append(g.id)
        self.groups.append(g)
        return g

    def path(self, parent):
        out = []
        while parent:
            g = [x for x in self.groups if x.id == parent][0]
            out.append(g.name)
            parent = g.parent
        return out[::-1]

    def enum(self, name, parent, variants):
        e = Obj('Enum', id=self.id(), parent=parent.id if parent else 0, name=name, variants=variants, path=self.path(parent.id if parent else 0), current=None_)
        if parent:
            parent.enums.append(e.id)
        self.enums.append(e)
        return e

    def struct(self, name, parent, fields):
        s = Obj('Struct', id=self.id(), parent=parent.id if parent else 0, name=name, fields=fields, path=self.path(parent.id if parent else 0))
        if parent:
            parent.structs.append(s.id)
        for f in fields:
            f.f['parent'] = 0
        self.structs.append(s)
        return s

    def var(self, name, prim=None, ref=None, repeated=False):
        return Obj('EnumItem', name=name, types=Some(Ct('E' + prim)) if prim else None_, ref_type_id=Some(ref.id) if ref else None_,
                   ref_type_path=[], repeated=repeated, type_path=[prim] if prim else self.full(ref), _ref=ref, _prim=prim)

    def full(self, e):
        return self.path(e.parent) + [e.name]

    def ancestors(self, e):
        out, p = [], e.parent
        while p:
            out.append(p)
            p = [x for x in self.groups if x.id == p][0].parent
        return out[::-1]

    def field(self, name, kind=None, ref=None, optional=False, repeated=False):
        f = Obj('Field', id=self.id(), parent=0, name=name, kind=kind if kind else ref.name, ref_type=None_,
                ref_type_id=Some(ref.id) if ref else None_, ref_type_path=self.ancestors(ref) if ref else [],
                repeated=repeated, optional=optional, type_path=[kind] if kind else self.full(ref))
        f.f['_ref'] = ref
        return f

    def build(self):
        g1 = self.group('Gone', None)
        g2 = self.group('Gtwo', g1)
        g3 = self.group('Gthree', None)
        self.empty = self.struct('Sempty', None, [])
        self.plain = self.struct('Splain', None, [self.field('zp', 'u8')])
        self.ing = self.struct('Sgone', g1, [self.field('za', 'str'), self.field('zb', 'u32')])
        self.deep = self.struct('Sdeep', g2, [self.field('zc', 'f64')])
        self.last = self.struct('Sgthree', g3, [self.field('zd', 'i16')])
        vs = []
        for i, p in enumerate(PRIMS):
            for r in (False, True):
                vs.append(self.var('V%s%s' % (p, 'A' if r else ''), prim=p, repeated=r))
        # interleave references so that positions and kinds are not aligned
        vs.insert(3, self.var('Vref', ref=self.plain))
        vs.append(self.var('Vdeep', ref=self.deep))
        vs.append(self.var('VrefA', ref=self.plain, repeated=True))
        vs.append(self.var('VdeepA', ref=self.deep, repeated=True))
        self.all = self.enum('Eall', None, vs)
        self.eone = self.enum('Egone', g1, [self.var('Wa', prim='u16'), self.var('Wb', prim='str')])
        self.etwo = self.enum('Edeep', g2, [self.var('Xa', prim='str', repeated=True), self.var('Xb', ref=self.ing)])
        fs = []
        n = 0
        for opt in (False, True):
            for rep in (False, True):
                for p in PRIMS:
                    fs.append(self.field('f%s%s%s' % (p, 'R' if rep else '', 'O' if opt else ''), p, optional=opt, repeated=rep))
                for s, nm in ((self.plain, 'sp'), (self.deep, 'sd')):
                    fs.append(self.field('f%s%s%s' % (nm, 'R' if rep else '', 'O' if opt else ''), ref=s, optional=opt, repeated=rep))
                for s, nm in ((self.all, 'ea'), (self.eone, 'eg'), (self.etwo, 'ed')):
                    fs.append(self.field('f%s%s%s' % (nm, 'R' if rep else '', 'O' if opt else ''), ref=s, optional=opt, repeated=rep))
        # entities of one name in different groups; references relative to the own group
        self.twins = [self.struct('Twin', None, [self.field('same', 'u8')]), self.struct('Twin', g1, [self.field('same', 'str')]), self.struct('Twin', g2, [self.field('same', 'f32')])]
        self.etwins = [self.enum('Etwin', None, [self.var('Same', prim='u8')]), self.enum('Etwin', g1, [self.var('Same', prim='str')])]
        # three fields per structure; the structures alternate between the root and the groups
        self.cases = []
        for i in range(0, len(fs), 3):
            self.cases.append(self.struct('Scase%d' % (i // 3), [None, g1, None, g2][i // 3 % 4], fs[i:i + 3]))
        tw = []
        for t in self.twins:
            tw.append(self.field('ft%d' % len(t.path), ref=t))
        for t in self.twins:
            tw.append(self.field('ft%dR' % len(t.path), ref=t, repeated=True))
        for t in self.etwins:
            tw.append(self.field('fu%d' % len(t.path), ref=t))
        tw.append(self.field('fu9', ref=self.etwins[1], optional=True))
        self.cases.append(self.struct('Stwins', None, tw))
        own = [self.field('oa', ref=self.twins[1]), self.field('ob', ref=self.twins[1], repeated=True), self.field('oc', ref=self.deep),
               self.field('od', ref=self.etwins[1]), self.field('oe', ref=self.ing, optional=True)]
        for f in own:
            f.f['type_path'] = f._ref.path[1:] + [f._ref.name]
            f.f['ref_type_path'] = f.f['ref_type_path'][1:]
        vr = [self.var('Ra', ref=self.ing), self.var('Rb', ref=self.deep)]
        for v in vr:
            v.f['type_path'] = v.type_path[1:]
        self.erel = self.enum('Erel', g1, vr)
        self.rel = self.struct('Srel', g1, own)
        self.cases.append(self.rel)
        self.fullg = self.struct('Sfullg', g2, [self.field('ga', 'u64'), self.field('gs', ref=self.ing), self.field('gr', ref=self.ing, repeated=True)])
        self.store = Obj('Store', structs=self.structs, enums=self.enums, groups=self.groups, hash='0hAsH0', path=[], sequence=0,
                         c_struct=None_, c_group=None_, c_enum=None_, c_field=None_)
