"""A stand-in for mujoco.MjModel: concrete bodies, joints and sites whose numbers are symbolic."""
from . import terms as T
from .values import *
from .interp import Custom
from .pylib import CONSTS

FREE, BALL, SLIDE, HINGE = 0, 1, 2, 3
for _k, _v in (('FREE', FREE), ('BALL', BALL), ('SLIDE', SLIDE), ('HINGE', HINGE)):
    CONSTS['mujoco.mjtJoint.mjJNT_' + _k] = _v
for _k, _v in (('PLANE', 0), ('HFIELD', 1), ('SPHERE', 2), ('CAPSULE', 3), ('ELLIPSOID', 4), ('CYLINDER', 5), ('BOX', 6), ('MESH', 7)):
    CONSTS['mujoco.mjtGeom.mjGEOM_' + _k] = _v


class View(Custom):
    """named access to one element, as returned by model.body(...), model.joint(...), ..."""

    def __init__(self, model, kind, row):
        self.model, self.kind, self.row = model, kind, row

    def getattr(self, I, name, node):
        if name in ('id', 'name'):
            return self.row[name]
        if name in self.row:
            v = self.row[name]
            if not isinstance(v, Tensor):
                v = self.row[name] = self.model.array(v)
            return v
        return I.unk('mujoco %s.%s' % (self.kind, name))


class Model(Custom):
    """tables: kind -> list of rows (dict of field -> value or list of values); fields keep mujoco's names (parentid, jntadr, ...)"""

    def __init__(self, S, tables):
        self.S, self.tables = S, tables
        for rows in tables.values():
            for k, r in enumerate(rows):
                r['id'] = k

    def array(self, v):
        vs = v if isinstance(v, list) else [v]
        ints = all(isinstance(x, int) for x in vs)
        return self.S.const(vs, I64 if ints else F64, CPU, 'numpy')

    def view(self, kind, a, node):
        rows = self.tables[kind]
        k = a[0]
        if isinstance(k, Tensor) or isinstance(k, Num):
            k = self.S.I.resolve(k)
            if isinstance(k, Tensor):
                k = self.S.I.tl.item(self.S.I, k, node)
            if isinstance(k, Num) and k.t.op == 'num':
                k = int(k.t.args[0])
        if isinstance(k, bool) or not isinstance(k, (int, str)):
            return self.S.I.unk('mujoco %s(...)' % kind)
        if isinstance(k, str):
            k = [r['id'] for r in rows if r['name'] == k]
            if not k:
                raise AbsRaise('KeyError', node)
            k = k[0]
        if not 0 <= k < len(rows):
            raise AbsRaise('IndexError', node)
        return View(self, kind, rows[k])

    PRE = {'body': 'body', 'jnt': 'joint', 'geom': 'geom', 'site': 'site'}
    N = {'nbody': 'body', 'njnt': 'joint', 'ngeom': 'geom', 'nsite': 'site'}

    def getattr(self, I, name, node):
        if name in self.N:
            return len(self.tables[self.N[name]])
        if name in ('body', 'joint', 'jnt', 'geom', 'site'):
            kind = 'joint' if name == 'jnt' else name
            return Prim(name, lambda I, a, k, n: self.view(kind, list(a) + list(k.values()), n))
        pre, _, field = name.partition('_')
        kind = self.PRE.get(pre)
        rows = self.tables.get(kind)
        if rows and field in rows[0] and field not in ('id', 'name'):
            return self.S.const([r[field] if not isinstance(r[field], Tensor) else 0 for r in rows], I64 if all(isinstance(r[field], int) for r in rows) else F64, CPU, 'numpy')
        return I.unk('mujoco model.%s' % name)


def install(I, docs):
    """docs: text -> Model"""
    def load(I, a, k, n):
        t = I.resolve(a[0] if a else k.get('xml'))
        if isinstance(t, str) and t in docs:
            return docs[t]
        return I.unk('document text')
    I.ext['mujoco.MjModel.from_xml_string()'] = load
