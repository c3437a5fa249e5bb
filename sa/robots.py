"""Representative robots: concrete topology, symbolic geometry.

Every robot is built through the package's own constructors (Frame, Link, Joint, Transform3d, Chain) by the abstract interpreter;
offsets, axes, limits and joint values are symbolic."""
from .api import *

FR = PK + '.frame'
CH = PK + '.chain'


class Node:
    def __init__(self, name, parent, jt, joff=False, loff=False, jname=None, limits=None):
        self.name, self.parent, self.jt, self.joff, self.loff = name, parent, jt, joff, loff
        self.jname = jname or (name + '_j')
        self.limits = limits


class Spec:
    def __init__(self, key, nodes):
        self.key, self.nodes = key, nodes
        self.by = {n.name: n for n in nodes}

    def kids(self, name):
        return [n for n in self.nodes if n.parent == name]

    def dfs(self):
        out = []

        def go(n):
            out.append(n)
            for k in self.kids(n.name):
                go(k)
        go(self.nodes[0])
        return out

    def joints(self):
        return [n for n in self.dfs() if n.jt != 'fixed']

    def path(self, name):
        out = []
        while name is not None:
            out.append(self.by[name])
            name = self.by[name].parent
        return out[::-1]


def _s(key, *rows):
    return Spec(key, [Node(*r) for r in rows])


R, P, F = 'revolute', 'prismatic', 'fixed'
SPECS = {
    # branches, all joint kinds, offsets present and absent; breadth-first order differs from depth-first order
    'tree': _s('tree', ('base', None, F), ('a', 'base', R, True, False, 'j_z'), ('a1', 'a', P, False, True, 'j_y'), ('a2', 'a', F, True, True),
               ('a21', 'a2', R, True, True, 'j_a'), ('b', 'base', P, True, True, 'j_m'), ('b1', 'b', R, False, False, 'j_c'), ('b11', 'b1', F, False, True),
               ('b111', 'b11', R, True, False, 'j_b')),
    'arm': _s('arm', ('base', None, F, False, True), ('l1', 'base', R, True, False, 'shoulder_pan'), ('l2', 'l1', R, True, False, 'elbow'), ('m', 'l2', F, True, False),
              ('l3', 'm', P, True, True, 'lift'), ('ee', 'l3', F, True, False)),
    'rr': _s('rr', ('base', None, F), ('l1', 'base', R, True), ('l2', 'l1', R, True)),
    'pp': _s('pp', ('base', None, F), ('l1', 'base', P, True), ('l2', 'l1', P, False, True), ('ee', 'l2', F, False, False)),
    'fixed': _s('fixed', ('base', None, F, True), ('l1', 'base', F, True), ('l2', 'l1', F, False, True)),
    'rootmove': _s('rootmove', ('base', None, R, True, True, 'jr'), ('l1', 'base', F, True), ('l2', 'l1', P, False, True, 'jp')),
    'single': _s('single', ('base', None, F, True, True)),
    'star': _s('star', ('base', None, F), ('c', 'base', R, True, False, 'jc'), ('a', 'base', P, True, False, 'ja'), ('b', 'base', R, True, True, 'jb'),
               ('b1', 'b', R, True, False, 'jb1'), ('a1', 'a', R, True, False, 'ja1')),
}

# larger robots, used where they matter
BIG = {
    'seven': _s('seven', ('base', None, F), ('l1', 'base', R, True), ('l2', 'l1', R, True), ('l3', 'l2', P, True), ('l4', 'l3', R, True, True), ('f', 'l4', F, True), ('l5', 'f', R, True), ('l6', 'l5', P, False, True),
                ('l7', 'l6', R, True), ('l8', 'l7', R, True), ('ee', 'l8', F, True)),
    'six': _s('six', ('base', None, F), ('l1', 'base', R, True), ('l2', 'l1', R, True), ('l3', 'l2', R, True), ('l4', 'l3', R, True), ('l5', 'l4', R, True), ('l6', 'l5', R, True)),
}
ALL = dict(SPECS, **BIG)


class Robot:
    def __init__(self, S, key, dtype=F32, device=CPU, build=True, limits=None, jextra=None):
        self.S, self.key, self.spec = S, key, ALL[key]
        self.dtype, self.device = dtype, device
        self.limits = limits or {}
        I = S.I
        Frame, Link, Joint = (S.get(FR + ':' + n) for n in ('Frame', 'Link', 'Joint'))
        Tr = S.get(TF + ':Transform3d')
        self.frames = {}
        for n in self.spec.dfs():
            kw = dict(dtype=dtype, device=device)
            jo = S.call(Tr, matrix=self.mat('rigid!%s.jo' % n.name), dtype=dtype, device=device).val() if n.joff else None
            lo = S.call(Tr, matrix=self.mat('rigid!%s.lo' % n.name), dtype=dtype, device=device).val() if n.loff else None
            jargs = dict(offset=jo, joint_type=n.jt, **kw)
            if n.jt != 'fixed':
                jargs['axis'] = S.t('ax!' + n.name, (3,), dtype, device)
                if n.name in self.limits:
                    jargs['limits'] = self.limits[n.name]
                jargs.update((jextra or {}).get(n.name, {}))
            j = S.call(Joint, n.jname, **jargs).val()
            l = S.call(Link, n.name + '_link', offset=lo).val()
            f = S.call(Frame, n.name, link=l, joint=j).val()
            self.frames[n.name] = f
            if n.parent is not None:
                S.m(self.frames[n.parent], 'add_child', f).val()
        self.root = self.frames[self.spec.nodes[0].name]
        self.chain = S.call(CH + ':Chain', self.root, dtype=dtype, device=device).val() if build else None

    def mat(self, name):
        """(1,4,4) homogeneous matrix with symbolic upper rows"""
        def fn(idx):
            i, j = idx[1], idx[2]
            if i.op == 'num' and i.args[0] == 3:
                return num(int(j.args[0] == 3)) if j.op == 'num' else T.ite(T.eq(j, num(3)), T.ONE, T.ZERO)
            return T.atom(name, i, j)
        return self.S.I.tensor((1, 4, 4), fn, self.dtype, self.device)

    def serial(self, end, root='', **kw):
        return self.S.call(CH + ':SerialChain', self.chain, end, root, dtype=self.dtype, device=self.device, **kw)

    # ---- specification
    def axis(self, n):
        return normd([T.atom('ax!' + n.name, k) for k in range(3)])

    def rawmat(self, name):
        return [[T.atom(name, i, j) for j in range(4)] for i in range(3)] + [[T.ZERO, T.ZERO, T.ZERO, T.ONE]]

    def motion(self, n, q):
        if n.jt == 'revolute':
            return hom(rodrigues(self.axis(n), q), [T.ZERO] * 3)
        if n.jt == 'prismatic':
            return hom(eye(3), [T.mul(q, a) for a in self.axis(n)])
        return eye(4)

    def offset(self, n):
        M = eye(4)
        if n.loff:
            M = self.rawmat('rigid!%s.lo' % n.name)
        if n.joff:
            J = self.rawmat('rigid!%s.jo' % n.name)
            M = mmul(M, J) if n.loff else J
        return M

    def local(self, n, q):
        return mmul(self.offset(n), self.motion(n, q)) if n.jt != 'fixed' else self.offset(n)

    def fk(self, name, q, start=None):
        """4x4 terms of frame `name`; q: joint name -> term.  start: frame that acts as origin (its own offsets and joint excluded)"""
        M = None
        path = self.spec.path(name)
        if start is not None:
            k = [n.name for n in path].index(start)
            path = path[k + 1:]
        for n in path:
            L = self.local(n, q.get(n.jname))
            M = L if M is None else mmul(M, L)
        return M if M is not None else eye(4)

    def ancestors(self, name, start=None):
        path = self.spec.path(name)
        if start is not None:
            k = [n.name for n in path].index(start)
            path = path[k + 1:]
        return [n for n in path if n.jt != 'fixed']


def entry(M):
    """spec function over the last two (concrete) indices"""
    return lambda idx: M[int(idx[-2].args[0])][int(idx[-1].args[0])]
