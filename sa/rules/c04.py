"""The Jacobian of serial chains (concrete topology, symbolic geometry, joint values and batch size) is evaluated through jacobian, jacobian_tensor
with and without precomputed poses, and calc_jacobian; each of the 6 x n entries is compared with the twist of its joint."""
from .lib import *
from .c01 import qmap

FLOOR = 60
AT = 'chain.py:SerialChain.jacobian_tensor'
CASES = [('arm', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('pp', 'ee', ''), ('rr', 'l2', ''), ('rootmove', 'l2', ''), ('fixed', 'l2', ''), ('star', 'b1', ''), ('star', 'a1', 'a'), ('arm', 'l3', 'l1'),
         ('tree', 'a1', ''), ('tree', 'b', '')]


class Ser:
    def __init__(self, x, key, end, root, dtype=F32, device=CPU):
        self.x = x
        self.r = r = Robot(x.S, key, dtype, device)
        self.chain = r.serial(end, root).val()
        self.end = end
        self.start = root or r.spec.nodes[0].name
        path = r.spec.path(end)
        k = [n.name for n in path].index(self.start)
        self.frames = [n.name for n in path[k:]]
        self.nodes = [n for n in path[k + 1:] if n.jt != 'fixed']
        self.names = [n.jname for n in self.nodes]

    def pose(self, q, name=None):
        return self.r.fk(name or self.end, q, self.start)

    def jac(self, q, tool=None):
        """6 x n list of terms; tool: position of the reference point in the end frame"""
        E = self.pose(q)
        p = [E[i][3] for i in range(3)]
        if tool is not None:
            p = [T.add(p[i], *[T.mul(E[i][k], tool[k]) for k in range(3)]) for i in range(3)]
        cols = []
        for n in self.nodes:
            F_ = self.pose(q, n.name)
            z = mvec([r_[:3] for r_ in F_[:3]], self.r.axis(n))
            if n.jt == 'revolute':
                d = [T.sub(p[i], F_[i][3]) for i in range(3)]
                cols.append(cross(z, d) + z)
            else:
                cols.append(z + [T.ZERO] * 3)
        return [[c[i] for c in cols] for i in range(6)]


def memo_jac(s, tool=None):
    m = {}

    def spec(idx):
        b = idx[0]
        J = m.get(b.id)
        if J is None:
            q = qmap(s.names)(b)
            J = m[b.id] = s.jac(q, tool(b) if tool else None)
        return J[int(idx[1].args[0])][int(idx[2].args[0])]
    return spec


def jac(x, key, end, root, B, entry_point, dtype=F32):
    S = x.S
    s = Ser(x, key, end, root, dtype)
    n = len(s.names)
    th = S.t('th', (n,) if B is None else (B, n), dtype)
    if B is None:
        th2 = S.t('th1', (1, n), dtype)
    if entry_point == 'jacobian':
        o = S.m(s.chain, 'jacobian', th)
    elif entry_point == 'calc':
        o = S.call(PK + '.jacobian:calc_jacobian', s.chain, th)
    elif entry_point == 'tensor':
        o = S.m(s.chain, 'jacobian_tensor', th)
    elif entry_point == 'pre':
        t = x.val(S.m(s.chain, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
        o = S.m(s.chain, 'jacobian_tensor', th, all_transforms=t)
    elif entry_point == 'pose':
        t = x.val(S.m(s.chain, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
        o = S.m(s.chain, 'jacobian_tensor', th, ret_eef_pose=True, all_transforms=t)
    elif entry_point == 'pose2':
        o = S.m(s.chain, 'jacobian_tensor', th, True)
    v = x.val(o, entry_point)
    b = S.dim(1 if B is None else B)
    if entry_point.startswith('pose'):
        if not isinstance(v, tuple) or len(v) != 2:
            raise ScenarioBad('result', 'jacobian_tensor(ret_eef_pose=True) does not return a pair')
        v, P = v
        x.eq('end effector pose', P, (b, 4, 4), lambda idx: entry(s.pose(qmap(s.names)(idx[0])))(idx), n=3)
    if B is None:
        J = s.jac({nm: T.atom('th', num(j)) for j, nm in enumerate(s.names)})
        x.eq('jacobian', v, (1, 6, n), lambda idx: J[int(idx[1].args[0])][int(idx[2].args[0])], n=3)
    else:
        x.eq('jacobian', v, (b, 6, n), memo_jac(s), n=3)
    t = x.I.resolve(v)
    if isinstance(t, Tensor):
        x.holds(t.dtype == dtype, 'dtype', 'Jacobian has dtype %s for a %s chain' % (t.dtype, dtype))


def corner(x, key, end, root):
    """principal axes, zero and half-turn angles, coincident joints"""
    S = x.S
    s = Ser(x, key, end, root)
    n = len(s.names)
    v = x.val(S.m(s.chain, 'jacobian', S.t('th', ('B', n))), 'jacobian')
    x.eq('jacobian', v, (S.dim('B'), 6, n), memo_jac(s), n=6, prov=CORNER)


def scenarios(tier):
    o = []
    for key, e, r in CASES:
        for ep in ('jacobian', 'tensor', 'calc', 'pre', 'pose', 'pose2'):
            for B in (('B',) if ep != 'jacobian' else ('B', 1, None, 3)) if tier == 'quick' else ('B', 1, 2, 3, 6):
                o.append(('%s.%s.%s.%s.%s' % (ep, key, r, e, B), jac, (key, e, r, B, ep), AT))
        o.append(('f64.%s.%s.%s' % (key, r, e), jac, (key, e, r, 'B', 'jacobian', F64), AT))
        o.append(('corner.%s.%s.%s' % (key, r, e), corner, (key, e, r), AT))
    return o
