"""inverse kinematics: running the solver on symbolic problems, and what its results have to satisfy (numerically, per interpretation)"""
import numpy as np
from .lib import *
from .c01 import qmap
from .c06 import build, names_of

IK = PK + '.ik'
SOLVE = 'ik.py:PseudoInverseIK.solve'
TWO_PI = 2 * math.pi


class Problem:
    """a serial chain with symbolic geometry and limits, an initial configuration per attempt and a goal per problem"""

    def __init__(self, x, key, end, root='', pattern=None, dtype=F32, device=CPU, B='B', R=2, init='R', je=None):
        S, I = x.S, x.I
        self.x, self.B, self.R = x, B, R
        if isinstance(pattern, tuple):
            je, self.have = limited(x, key, pattern)
            self.r = Robot(S, key, dtype, device, jextra=je)
        elif pattern is None:
            self.r, self.have = Robot(S, key, dtype, device, jextra=je), {}
        else:
            self.r, self.have = build(x, key, pattern)
        self.chain = self.r.serial(end, root).val()
        self.end, self.start = end, root or self.r.spec.nodes[0].name
        self.names = names_of(x, self.chain)
        by = {n.jname: n for n in self.r.spec.nodes}
        self.nodes = [by[n] for n in self.names]
        self.n = n = len(self.names)
        self.init = init
        self.q0 = S.t('q0', {'R': (R, n), 'BR': (B, R, n), 'flat': (n,), 'one': (1, n)}[init], dtype, device)
        m = I.tensor((S.dim(B), 4, 4), lambda idx: num(int(idx[2].args[0] == 3)) if idx[1].args[0] == 3 else T.atom('rigid!goal', *idx), dtype, device)
        self.goal = x.val(S.call(TF + ':Transform3d', matrix=m, dtype=dtype, device=device), 'Transform3d')

    def solver(self, cls='PseudoInverseIK', **kw):
        k = dict(retry_configs=self.q0)
        k.update(kw)
        return self.x.val(self.x.S.call(IK + ':' + cls, self.chain, **k), cls)

    def solve(self, ik):
        return self.x.val(self.x.S.m(ik, 'solve', self.goal), 'solve')

    # ---- numeric side
    def sub(self, e, q):
        p = dict(e.providers)
        p['qs'] = lambda e_, name, idx: q[idx[0]]
        s = T.Env(e.seed, e.scale, p, None, e.where, e.norms)
        s.sizes = e.sizes
        return s

    def terms(self):
        if not hasattr(self, '_t'):
            q = {nm: T.atom('qs', num(j)) for j, nm in enumerate(self.names)}
            E = self.r.fk(self.end, q, self.start)
            cols = []
            for n in self.nodes:
                F_ = self.r.fk(n.name, q, self.start)
                z = mvec([r_[:3] for r_ in F_[:3]], self.r.axis(n))
                if n.jt == 'revolute':
                    cols.append(cross(z, [T.sub(E[i][3], F_[i][3]) for i in range(3)]) + z)
                else:
                    cols.append(z + [T.ZERO] * 3)
            self._t = E, cols
        return self._t

    def pose(self, e, q):
        E, _ = self.terms()
        s = self.sub(e, q)
        return np.array([[s.ev(t) for t in r_] for r_ in E])

    def jac(self, e, q):
        _, cols = self.terms()
        s = self.sub(e, q)
        return np.array([[s.ev(t) for t in c] for c in cols]).T.reshape(6, self.n)

    def target(self, e, b):
        return np.array([[e.ev(T.atom('rigid!goal', num(b), num(i), num(j))) for j in range(4)] for i in range(3)] + [[0, 0, 0, 1]])

    def err(self, e, b, q):
        P, G = self.pose(e, q), self.target(e, b)
        return np.concatenate([G[:3, 3] - P[:3, 3], rotvec(G[:3, :3] @ P[:3, :3].T)])

    def start_q(self, e, b, k):
        idx = {'R': (k,), 'BR': (b, k), 'flat': (), 'one': (0,)}[self.init]
        return [e.ev(T.atom('q0', *[num(i) for i in idx + (j,)])) for j in range(self.n)]

    def limits(self, e):
        lo, hi = [], []
        for n in self.nodes:
            w = self.have.get(('limits', n.name))
            lo.append(e.ev(w[0]) if w else -math.inf)
            hi.append(e.ev(w[1]) if w else math.inf)
        return np.array(lo), np.array(hi)

    def step(self, e, b, q, lam, mu, w=None):
        J, d = self.jac(e, q), self.err(e, b, q)
        if w is not None:
            J, d = w[:, None] * J, w * d
        A = J @ J.T + (lam + mu * (d @ d)) * np.eye(6)
        return J.T @ np.linalg.solve(A, d)


def limited(x, key, kinds):
    """limits of the moving joints, by kind"""
    S = x.S
    je, have = {}, {}
    for k, n in enumerate(x_ for x_ in ALL[key].nodes if x_.jt != 'fixed'):
        kd = kinds[k % len(kinds)]
        if kd == 'none':
            continue
        lo, hi = 'lim!%s!lo!%s' % (kd, n.name), 'lim!%s!hi!%s' % (kd, n.name)
        lt, ht = T.atom(lo), T.atom(hi)
        lv, hv = S.f(lo), S.f(hi)
        if kd in ('upper', 'inf'):
            lt, lv = T.neg(T.INF), -math.inf
        if kd in ('lower', 'inf'):
            ht, hv = T.INF, math.inf
        if kd == 'point':
            ht, hv = lt, lv
        je[n.name] = {'limits': (lv, hv)}
        have['limits', n.name] = (lt, ht)
    return je, have


def rotvec(R):
    c = (np.trace(R) - 1) / 2
    a = math.acos(max(-1.0, min(1.0, c)))
    v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]])
    n = np.linalg.norm(v)
    if n < 1e-9:
        return v * 0.5 if c > 0 else np.full(3, np.nan)
    return v / n * a


PROVIK = {'limits!lo!*': p_range(-3.0, -0.5), 'limits!hi!*': p_range(0.5, 3.0), 'q0': p_range(-2.0, 2.0), 'ptol': p_range(0.3, 2.5), 'rtol': p_range(0.5, 3.0), 'lam': p_range(0.01, 0.3), 'mu': p_range(0.05, 0.8),
          'lim!both!lo!*': p_range(-2.5, -0.5), 'lim!both!hi!*': p_range(0.5, 2.5), 'lim!wide!lo!*': p_range(-9.0, -4.0), 'lim!wide!hi!*': p_range(4.0, 9.0),
          'lim!narrow!lo!*': p_range(-0.4, 0.0), 'lim!narrow!hi!*': p_range(0.1, 0.4), 'lim!off!lo!*': p_range(3.5, 4.5), 'lim!off!hi!*': p_range(5.0, 11.0), 'lim!point!*': p_range(-1.0, 1.0),
          'lim!upper!hi!*': p_range(-1.0, 1.0), 'lim!lower!lo!*': p_range(-1.0, 1.0), 'lim!pi!lo!*': p_const(-math.pi), 'lim!pi!hi!*': p_const(math.pi),
          'lr': p_range(0.2, 1.2), 'wp': p_range(0.3, 2.0), 'wr': p_range(0.3, 2.0)}


def el(x, t, *shape):
    """reader of a tensor attribute, after checking its shape"""
    t = x.I.resolve(t)
    if isinstance(t, Unknown):
        raise Undecided(t.reason)
    if not isinstance(t, Tensor):
        raise Undecided('not a tensor')
    if not shape_ok(x, t, shape, 'result'):
        raise ScenarioBad('result shape', 'shape %s' % (t.shape,))
    return x.I.reader(t)


def numeric(x, what, got, want, es, tol=1e-5, at=None, msg=''):
    """got: list of terms; want(e) -> list of numbers (nan: not constrained)"""
    c = Cmp()
    for e in es:
        try:
            w = list(want(e))
        except T.Undefined as u:
            c.n += 1
            c.unknown.append('%s: specification undefined: %s' % (what, u))
            continue
        for i, (g, ww) in enumerate(zip(got, w)):
            c.n += 1
            try:
                gv = e.ev(g)
            except T.Undefined as u:
                c.unknown.append('%s: %s' % (what, u))
                continue
            c.points += 1
            if not isinstance(ww, (bool, np.bool_)) and ww != ww:
                continue
            if close(gv if isinstance(gv, bool) else float(gv), bool(ww) if isinstance(ww, (bool, np.bool_)) else float(ww), tol):
                c.ri += 1
            else:
                c.bad.append(Mismatch(what + ' ' + msg, (i,), gv, ww, e))
    return x.cmp(c, what, at)
