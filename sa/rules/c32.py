"""Interpolation, closeness, angular distance and the extended arc cosine are evaluated for symbolic inputs (generic and mixed batches) and compared
with the defining formulas, region by region."""
from .lib import *

FLOOR = 20
A = 'transforms/math.py:'
B = 'B'


def pair(shape_n, cosv):
    """provider for q2 at a given angle from q1: quaternions with dot product about cosv (list cycles over rows)"""
    def p(e, name, idx):
        r = idx[:-1]
        key = ('pair', r)
        m = e.memo.get(key)
        if m is None:
            q1 = p_quat(e, r)
            v = [e.h('o', r, k) * 2 - 1 for k in range(4)]
            d = sum(a * b for a, b in zip(v, q1))
            v = [a - d * b for a, b in zip(v, q1)]
            n = math.sqrt(sum(a * a for a in v))
            c = cosv[int(r[0]) % len(cosv)] if r else cosv[0]
            s = math.sqrt(max(0.0, 1 - c * c))
            m = [c * a + s * b / n for a, b in zip(q1, v)]
            e.memo[key] = m
        return m[idx[-1]]
    return p


def p_quat(e, r):
    key = ('q1', r)
    m = e.memo.get(key)
    if m is None:
        m = rand_quat(e, *key)
        e.memo[key] = m
    return m


def p_q1(e, name, idx):
    return p_quat(e, idx[:-1])[idx[-1]]


def slerp_spec(a, b, t):
    """shortest arc"""
    d = dot(a, b)
    s = T.ite(T.lt(d, T.ZERO), num(-1), T.ONE)
    d = T.mul(d, s)
    th = T.fn('acos', d)
    w1 = T.div(sin(T.mul(T.sub(T.ONE, t), th)), sin(th))
    w2 = T.mul(s, T.div(sin(T.mul(t, th)), sin(th)))
    return [T.add(T.mul(w1, p), T.mul(w2, q)) for p, q in zip(a, b)]


def slerp(x, n, cosv, tv, tol=1e-7):
    S = x.S
    if tv == 'tensor':
        tval = S.t('t', (n,))
        tt = lambda b: T.atom('t', b)
    elif tv is None:
        tval, tt = S.f('t'), lambda b: T.atom('t')
    else:
        tval, tt = float(tv), lambda b: num(tv)
    o = x.val(S.call(tf(S, 'quaternion_slerp'), S.t('a', (n, 4)), S.t('b', (n, 4)), tval), 'quaternion_slerp')
    prov = {'a': p_q1, 'b': pair(n, cosv), 't': p_range(0.05, 0.95)}
    x.eq('quaternion_slerp', o, (S.dim(n), 4), lambda i: slerp_spec(at_('a', i[:1], 4), at_('b', i[:1], 4), tt(i[0]))[int(i[1].args[0])], prov, n=4, tol=tol)


def slerp_ends(x, n, cosv, t):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_slerp'), S.t('a', (n, 4)), S.t('b', (n, 4)), float(t)), 'quaternion_slerp')
    prov = {'a': p_q1, 'b': pair(n, cosv)}
    sgn = lambda i: T.ite(T.lt(dot(at_('a', i[:1], 4), at_('b', i[:1], 4)), T.ZERO), num(-1), T.ONE)
    x.eq('slerp at %d' % t, o, (S.dim(n), 4), lambda i: T.atom('a', *i) if t == 0 else T.mul(sgn(i), T.atom('b', *i)), prov, n=4, tol=1e-6)


def slerp_same(x, n, sign):
    """interpolating between equal (or opposite) quaternions is constant"""
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_slerp'), S.t('a', (n, 4)), S.t('b', (n, 4)), S.f('t')), 'quaternion_slerp')
    prov = {'a': p_q1, 'b': lambda e, n_, i: (sign if i[0] % 2 == 0 else -sign) * p_q1(e, n_, i), 't': p_range(0, 1)}
    x.eq('slerp of equal rotations', o, (S.dim(n), 4), lambda i: T.atom('a', *i), prov, n=3, tol=1e-6)


def slerp_mixed(x):
    """close and distant pairs in one batch"""
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_slerp'), S.t('a', (3, 4)), S.t('b', (3, 4)), S.f('t')), 'quaternion_slerp')
    prov = {'a': p_q1, 'b': lambda e, n_, i: p_q1(e, n_, i) if i[0] == 1 else pair(3, [0.3, 1.0, -0.4])(e, n_, i), 't': p_range(0.1, 0.9)}
    x.eq('slerp of a mixed batch', o, (3, 4), lambda i: T.atom('a', *i) if i[0].args[0] == 1 else slerp_spec(at_('a', i[:1], 4), at_('b', i[:1], 4), T.atom('t'))[int(i[1].args[0])], prov, n=3)


def dist(x, lead, cosv):
    S = x.S
    f = tf(S, 'quaternion_angular_distance')
    a, b = S.t('a', lead + (4,)), S.t('b', lead + (4,))
    prov = {'a': p_q1, 'b': pair(None, cosv)}
    o = x.val(S.call(f, a, b), 'quaternion_angular_distance')
    o2 = x.val(S.call(f, b, a), 'quaternion_angular_distance')
    sh = dims(S, lead)
    spec = lambda i: T.mul(num(2), T.fn('acos', T.fn('abs', dot(at_('a', i, 4), at_('b', i, 4)))))
    x.eq('quaternion_angular_distance', o, sh, spec, prov, n=4, tol=1e-6)
    x.eq('symmetry', o2, sh, spec, prov, n=4, tol=1e-6)


def dist0(x, sign):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_angular_distance'), S.t('a', (2, 4)), S.t('b', (2, 4))), 'quaternion_angular_distance')
    x.eq('distance of equal rotations', o, (2,), lambda i: T.ZERO, {'a': p_q1, 'b': lambda e, n_, i: sign * p_q1(e, n_, i)}, n=3, tol=1e-6)


def dist_mixed(x):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_angular_distance'), S.t('a', (3, 4)), S.t('b', (3, 4))), 'quaternion_angular_distance')
    prov = {'a': p_q1, 'b': lambda e, n_, i: p_q1(e, n_, i) if i[0] == 1 else pair(3, [0.3, 1.0, -0.4])(e, n_, i)}
    x.eq('distances of a mixed batch', o, (3,), lambda i: T.ZERO if i[0].args[0] == 1 else T.mul(num(2), T.fn('acos', T.fn('abs', dot(at_('a', i, 4), at_('b', i, 4))))), prov, n=3, tol=1e-6)


def acos(x, lead, bound, lo, hi):
    S = x.S
    f = tf(S, 'acos_linear_extrapolation')
    a = [] if bound is None else [bound if not isinstance(bound, tuple) else tuple(bound)]
    o = x.val(S.call(f, S.t('x', lead), *a), 'acos_linear_extrapolation')
    lb, ub = bound if isinstance(bound, tuple) else ((-bound, bound) if bound is not None else (-(1 - 1e-4), 1 - 1e-4))
    from fractions import Fraction
    L, U = num(Fraction(lb)), num(Fraction(ub))

    def lin(v, b):
        d = -1.0 / math.sqrt(1 - b * b)
        return T.add(num(Fraction(math.acos(b))), T.mul(num(Fraction(d)), T.sub(v, num(Fraction(b)))))

    def spec(i):
        v = T.atom('x', *i)
        return T.ite(T.le(U, v), lin(v, ub), T.ite(T.le(v, L), lin(v, lb), T.fn('acos', v)))
    for k, (p, q) in enumerate(((lo, lb - 1e-6), (lb + 1e-6, ub - 1e-6), (ub + 1e-6, hi), (lb, lb), (ub, ub))):
        x.eq('acos_linear_extrapolation', o, dims(S, lead), spec, {'x': p_range(p, q)}, n=3, tol=1e-6, seed0=k)


def acos_refuse(x, bound):
    S = x.S
    x.refused(S.call(tf(S, 'acos_linear_extrapolation'), S.t('x', ('B',)), bound), 'acos_linear_extrapolation(bound=%s)' % (bound,))


def scenarios(tier):
    o = []
    Q = A + 'quaternion_slerp'
    for n in ('B', 2, 1):
        for k, cs in enumerate(([0.3, 0.8], [-0.4, -0.7], [0.5, -0.5], [0.999, 0.99], [0.0, 0.02])):
            if tier == 'thorough' or n != 1 or k < 2:
                o.append(('slerp.%s.%d' % (n, k), slerp, (n, cs, None, 1e-6), Q))
        for t in (0, 1):
            o.append(('slerp.end%d.%s' % (t, n), slerp_ends, (n, [0.3, -0.6], t), Q))
        for sg in (1, -1):
            o.append(('slerp.same.%s.%d' % (n, sg), slerp_same, (n, sg), Q))
    o.append(('slerp.mixed', slerp_mixed, (), Q))
    D = A + 'quaternion_angular_distance'
    for L in ((), ('B',), (2,), ('B', 'C')):
        for k, cs in enumerate(([0.3, 0.8], [-0.4, -0.7], [0.9, -0.99])):
            o.append(('distance.%d.%s.%d' % (len(L), L, k), dist, (L, cs), D))
    o.append(('distance.same', dist0, (1,), D))
    o.append(('distance.opposite', dist0, (-1,), D))
    o.append(('distance.mixed', dist_mixed, (), D))
    C = A + 'acos_linear_extrapolation'
    for L in (('B',), (3,), ('B', 'C')):
        for bd in (None, 0.9, (-0.5, 0.8)):
            o.append(('acos.%d.%s' % (len(L), bd), acos, (L, bd, -1.6, 1.6), C))
    for bd in (1.0, 1.5, (-1.0, 0.5), (-0.5, 1.0), (0.5, -0.5)):
        o.append(('acos.refuse.%s' % (bd,), acos_refuse, (bd,), C))
    return o
