"""Every rotation conversion is evaluated for symbolic inputs (generic batch shapes) and compared, entry by entry, with the defining formula of the
rotation it must describe; branch boundaries (half turns, identity, angles below the guard) are separate scenarios."""
from .lib import *

FLOOR = 55
INF = T.fn
W1 = 'matrix_to_quaternion'


def q2m(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_to_matrix'), S.t('q', lead + (4,))), 'quaternion_to_matrix')
    x.eq('quaternion_to_matrix', o, dims(S, lead) + (3, 3), lambda i: quat_mat(at_('q', i[:-2], 4))[int(i[-2].args[0])][int(i[-1].args[0])], prove=True)


def m2q(x, lead, prov, n, seed):
    S = x.S
    o = x.val(S.call(tf(S, 'matrix_to_quaternion'), S.t('rot!R', lead + (3, 3))), 'matrix_to_quaternion')
    if not shape_ok(x, o, lead + (4,), 'matrix_to_quaternion'):
        return
    r = tensor_el(x, o)
    ix = rows(lead)
    q = [r(ix + (num(k),)) for k in range(4)]
    M = quat_mat(q)
    R = amat('rot!R', ix)
    x.terms('matrix_to_quaternion round trip', [(M[i][j], R[i][j]) for i in range(3) for j in range(3)], prov and {'rot!R': prov}, n=n, seed0=seed)
    x.terms('matrix_to_quaternion unit length', [(dot(q, q), T.ONE)], prov and {'rot!R': prov}, n=n, seed0=seed)


def aa33(x, lead, name):
    S = x.S
    o = x.val(S.call(tf(S, name), S.t('uv!a', lead + (3,)), S.t('th', lead)), name)
    if name.endswith('33'):
        x.eq(name, o, dims(S, lead) + (3, 3), lambda i: entry(rodrigues(at_('uv!a', i[:-2], 3), T.atom('th', *i[:-2])))(i))
    else:
        x.eq(name, o, dims(S, lead) + (4, 4), lambda i: entry(hom(rodrigues(at_('uv!a', i[:-2], 3), T.atom('th', *i[:-2])), [T.ZERO] * 3))(i))


def pris(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'axis_and_d_to_pris_matrix'), S.t('a', lead + (3,)), S.t('d', lead)), 'axis_and_d_to_pris_matrix')
    x.eq('axis_and_d_to_pris_matrix', o, dims(S, lead) + (4, 4), lambda i: entry(hom(eye(3), [T.mul(T.atom('d', *i[:-2]), a) for a in at_('a', i[:-2], 3)]))(i), prove=True)


def vspec(ix):
    v = at_('v', ix, 3)
    th = sqrt(dot(v, v))
    return v, th


def a2q(x, lead, scale):
    S = x.S
    o = x.val(S.call(tf(S, 'axis_angle_to_quaternion'), S.t('v', lead + (3,))), 'axis_angle_to_quaternion')
    if not shape_ok(x, o, lead + (4,), 'axis_angle_to_quaternion'):
        return
    r = tensor_el(x, o)
    ix = rows(lead)
    v, th = vspec(ix)
    got = [r(ix + (num(k),)) for k in range(4)]
    s = sin(T.mul(num('1/2'), th))
    want = [cos(T.mul(num('1/2'), th))] + [T.mul(s, T.div(a, th)) for a in v]
    # the vector part is compared relative to the angle, so that tiny rotations are not lost in the tolerance
    pairs = [(got[0], want[0])] + [(T.div(g, th), T.div(w, th)) for g, w in zip(got[1:], want[1:])]
    x.terms('axis_angle_to_quaternion', pairs, {'v': lambda e, n_, i: (e.h(n_, i) * 2 - 1) * scale}, n=5, tol=1e-6)


def a2q0(x):
    S = x.S
    o = x.val(S.call(tf(S, 'axis_angle_to_quaternion'), S.t('v', ('B', 3))), 'axis_angle_to_quaternion')
    x.eq('axis_angle_to_quaternion of the zero vector', o, (S.dim('B'), 4), lambda i: num(int(i[-1].args[0] == 0)), {'v': p_const(0.0)})


def a2m(x, lead, scale):
    S = x.S
    o = x.val(S.call(tf(S, 'axis_angle_to_matrix'), S.t('v', lead + (3,))), 'axis_angle_to_matrix')
    if not shape_ok(x, o, lead + (3, 3), 'axis_angle_to_matrix'):
        return
    ix = rows(lead)
    v, th = vspec(ix)
    R = rodrigues([T.div(a, th) for a in v], th)
    x.eq('axis_angle_to_matrix', o, None, lambda i: R[int(i[-2].args[0])][int(i[-1].args[0])] if i[:-2] == ix else _sub(R, i), {'v': lambda e, n_, i: (e.h(n_, i) * 2 - 1) * scale}, n=5)


def _sub(R, i):
    v, th = vspec(i[:-2])
    return entry(rodrigues([T.div(a, th) for a in v], th))(i)


def q2a(x, lead, prov, tag, ratio=False):
    """the axis-angle vector describes the rotation of the quaternion"""
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_to_axis_angle'), S.t('uq!q', lead + (4,))), 'quaternion_to_axis_angle')
    if not shape_ok(x, o, lead + (3,), 'quaternion_to_axis_angle'):
        return
    r = tensor_el(x, o)
    ix = rows(lead)
    v = [r(ix + (num(k),)) for k in range(3)]
    q = at_('uq!q', ix, 4)
    if tag == 'identity':
        x.terms('quaternion_to_axis_angle of the identity', [(a, T.ZERO) for a in v], {'uq!q': prov})
        return
    th = sqrt(dot(v, v))
    R = rodrigues([T.div(a, th) for a in v], th)
    Q = quat_mat(q)
    x.terms('quaternion_to_axis_angle', [(R[i][j], Q[i][j]) for i in range(3) for j in range(3)], prov and {'uq!q': prov}, n=6)
    if ratio:      # q = (cos, sin*axis) with a small angle: v = 2 q_vec / q_w up to third order
        x.terms('quaternion_to_axis_angle relative', [(T.div(a, b), T.mul(num(2))) for a, b in zip(v, q[1:])], {'uq!q': prov}, n=4, tol=1e-5)


def qtiny(s):
    def p(e, name, idx):
        k = idx[-1]
        v = [(0.3 + e.h(name, idx[:-1], j)) * s for j in range(3)]
        return math.sqrt(1 - sum(a * a for a in v)) if k == 0 else v[k - 1]
    return p


def qa_roundtrip(x):
    """axis_angle -> quaternion -> axis_angle for angles below a half turn"""
    S = x.S
    q = x.val(S.call(tf(S, 'axis_angle_to_quaternion'), S.t('v', ('B', 3))), 'axis_angle_to_quaternion')
    o = x.val(S.call(tf(S, 'quaternion_to_axis_angle'), q), 'quaternion_to_axis_angle')
    x.eq('axis-angle round trip', o, (S.dim('B'), 3), lambda i: T.atom('v', *i), {'v': lambda e, n_, i: (e.h(n_, i) * 2 - 1) * 1.7}, n=6)


def m2a(x, lead, prov=None, tag=''):
    S = x.S
    o = x.val(S.call(tf(S, 'matrix_to_axis_angle'), S.t('rot!R', lead + (3, 3))), 'matrix_to_axis_angle')
    if not shape_ok(x, o, lead + (3,), 'matrix_to_axis_angle'):
        return
    r = tensor_el(x, o)
    ix = rows(lead)
    v = [r(ix + (num(k),)) for k in range(3)]
    th = sqrt(dot(v, v))
    R = rodrigues([T.div(a, th) for a in v], th)
    Q = amat('rot!R', ix)
    x.terms('matrix_to_axis_angle', [(R[i][j], Q[i][j]) for i in range(3) for j in range(3)], prov and {'rot!R': prov}, n=8, tol=1e-6)


def rnd(x, name, n):
    S, I = x.S, x.I
    o = x.val(S.call(tf(S, name), *([n] if n is not None else []), dtype=F64), name)
    lead = () if n is None else (n,)
    if name == 'random_quaternions':
        if not shape_ok(x, o, lead + (4,), name):
            return
        r = tensor_el(x, o)
        for b in range(n):
            q = [r((num(b), num(k))) for k in range(4)]
            x.terms(name + ' unit', [(dot(q, q), T.ONE)])
            x.terms(name + ' real part', [(T.abs_(q[0]) if hasattr(T, 'abs_') else T.fn('abs', q[0]), q[0])])
    else:
        if not shape_ok(x, o, lead + (3, 3), name):
            return
        r = tensor_el(x, o)
        for b in range(n or 1):
            pre = () if n is None else (num(b),)
            R = [[r(pre + (num(i), num(j))) for j in range(3)] for i in range(3)]
            P = mmul(R, tr(R))
            x.terms(name + ' orthonormal', [(P[i][j], num(int(i == j))) for i in range(3) for j in range(3)])
            c = cross(R[0], R[1])
            x.terms(name + ' right-handed', list(zip(c, R[2])))
    x.holds(o.dtype is F64, name + ' dtype', 'dtype %s' % o.dtype.name)


def badshape(x, name, shape):
    S = x.S
    x.refused(S.call(tf(S, name), S.t('m', shape)), '%s on a wrongly shaped input' % name)


HALF = [(0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, .6, .8, 0), (0, .6, 0, -.8), (0, 0, .28, .96), (0, .48, .6, .64), (1, 0, 0, 0), (1e-9, .6, .64, .48), (.7071067811865476, .7071067811865476, 0, 0)]
BND = [(1e-3, 1, .1, .2), (1e-3, .1, 1, .2), (1e-3, .1, .2, 1), (-.2, .9, .1, .2), (-.2, .1, .9, -.2), (-.2, .1, -.1, .9), (.9, .1, .1, .1), (.5, .5, .5, .5), (.3, -.9, .2, .1)]


def scenarios(tier):
    o = []
    A = RC + ':'
    for L in LEADS:
        n = len(L)
        o.append(('quaternion_to_matrix.%d' % n, q2m, (L,), A + 'quaternion_to_matrix'))
        o.append(('matrix_to_quaternion.%d' % n, m2q, (L, None, 12, 0), A + W1))
        for nm in ('axis_and_angle_to_matrix_33', 'axis_and_angle_to_matrix_44'):
            o.append(('%s.%d' % (nm, n), aa33, (L, nm), A + nm))
        o.append(('pris.%d' % n, pris, (L,), A + 'axis_and_d_to_pris_matrix'))
        o.append(('axis_angle_to_quaternion.%d' % n, a2q, (L, 2.0), A + 'axis_angle_to_quaternion'))
        o.append(('axis_angle_to_matrix.%d' % n, a2m, (L, 2.0), A + 'axis_angle_to_matrix'))
        o.append(('quaternion_to_axis_angle.%d' % n, q2a, (L, None, ''), A + 'quaternion_to_axis_angle'))
        o.append(('matrix_to_axis_angle.%d' % n, m2a, (L,), A + 'matrix_to_axis_angle'))
    for k, q in enumerate(HALF + BND):
        o.append(('matrix_to_quaternion.boundary%d' % k, m2q, (('B',), fixq(q), 2, 0), A + W1))
    for k, q in enumerate(BND):
        o.append(('matrix_to_axis_angle.boundary%d' % k, m2a, (('B',), fixq(q)), A + 'matrix_to_axis_angle'))
    for s in (4.0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 2e-7, 1e-8, 1e-12):
        o.append(('axis_angle_to_quaternion.scale%g' % s, a2q, (('B',), s), A + 'axis_angle_to_quaternion'))
    o.append(('axis_angle_to_quaternion.zero', a2q0, (), A + 'axis_angle_to_quaternion'))
    for s in (1e-1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-10):
        o.append(('quaternion_to_axis_angle.tiny%g' % s, q2a, (('B',), qtiny(s), '', s <= 1e-3), A + 'quaternion_to_axis_angle'))
    o.append(('quaternion_to_axis_angle.identity', q2a, (('B',), p_const([1.0, 0.0, 0.0, 0.0]) and (lambda e, n_, i: float(i[-1] == 0)), 'identity'), A + 'quaternion_to_axis_angle'))
    o.append(('axis_angle.roundtrip', qa_roundtrip, (), A + 'quaternion_to_axis_angle'))
    o.append(('random_quaternions', rnd, ('random_quaternions', 2), A + 'random_quaternions'))
    o.append(('random_rotations', rnd, ('random_rotations', 2), A + 'random_rotations'))
    o.append(('random_rotation', rnd, ('random_rotation', None), A + 'random_rotation'))
    for shp in ((3, 4), ('B', 4, 4), ('B', 4, 3), ('B', 2, 3)):
        o.append(('refuse.%s' % (shp,), badshape, ('matrix_to_quaternion', shp), A + W1))
    return o
