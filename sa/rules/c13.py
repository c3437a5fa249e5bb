"""For each of the twelve conventions (and 24 axis sequences) the conversion is evaluated for symbolic angles / a symbolic rotation and compared with
the product of the elementary rotations; each refusal clause is a call that has to raise on every path."""
from .lib import *

FLOOR = 90
CONV = [a + b + c for a in 'XYZ' for b in 'XYZ' for c in 'XYZ' if a != b and b != c]
SEQ = ['sxyz', 'sxyx', 'sxzy', 'sxzx', 'syzx', 'syzy', 'syxz', 'syxy', 'szxy', 'szxz', 'szyx', 'szyz',
       'rzyx', 'rxyx', 'ryzx', 'rxzx', 'rxzy', 'ryzy', 'rzxy', 'ryxy', 'ryxz', 'rzxz', 'rxyz', 'rzyz']
TUP = {'sxyz': (0, 0, 0, 0), 'sxyx': (0, 0, 1, 0), 'sxzy': (0, 1, 0, 0), 'sxzx': (0, 1, 1, 0), 'syzx': (1, 0, 0, 0), 'syzy': (1, 0, 1, 0), 'syxz': (1, 1, 0, 0), 'syxy': (1, 1, 1, 0),
       'szxy': (2, 0, 0, 0), 'szxz': (2, 0, 1, 0), 'szyx': (2, 1, 0, 0), 'szyz': (2, 1, 1, 0), 'rzyx': (0, 0, 0, 1), 'rxyx': (0, 0, 1, 1), 'ryzx': (0, 1, 0, 1), 'rxzx': (0, 1, 1, 1),
       'rxzy': (1, 0, 0, 1), 'ryzy': (1, 0, 1, 1), 'rzxy': (1, 1, 0, 1), 'ryxy': (1, 1, 1, 1), 'ryxz': (2, 0, 0, 1), 'rzxz': (2, 0, 1, 1), 'rxyz': (2, 1, 0, 1), 'rzyz': (2, 1, 1, 1)}


def product(conv, angs):
    R = ROT[conv[0]](angs[0])
    for l, a in zip(conv[1:], angs[1:]):
        R = mmul(R, ROT[l](a))
    return R


def seq_matrix(s, angs):
    ax = s[1:].upper()
    if s[0] == 'r':
        return product(ax, angs)
    return product(ax[::-1], angs[::-1])


def e2m(x, conv, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'euler_angles_to_matrix'), S.t('ang', lead + (3,)), conv), 'euler_angles_to_matrix')
    x.eq('euler_angles_to_matrix ' + conv, o, dims(S, lead) + (3, 3), lambda i: entry(product(conv, at_('ang', i[:-2], 3)))(i))


def m2e(x, conv, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'matrix_to_euler_angles'), S.t('rot!R', lead + (3, 3)), conv), 'matrix_to_euler_angles')
    if not shape_ok(x, o, lead + (3,), 'matrix_to_euler_angles'):
        return
    r = tensor_el(x, o)
    ix = rows(lead)
    P = product(conv, [r(ix + (num(k),)) for k in range(3)])
    R = amat('rot!R', ix)
    x.terms('matrix_to_euler_angles ' + conv, [(P[i][j], R[i][j]) for i in range(3) for j in range(3)], n=8)


def qfe(x, seq, axes, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_from_euler'), S.t('rpy', lead + (3,)), *([] if axes is None else [axes])), 'quaternion_from_euler')
    if not shape_ok(x, o, lead + (4,), 'quaternion_from_euler'):
        return
    r = tensor_el(x, o)
    ix = rows(lead)
    q = [r(ix + (num(k),)) for k in range(4)]
    Q = quat_mat(q)
    R = seq_matrix(seq, at_('rpy', ix, 3))
    x.terms('quaternion_from_euler ' + seq, [(Q[i][j], R[i][j]) for i in range(3) for j in range(3)], n=4)
    x.terms('quaternion_from_euler unit length', [(dot(q, q), T.ONE)], n=3)


def refuse(x, fn, shape, *a):
    S = x.S
    x.refused(S.call(tf(S, fn), S.t('m', shape), *a), '%s%s' % (fn, (shape,) + a))


def scenarios(tier):
    o = []
    leads = [('B',), ('B', 'C'), ()]
    for c in CONV:
        for L in leads:
            o.append(('euler_angles_to_matrix.%s.%d' % (c, len(L)), e2m, (c, L), RC + ':euler_angles_to_matrix'))
        for L in leads if tier == 'thorough' or c in ('XYZ', 'ZXZ') else leads[:1]:
            o.append(('matrix_to_euler_angles.%s.%d' % (c, len(L)), m2e, (c, L), RC + ':matrix_to_euler_angles'))
    for s in SEQ:
        o.append(('quaternion_from_euler.' + s, qfe, (s, s, ('B',)), RC + ':quaternion_from_euler'))
        o.append(('quaternion_from_euler.tuple.' + s, qfe, (s, TUP[s], ('B',) if s in ('sxyz', 'rzxz') else ()), RC + ':quaternion_from_euler'))
    o.append(('quaternion_from_euler.default', qfe, ('sxyz', None, ('B', 'C')), RC + ':quaternion_from_euler'))
    o.append(('quaternion_from_euler.upper', qfe, ('rzyx', 'RZYX', ('B',)), RC + ':quaternion_from_euler'))
    for bad in ('XXY', 'XYY', 'XYA', 'XY', 'XYZX', 'xyz', '', 'AXY', 'XAY', 'YYZ', 'ZXX'):
        o.append(('refuse.euler_angles_to_matrix.%s' % bad, refuse, ('euler_angles_to_matrix', ('B', 3), bad), RC + ':euler_angles_to_matrix'))
        o.append(('refuse.matrix_to_euler_angles.%s' % bad, refuse, ('matrix_to_euler_angles', ('B', 3, 3), bad), RC + ':matrix_to_euler_angles'))
    for shp in ((), (4,), ('B', 4), ('B', 2)):
        o.append(('refuse.euler_angles_to_matrix.%s' % (shp,), refuse, ('euler_angles_to_matrix', shp, 'XYZ'), RC + ':euler_angles_to_matrix'))
    for shp in (('B', 4, 4), ('B', 3, 4), ('B', 4, 3), (2, 2)):
        o.append(('refuse.matrix_to_euler_angles.%s' % (shp,), refuse, ('matrix_to_euler_angles', shp, 'XYZ'), RC + ':matrix_to_euler_angles'))
    for bad in ('sabc', 'xyz', 'sxxy', ''):
        o.append(('refuse.quaternion_from_euler.%s' % bad, refuse, ('quaternion_from_euler', ('B', 3), bad), RC + ':quaternion_from_euler'))
    return o
