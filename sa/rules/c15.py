"""Encoders and decoders of the six- and nine-number and position+quaternion forms are evaluated for symbolic inputs of generic batch shapes and
compared with the defining construction; encode/decode compositions are compared with the identity."""
from .lib import *

FLOOR = 15


def d6(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'rotation_6d_to_matrix'), S.t('d', lead + (6,))), 'rotation_6d_to_matrix')

    def M(ix):
        a = at_('d', ix, 6)
        b1 = normd(a[:3])
        k = dot(b1, a[3:])
        b2 = normd([T.sub(p, T.mul(k, q)) for p, q in zip(a[3:], b1)])
        return [b1, b2, cross(b1, b2)]
    x.eq('rotation_6d_to_matrix', o, dims(S, lead) + (3, 3), lambda i: entry(M(i[:-2]))(i), n=6)


def enc6(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'matrix_to_rotation_6d'), S.t('rot!R', lead + (3, 3))), 'matrix_to_rotation_6d')
    x.eq('matrix_to_rotation_6d', o, dims(S, lead) + (6,), lambda i: T.atom('rot!R', *(i[:-1] + (num(int(i[-1].args[0]) // 3), num(int(i[-1].args[0]) % 3)))), prove=True)
    d = x.val(S.call(tf(S, 'rotation_6d_to_matrix'), o), 'rotation_6d_to_matrix')
    x.eq('decode of encode', d, dims(S, lead) + (3, 3), lambda i: T.atom('rot!R', *i))


def rigid(S, lead, name='rigid!H'):
    def fn(idx):
        i, j = idx[-2], idx[-1]
        if i.op == 'num' and i.args[0] == 3:
            return num(int(j.args[0] == 3)) if j.op == 'num' else T.ite(T.eq(j, num(3)), T.ONE, T.ZERO)
        return T.atom(name, *idx)
    return S.I.tensor(dims(S, lead) + (4, 4), fn, F32, CPU)


def H(ix):
    return [[T.atom('rigid!H', *(ix + (num(i), num(j)))) for j in range(4)] for i in range(3)] + [[T.ZERO, T.ZERO, T.ZERO, T.ONE]]


def se3(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'matrix44_to_se3_9d'), rigid(S, lead)), 'matrix44_to_se3_9d')

    def spec(i):
        k = int(i[-1].args[0])
        return H(i[:-1])[k // 3][k % 3] if k < 6 else H(i[:-1])[k - 6][3]
    x.eq('matrix44_to_se3_9d', o, dims(S, lead) + (9,), spec, prove=True)
    d = x.val(S.call(tf(S, 'se3_9d_to_matrix44'), o), 'se3_9d_to_matrix44')
    x.eq('decode of encode', d, dims(S, lead) + (4, 4), lambda i: entry(H(i[:-2]))(i))


def de9(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'se3_9d_to_matrix44'), S.t('d', lead + (9,))), 'se3_9d_to_matrix44')

    def M(ix):
        a = at_('d', ix, 9)
        b1 = normd(a[:3])
        k = dot(b1, a[3:6])
        b2 = normd([T.sub(p, T.mul(k, q)) for p, q in zip(a[3:6], b1)])
        return hom([b1, b2, cross(b1, b2)], a[6:])
    x.eq('se3_9d_to_matrix44', o, dims(S, lead) + (4, 4), lambda i: entry(M(i[:-2]))(i), n=5)


def posrot(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'matrix_to_pos_rot'), rigid(S, lead)), 'matrix_to_pos_rot')
    v = S.I.concrete_list(o)
    if v is None or len(v) != 2:
        raise Undecided('matrix_to_pos_rot result')
    x.eq('matrix_to_pos_rot position', v[0], dims(S, lead) + (3,), lambda i: H(i[:-1])[int(i[-1].args[0])][3], prove=True)
    if shape_ok(x, v[1], lead + (4,), 'matrix_to_pos_rot'):
        r = tensor_el(x, v[1])
        ix = rows(lead)
        q = [r(ix + (num((k + 3) % 4),)) for k in range(4)]
        M = quat_mat(q)
        x.terms('matrix_to_pos_rot real-last quaternion', [(M[i][j], H(ix)[i][j]) for i in range(3) for j in range(3)], n=8)
    d = x.val(S.call(tf(S, 'pos_rot_to_matrix'), v[0], v[1]), 'pos_rot_to_matrix')
    x.eq('decode of encode', d, dims(S, lead) + (4, 4), lambda i: entry(H(i[:-2]))(i), n=6)


def prm(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'pos_rot_to_matrix'), S.t('p', lead + (3,)), S.t('q', lead + (4,))), 'pos_rot_to_matrix')

    def M(ix):
        q = at_('q', ix, 4)
        return hom(quat_mat([q[3], q[0], q[1], q[2]]), at_('p', ix, 3))
    x.eq('pos_rot_to_matrix', o, dims(S, lead) + (4, 4), lambda i: entry(M(i[:-2]))(i))


def scenarios(tier):
    o = []
    for L in LEADS:
        n = len(L)
        o.append(('rotation_6d_to_matrix.%d' % n, d6, (L,), RC + ':rotation_6d_to_matrix'))
        o.append(('matrix_to_rotation_6d.%d' % n, enc6, (L,), RC + ':matrix_to_rotation_6d'))
        o.append(('se3_9d.%d' % n, se3, (L,), RC + ':matrix44_to_se3_9d'))
        o.append(('se3_9d_to_matrix44.%d' % n, de9, (L,), RC + ':se3_9d_to_matrix44'))
        o.append(('pos_rot.%d' % n, posrot, (L,), RC + ':matrix_to_pos_rot'))
        o.append(('pos_rot_to_matrix.%d' % n, prm, (L,), RC + ':pos_rot_to_matrix'))
    return o
