"""Quaternion products, inverse, action and reordering are evaluated for symbolic quaternions of generic (also broadcast) shapes and compared with the
Hamilton product and its consequences."""
from .lib import *

FLOOR = 25
Q = RC + ':'
SHAPES = [((), ()), (('B',), ('B',)), (('B', 'C'), ('B', 'C')), (('B',), ()), ((), ('B',)), (('B', 'C'), ('C',)), (('B', 1), ('C',))]


def bc(la, lb):
    n = max(len(la), len(lb))
    A = (1,) * (n - len(la)) + la
    B = (1,) * (n - len(lb)) + lb
    return tuple(b if a == 1 else a for a, b in zip(A, B))


def sub(lead, full):
    """indices into an operand with leading dims `lead` for the broadcast index `full`"""
    f = full[len(full) - len(lead):] if lead else ()
    return tuple(num(0) if d == 1 else i for d, i in zip(lead, f))


def raw(x, la, lb):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_raw_multiply'), S.t('a', la + (4,)), S.t('b', lb + (4,))), 'quaternion_raw_multiply')
    x.eq('quaternion_raw_multiply', o, dims(S, bc(la, lb)) + (4,), lambda i: qmul(at_('a', sub(la, i[:-1]), 4), at_('b', sub(lb, i[:-1]), 4))[int(i[-1].args[0])], prove=True)


def std(x, la, lb):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_multiply'), S.t('a', la + (4,)), S.t('b', lb + (4,))), 'quaternion_multiply')

    def spec(i):
        p = qmul(at_('a', sub(la, i[:-1]), 4), at_('b', sub(lb, i[:-1]), 4))
        e = p[int(i[-1].args[0])]
        return T.ite(T.lt(p[0], T.ZERO), T.neg(e), e)
    x.eq('quaternion_multiply', o, dims(S, bc(la, lb)) + (4,), spec, n=10)


def standardize(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'standardize_quaternion'), S.t('a', lead + (4,))), 'standardize_quaternion')
    x.eq('standardize_quaternion', o, dims(S, lead) + (4,), lambda i: T.ite(T.lt(T.atom('a', *(i[:-1] + (num(0),))), T.ZERO), T.neg(T.atom('a', *i)), T.atom('a', *i)), n=10)


def inv(x, lead):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_invert'), S.t('a', lead + (4,))), 'quaternion_invert')
    x.eq('quaternion_invert', o, dims(S, lead) + (4,), lambda i: T.atom('a', *i) if i[-1].args[0] == 0 else T.neg(T.atom('a', *i)), {'a': p_unitquat}, prove=True)


def app(x, la, lb):
    S = x.S
    o = x.val(S.call(tf(S, 'quaternion_apply'), S.t('uq!a', la + (4,)), S.t('p', lb + (3,))), 'quaternion_apply')
    x.eq('quaternion_apply', o, dims(S, bc(la, lb)) + (3,), lambda i: mvec(quat_mat(at_('uq!a', sub(la, i[:-1]), 4)), at_('p', sub(lb, i[:-1]), 3))[int(i[-1].args[0])])


def app_bad(x, shp):
    S = x.S
    x.refused(S.call(tf(S, 'quaternion_apply'), S.t('a', ('B', 4)), S.t('p', shp)), 'quaternion_apply to points of shape %s' % (shp,))


def order(x, lead):
    S = x.S
    a, b = tf(S, 'wxyz_to_xyzw'), tf(S, 'xyzw_to_wxyz')
    q = S.t('q', lead + (4,))
    u = x.val(S.call(a, q), 'wxyz_to_xyzw')
    v = x.val(S.call(b, q), 'xyzw_to_wxyz')
    sh = dims(S, lead) + (4,)
    x.eq('wxyz_to_xyzw', u, sh, lambda i: T.atom('q', *(i[:-1] + (num((int(i[-1].args[0]) + 1) % 4),))), prove=True)
    x.eq('xyzw_to_wxyz', v, sh, lambda i: T.atom('q', *(i[:-1] + (num((int(i[-1].args[0]) + 3) % 4),))), prove=True)
    x.eq('round trip', x.val(S.call(b, u), 'xyzw_to_wxyz'), sh, lambda i: T.atom('q', *i), prove=True)
    x.eq('round trip 2', x.val(S.call(a, v), 'wxyz_to_xyzw'), sh, lambda i: T.atom('q', *i), prove=True)


def scenarios(tier):
    o = []
    for k, (la, lb) in enumerate(SHAPES):
        o.append(('quaternion_raw_multiply.%d' % k, raw, (la, lb), Q + 'quaternion_raw_multiply'))
        o.append(('quaternion_multiply.%d' % k, std, (la, lb), Q + 'quaternion_multiply'))
        o.append(('quaternion_apply.%d' % k, app, (la, lb), Q + 'quaternion_apply'))
    for L in LEADS:
        o.append(('standardize.%d' % len(L), standardize, (L,), Q + 'standardize_quaternion'))
        o.append(('invert.%d' % len(L), inv, (L,), Q + 'quaternion_invert'))
        o.append(('order.%d' % len(L), order, (L,), Q + 'wxyz_to_xyzw'))
    for s in (('B', 4), ('B', 2), (2,)):
        o.append(('apply.refuse.%s' % (s,), app_bad, (s,), Q + 'quaternion_apply'))
    return o
