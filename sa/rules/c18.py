"""Hat, exponential, logarithm and relative angle are evaluated for symbolic batches and compared with their defining formulas; the refusal conditions
are the raise conditions collected on the way, evaluated for inputs inside and outside the accepted set."""
from .lib import *

FLOOR = 25
A = 'transforms/so3.py:'


def skew(v):
    x, y, z = v
    return [[T.ZERO, T.neg(z), y], [z, T.ZERO, T.neg(x)], [T.neg(y), x, T.ZERO]]


def hat(x, n):
    S = x.S
    o = x.val(S.call(tf(S, 'hat', 'so3'), S.t('v', (n, 3))), 'hat')
    x.eq('hat', o, (S.dim(n), 3, 3), lambda i: entry(skew(at_('v', i[:1], 3)))(i), prove=True)
    r = x.val(S.call(tf(S, 'hat_inv', 'so3'), o), 'hat_inv')
    x.eq('hat_inv of hat', r, (S.dim(n), 3), lambda i: T.atom('v', *i), prove=True)


def p_skew(e, name, idx):
    b, i, j = idx[:-2], idx[-2], idx[-1]
    if i == j:
        return 0.0
    s = e.h(name, b, min(i, j), max(i, j)) * 2 - 1
    return s if i < j else -s


def p_notskew(e, name, idx):
    return p_skew(e, name, idx) + (0.01 if idx == (1, 0, 2) else 0)


def hat_inv_refuse(x):
    S, I = x.S, x.I
    f = tf(S, 'hat_inv', 'so3')
    o = S.call(f, S.t('h', (2, 3, 3)))
    x.raise_cond(o, 'hat_inv of a non-skew matrix', envs(I, 3, {'h': p_notskew}), True)
    x.raise_cond(o, 'hat_inv of a skew matrix', envs(I, 3, {'h': p_skew}), False)


def refuse(x, name, shapes):
    S = x.S
    x.refused(S.call(tf(S, name, 'so3'), *[S.t('x%d' % k, s) for k, s in enumerate(shapes)]), '%s%s' % (name, shapes))


def vth(ix):
    v = at_('v', ix, 3)
    return v, sqrt(dot(v, v))


def exp(x, n, scale, tol=1e-7):
    S = x.S
    o = x.val(S.call(tf(S, 'so3_exp_map'), S.t('v', (n, 3))), 'so3_exp_map')

    def spec(i):
        v, th = vth(i[:1])
        return entry(rodrigues([T.div(a, th) for a in v], th))(i)
    x.eq('so3_exp_map', o, (S.dim(n), 3, 3), spec, {'v': lambda e, n_, i: (0.1 + 0.9 * e.h(n_, i)) * scale * (1 if e.h(n_, i, 's') > .5 else -1)}, n=5, tol=tol)


def exp0(x):
    S = x.S
    o = x.val(S.call(tf(S, 'so3_exp_map'), S.t('v', ('B', 3))), 'so3_exp_map')
    x.eq('so3_exp_map of zero', o, (S.dim('B'), 3, 3), lambda i: num(int(i[1].args[0] == i[2].args[0])), {'v': p_const(0.0)})


def p_rotang(lo, hi):
    def p(e, name, idx):
        k = ('ra', name) + tuple(idx[:-2])
        m = e.memo.get(k)
        if m is None:
            u = [_g(e, k, i) for i in range(3)]
            n = math.sqrt(sum(a * a for a in u))
            a = (lo + (hi - lo) * e.h(k, 'ang')) / 2
            m = qmat_num([math.cos(a)] + [math.sin(a) * c / n for c in u])
            e.memo[k] = m
        return m[idx[-2]][idx[-1]]
    return p


def _g(e, k, i):
    return e.h(k, i) * 2 - 1 + 1e-3


def log(x, n, lo, hi, tol):
    S, I = x.S, x.I
    out = S.call(tf(S, 'so3_log_map'), S.t('R', (n, 3, 3)))
    o = x.val(out, 'so3_log_map')
    if not shape_ok(x, o, (n, 3), 'so3_log_map'):
        return
    r = tensor_el(x, o)
    ix = rows((n,))
    v = [r(ix + (num(k),)) for k in range(3)]
    th = sqrt(dot(v, v))
    M = rodrigues([T.div(a, th) for a in v], th)
    R = amat('R', ix)
    x.terms('exponential of the logarithm', [(M[i][j], R[i][j]) for i in range(3) for j in range(3)], {'R': p_rotang(lo, hi)}, n=6, tol=tol)
    x.terms('length of the logarithm', [(T.ite(T.lt(th, num('31416/10000')), T.ONE, T.ZERO), T.ONE)], {'R': p_rotang(lo, hi)}, n=6)


def log0(x):
    S = x.S
    o = x.val(S.call(tf(S, 'so3_log_map'), S.t('R', ('B', 3, 3))), 'so3_log_map')
    x.eq('so3_log_map of the identity', o, (S.dim('B'), 3), lambda i: T.ZERO, {'R': lambda e, n_, i: float(i[-1] == i[-2])})


def trace_refuse(x, name):
    """a trace outside [-1, 3] is refused, one of a rotation is not"""
    S, I = x.S, x.I
    if name == 'so3_relative_angle':
        o = S.call(tf(S, name), S.t('rot!R', (2, 3, 3)), S.t('R', (2, 3, 3)))
    else:
        o = S.call(tf(S, name), S.t('R', (2, 3, 3)))
    big = lambda e, n_, i: 1.2 if i[-1] == i[-2] and i[0] == 1 else float(i[-1] == i[-2])
    small = lambda e, n_, i: -0.5 if i[-1] == i[-2] and i[0] == 1 else float(i[-1] == i[-2])
    if name != 'so3_relative_angle':
        x.raise_cond(o, 'trace too large', envs(I, 2, {'R': big}), True)
        x.raise_cond(o, 'trace too small', envs(I, 2, {'R': small}), True)
        x.raise_cond(o, 'a half turn', envs(I, 2, {'R': fixq((0, 0, 1, 0))}), False)
        x.raise_cond(o, 'the identity', envs(I, 2, {'R': fixq((1, 0, 0, 0))}), False)
    else:
        x.raise_cond(o, 'not a rotation', envs(I, 2, {'R': lambda e, n_, i: 5 * e.p_rot('rot!R', i) if i[0] == 1 else e.p_rot('rot!R', i)}) if False else envs(I, 2, {'R': big5, 'rot!R': fixq((1, 0, 0, 0))}), True)
    x.raise_cond(o, 'a rotation', envs(I, 4, {'R': p_rot}), False)


def big5(e, n_, i):
    return 1.5 if i[-1] == i[-2] else 0.0


def angle(x, n, cosv):
    """relative angle = angle of R1 R2^T"""
    S = x.S
    kw = {'cos_angle': True} if cosv else {}
    o = x.val(S.call(tf(S, 'so3_relative_angle'), S.t('rot!A', (n, 3, 3)), S.t('rot!B', (n, 3, 3)), **kw), 'so3_relative_angle')

    def c(ix):
        P = mmul(amat('rot!A', ix), tr(amat('rot!B', ix)))
        return T.mul(num('1/2'), T.sub(T.add(P[0][0], P[1][1], P[2][2]), T.ONE))
    x.eq('so3_relative_angle', o, (S.dim(n),), lambda i: c(i) if cosv else T.fn('acos', c(i)), n=6)
    p = x.val(S.call(tf(S, 'so3_rotation_angle'), S.t('rot!A', (n, 3, 3)), **kw), 'so3_rotation_angle')

    def ct(ix):
        P = amat('rot!A', ix)
        return T.mul(num('1/2'), T.sub(T.add(P[0][0], P[1][1], P[2][2]), T.ONE))
    x.eq('so3_rotation_angle', p, (S.dim(n),), lambda i: ct(i) if cosv else T.fn('acos', ct(i)), n=6)


def scenarios(tier):
    o = []
    for n in ('B', 1, 2):
        o.append(('hat.%s' % n, hat, (n,), A + 'hat'))
        o.append(('so3_exp_map.%s' % n, exp, (n, 1.7), A + 'so3_exp_map'))
        o.append(('so3_log_map.%s' % n, log, (n, 0.2, 3.0, 1e-6), A + 'so3_log_map'))
        for c in (False, True):
            o.append(('so3_relative_angle.%s.%s' % (n, c), angle, (n, c), A + 'so3_relative_angle'))
    for s in (9.0, 4.0, 1e-1, 1e-2, 1e-3, 1e-5):
        o.append(('so3_exp_map.scale%g' % s, exp, ('B', s, 5e-7), A + 'so3_exp_map'))
        if s < 1:
            o.append(('so3_log_map.scale%g' % s, log, ('B', s / 2, s, 1e-5), A + 'so3_log_map'))
    o.append(('so3_exp_map.zero', exp0, (), A + 'so3_exp_map'))
    o.append(('so3_log_map.identity', log0, (), A + 'so3_log_map'))
    o.append(('hat_inv.refuse', hat_inv_refuse, (), A + 'hat_inv'))
    for nm in ('so3_log_map', 'so3_rotation_angle', 'so3_relative_angle'):
        o.append(('trace.%s' % nm, trace_refuse, (nm,), A + nm))
    for nm, sh in (('hat', (('B', 4),)), ('hat', (('B', 2),)), ('hat_inv', (('B', 4, 4),)), ('hat_inv', (('B', 3, 2),)), ('hat_inv', (('B', 2, 3),)), ('so3_exp_map', (('B', 4),)), ('so3_exp_map', (('B', 2),)), ('so3_log_map', (('B', 4, 4),)), ('so3_log_map', (('B', 3, 4),)), ('so3_log_map', (('B', 4, 3),)),
                   ('so3_rotation_angle', (('B', 4, 4),)), ('so3_rotation_angle', (('B', 3, 4),)), ('so3_rotation_angle', (('B', 2, 3),)), ('so3_relative_angle', (('B', 4, 4), ('B', 4, 4)))):
        o.append(('refuse.%s.%s' % (nm, sh), refuse, (nm, sh), A + nm))
    return o
