"""sample_perturbations is evaluated for a symbolic pose, spreads, axis and number of samples, the random draws being free atoms; the resulting
poses are compared with the pose they perturb for several interpretations that differ only in the spreads."""
from .lib import *
from .c15 import rigid
import numpy as np

FLOOR = 20
A = 'transforms/perturbation.py:sample_perturbations'


def mats(x, o, n, what, prov, seed=0):
    """numeric value of the generic row(s) under one interpretation"""
    r = tensor_el(x, o)
    if n == 'N':
        rw = rows(('N',))[0]
        idx = [rw]
    else:
        idx = [num(i) for i in range(n)]
    e = envs(x.I, 1, prov, seed)[0]
    return [np.array([[float(e.ev(r((i, num(a), num(b))))) for b in range(4)] for a in range(4)]) for i in idx], e


def near(a, b, tol=1e-8):
    return np.allclose(a, b, atol=tol, rtol=0)


def perturb(x, n, axis, perp, batch, method=False):
    S, I = x.S, x.I
    kw = {}
    if axis == 'shared':
        kw['axis_of_rotation'] = S.t('uv!u', (3,), F64)
    elif axis == 'own':
        kw['axis_of_rotation'] = S.t('uv!u', (n, 3), F64)
    if perp is not None:
        kw['translation_perpendicular_to_axis_of_rotation'] = perp
    lead = () if batch is None else (batch,)
    m = rigid(S, lead)
    m = S.I.tl.FUNCS and m
    H = S.t('rigid!H', lead + (4, 4), F64)
    if method:
        t = x.val(S.call(tf(S, 'Transform3d'), matrix=H), 'Transform3d')
        p = x.val(S.m(t, 'sample_perturbations', n if isinstance(n, int) else Num(S.dim(n), 'i'), S.f('sr'), S.f('st')), 'Transform3d.sample_perturbations')
        o = x.val(S.m(p, 'get_matrix'), 'get_matrix')
    else:
        o = x.val(S.call(tf(S, 'sample_perturbations'), H, n if isinstance(n, int) else Num(S.dim(n), 'i'), S.f('sr'), S.f('st'), **kw), 'sample_perturbations')
    if not shape_ok(x, o, (n, 4, 4), 'sample_perturbations'):
        return
    x.holds(o.dtype is F64, 'dtype', 'dtype %s for a float64 pose' % o.dtype.name)
    for seed in range(3 if x.tier == 'quick' else 8):
        def run(sr, st):
            ms, e = mats(x, o, n, 'perturbed', {'sr': p_const(sr), 'st': p_const(st)}, seed)
            P = []
            for k in range(len(ms)):
                b = () if batch is None else ((num(0),) if batch == 1 else (num(k) if n != 'N' else rows(('N',))[0],))
                P.append(np.array([[float(e.ev(T.atom('rigid!H', *(b + (num(i), num(j)))))) for j in range(4)] for i in range(4)]))
            U = None
            if axis:
                U = [np.array([float(e.ev(T.atom('uv!u', *(((num(k) if n != 'N' else rows(('N',))[0]),) * (axis == 'own') + (num(i),))))) for i in range(3)]) for k in range(len(ms))]
            return ms, P, U
        z, P, U = run(0.0, 0.0)
        x.holds(all(near(a, b) for a, b in zip(z, P)), 'zero spreads return the pose', 'differs from the given pose')
        a, _, _ = run(0.3, 0.2)
        b, _, _ = run(0.6, 0.2)
        c, _, _ = run(0.3, 0.4)
        for k in range(len(a)):
            D, D2 = a[k][:3, :3] @ P[k][:3, :3].T, b[k][:3, :3] @ P[k][:3, :3].T
            x.holds(near(D @ D.T, np.eye(3)) and abs(np.linalg.det(D) - 1) < 1e-8, 'the perturbation is a rotation', 'not a rotation')
            x.holds(near(a[k][3], [0, 0, 0, 1]), 'last row', 'last row %s' % a[k][3])
            x.holds(near(D @ D, D2), 'angle scaled by the angle spread', 'twice the spread does not give twice the angle about the same axis')
            x.holds(not near(D, np.eye(3)), 'the rotation is perturbed', 'no rotation')
            dt, dt2 = a[k][:3, 3] - P[k][:3, 3], c[k][:3, 3] - P[k][:3, 3]
            x.holds(near(2 * dt, dt2) and near(b[k][:3, 3], a[k][:3, 3]), 'displacement scaled by the translation spread only', 'displacement %s, with twice the translation spread %s' % (dt, dt2))
            x.holds(near(c[k][:3, :3], a[k][:3, :3]), 'rotation independent of the translation spread', '')
            x.holds(not near(dt, 0), 'the translation is perturbed', 'no displacement')
            if axis:
                x.holds(near(D @ U[k], U[k]), 'rotation about the given axis', 'the axis is not kept')
                d = abs(float(dt @ U[k]))
                if perp in (None, True):
                    x.holds(d < 1e-9, 'displacement perpendicular to the axis', 'component %g along the axis' % d)
                else:
                    x.holds(d > 1e-9, 'displacement not restricted', 'no component along the axis')
        for k in range(1, len(a)):
            if batch in (None, 1):
                x.holds(not near(a[k][:3, 3], a[0][:3, 3]) and not near(a[k][:3, :3], a[0][:3, :3]), 'samples are drawn independently', 'two samples are equal')


def draws(x):
    """without a given axis the displacement is the draw times the spread: with all normal draws equal to one it is the spread"""
    S = x.S
    H = S.t('rigid!H', (4, 4), F64)
    o = x.val(S.call(tf(S, 'sample_perturbations'), H, 2, S.f('sr'), S.f('st')), 'sample_perturbations')
    ms, e = mats(x, o, 2, 'p', {'sr': p_const(0.5), 'st': p_const(0.25), 'randn!*': p_const(1.0)})
    t = np.array([float(e.ev(T.atom('rigid!H', num(i), num(3)))) for i in range(3)])
    R = np.array([[float(e.ev(T.atom('rigid!H', num(i), num(j)))) for j in range(3)] for i in range(3)])
    for m in ms:
        x.holds(near(np.abs(m[:3, 3] - t), 0.25), 'unit draws displace by the spread', 'displacement %s for spread 0.25' % (m[:3, 3] - t))
        D = m[:3, :3] @ R.T
        ang = math.acos(max(-1, min(1, (np.trace(D) - 1) / 2)))
        x.holds(abs(ang - 0.5) < 1e-7, 'unit draw turns by the spread', 'angle %g for spread 0.5' % ang)


def scenarios(tier):
    o = []
    for n in ('N', 2):
        for ax, perp in ((None, None), ('shared', None), ('shared', True), ('shared', False), ('own', None), ('own', False)):
            o.append(('perturb.%s.%s.%s' % (n, ax, perp), perturb, (n, ax, perp, None), A))
        o.append(('perturb.batch1.%s' % n, perturb, (n, None, None, 1), A))
        o.append(('perturb.batched.%s' % n, perturb, (n, None, None, n), A))
        for b in (None, 1, n):
            o.append(('perturb.method.%s.%s' % (n, b), perturb, (n, None, None, b, True), 'transforms/transform3d.py:Transform3d.sample_perturbations'))
    o.append(('draws', draws, (), A))
    return o
