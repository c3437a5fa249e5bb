"""Joints with symbolic axes (list, tensor, default) and frames with symbolic offsets and joint values are evaluated; stored axes are compared with
the normalised direction, single-frame transforms with offset times motion, and the two motion kernels with the rotation / translation formulas."""
from .lib import *

FLOOR = 60
J = FR + ':Joint'
AT = 'frame.py:Joint.__init__'
GT = 'frame.py:Frame.get_transform'


def axis(x, form, jt, dtype):
    S = x.S
    if form == 'tensor':
        kw, a = dict(axis=S.t('ax', (3,), dtype)), [T.atom('ax', k) for k in range(3)]
    elif form == 'f64tensor':
        kw, a = dict(axis=S.t('ax', (3,), F64)), [T.atom('ax', k) for k in range(3)]
    elif form == 'list':
        kw, a = dict(axis=S.lst([S.f('a0'), S.f('a1'), S.f('a2')])), [T.atom('a%d' % k) for k in range(3)]
    elif form == 'tuple':
        kw, a = dict(axis=(S.f('a0'), S.f('a1'), S.f('a2'))), [T.atom('a%d' % k) for k in range(3)]
    elif form == 'none':
        kw, a = dict(axis=None), [T.ZERO, T.ZERO, T.ONE]
    else:
        kw, a = {}, [T.ZERO, T.ZERO, T.ONE]
    j = x.val(S.call(J, 'j', joint_type=jt, dtype=dtype, **kw), 'Joint')
    ax = S.attr(j, 'axis')
    w = normd(a)
    x.eq('axis', ax, (3,), lambda i: w[int(i[0].args[0])])
    t = x.I.resolve(ax)
    if isinstance(t, Tensor):
        x.holds(t.dtype == dtype, 'axis dtype', 'axis has dtype %s, requested %s' % (t.dtype, dtype))
    if form in ('tensor', 'f64tensor'):
        x.eq('given axis afterwards', kw['axis'], (3,), lambda i: T.atom('ax', *i))


def badtype(x, jt):
    x.refused(x.S.call(J, 'j', joint_type=jt), 'joint type %r' % jt)


def frame(x, jt, off, n, dtype):
    S = x.S
    kw = dict(dtype=dtype)
    jo = None
    if off:
        Tr = S.get(TF + ':Transform3d')
        m = S.I.tensor((1, 4, 4), lambda i: num(int(i[2].args[0] == 3)) if i[1].args[0] == 3 else T.atom('rigid!o', i[1], i[2]), dtype, CPU)
        jo = x.val(S.call(Tr, matrix=m, dtype=dtype), 'Transform3d')
    j = x.val(S.call(J, 'j', offset=jo, joint_type=jt, axis=S.t('ax', (3,), dtype), **kw), 'Joint')
    f = x.val(S.call(FR + ':Frame', 'f', joint=j), 'Frame')
    o = x.val(S.m(f, 'get_transform', S.t('th', (n,), dtype)), 'get_transform')
    M = x.val(S.m(o, 'get_matrix'), 'get_matrix')
    a = normd([T.atom('ax', k) for k in range(3)])
    O = [[T.atom('rigid!o', i, j_) for j_ in range(4)] for i in range(3)] + [[T.ZERO, T.ZERO, T.ZERO, T.ONE]] if off else eye(4)

    def spec(idx):
        q = T.atom('th', idx[0])
        if jt == 'revolute':
            L = hom(rodrigues(a, q), [T.ZERO] * 3)
        elif jt == 'prismatic':
            L = hom(eye(3), [T.mul(q, c) for c in a])
        else:
            L = eye(4)
        return mmul(O, L)[int(idx[1].args[0])][int(idx[2].args[0])]
    x.eq('transform', M, (S.dim(n), 4, 4), spec, n=3, at=GT)
    t = x.I.resolve(M)
    if isinstance(t, Tensor):
        x.holds(t.dtype == dtype, 'transform dtype', 'transform has dtype %s' % (t.dtype,), GT)


def kernel(x, fn, lead, alead, dtype=F32):
    S = x.S
    f = tf(S, fn)
    n = 3 if fn.endswith('33') else 4
    o = x.val(S.call(f, S.t('uv!a', alead + (3,), dtype), S.t('th', lead, dtype)), fn)

    def spec(idx):
        b = idx[:-2]
        a = at_('uv!a', b[len(b) - len(alead):] if alead else (), 3)
        q = T.atom('th', *b)
        if 'pris' in fn:
            L = hom(eye(3), [T.mul(q, c) for c in a])
        else:
            L = hom(rodrigues(a, q), [T.ZERO] * 3)
        return L[int(idx[-2].args[0])][int(idx[-1].args[0])]
    x.eq(fn, o, dims(S, lead) + (n, n), spec, n=3, at=RC + ':' + fn)


def scenarios(tier):
    o = []
    for jt in ('revolute', 'prismatic', 'fixed'):
        for form in ('tensor', 'f64tensor', 'list', 'tuple', 'none', 'default'):
            for d in (F32, F64):
                o.append(('axis.%s.%s.%s' % (jt, form, d), axis, (form, jt, d), AT))
    for jt in ('continuous', 'hinge', 'ball', ''):
        o.append(('type.%s' % jt, badtype, (jt,), AT))
    for jt in ('revolute', 'prismatic', 'fixed'):
        for off in (0, 1):
            for n in ('B', 1, 3):
                for d in (F32, F64):
                    o.append(('frame.%s.%d.%s.%s' % (jt, off, n, d), frame, (jt, off, n, d), GT))
    for fn in ('axis_and_angle_to_matrix_33', 'axis_and_angle_to_matrix_44', 'axis_and_d_to_pris_matrix'):
        for L in LEADS + [(2,), (1, 3)]:
            o.append(('kernel.%s.%s' % (fn, L), kernel, (fn, L, L), RC + ':' + fn))
    return o
