"""Composition, inversion, application, stacking, indexing and cloning of transforms are evaluated through the public methods for symbolic matrices
and batch sizes and compared with the matrix algebra they stand for."""
from .lib import *

FLOOR = 40
TD = 'transforms/transform3d.py:Transform3d'


def mk(x, name, n, dtype=F32):
    """Transform3d with n generic rigid matrices named name"""
    S = x.S
    lead = () if n is None else (n,)

    def fn(idx):
        i, j = idx[-2], idx[-1]
        if i.op == 'num' and i.args[0] == 3:
            return num(int(j.args[0] == 3)) if j.op == 'num' else T.ite(T.eq(j, num(3)), T.ONE, T.ZERO)
        return T.atom(name, *idx)
    m = S.I.tensor(dims(S, lead) + (4, 4), fn, dtype, CPU)
    return x.val(S.call(tf(S, 'Transform3d'), matrix=m, dtype=dtype), 'Transform3d(matrix=)')


def MM(name, b=None):
    p = () if b is None else (b,)
    return [[T.atom(name, *(p + (num(i), num(j)))) for j in range(4)] for i in range(3)] + [[T.ZERO, T.ZERO, T.ZERO, T.ONE]]


def mat(x, t):
    return x.val(x.S.m(t, 'get_matrix'), 'get_matrix')


def compose(x, ns):
    S = x.S
    names = ['m%d' % k for k in range(len(ns))]
    ts = [mk(x, nm, n) for nm, n in zip(names, ns)]
    o = x.val(S.m(ts[0], 'compose', *ts[1:]), 'compose')
    N = [n for n in ns if n != 1] or [1]

    def spec(i):
        M = None
        for nm, n in zip(names, ns):
            A = MM(nm, num(0) if n == 1 else i[0])
            M = A if M is None else mmul(M, A)
        return entry(M)(i)
    x.eq('compose', mat(x, o), (S.dim(N[0]), 4, 4), spec, n=3)
    # the composite applied to a point equals applying the last one first
    pts = S.t('p', (5, 3))
    a = x.val(S.m(o, 'transform_points', pts), 'transform_points')
    cur = pts
    for t in reversed(ts):
        cur = x.val(S.m(t, 'transform_points', cur), 'transform_points')
    ca = x.I.resolve(cur)
    if isinstance(ca, Tensor):
        rd = x.I.reader(ca)
        x.eq('composite applied to points', a, ca.shape, lambda i: rd(i), n=3, at='transforms/transform3d.py:Transform3d.transform_points')


def compose_bad(x, a, b):
    x.refused(x.S.m(mk(x, 'm', a), 'compose', mk(x, 'n', b)), 'composing batches of %s and %s transforms' % (a, b))


def inverse_rigid(x, n, twice=False):
    S = x.S
    t = mk(x, 'rigid!M', n)
    v = x.val(S.m(t, 'inverse'), 'inverse')
    nn = S.dim(n or 1)
    id_ = lambda i: num(int(i[-1].args[0] == i[-2].args[0]))
    x.eq('transform composed with its inverse', mat(x, x.val(S.m(t, 'compose', v), 'compose')), (nn, 4, 4), id_)
    x.eq('inverse composed with the transform', mat(x, x.val(S.m(v, 'compose', t), 'compose')), (nn, 4, 4), id_)
    w = x.val(S.m(v, 'inverse'), 'inverse')
    x.eq('inverse of the inverse', mat(x, w), (nn, 4, 4), lambda i: entry(MM('rigid!M', *([] if n is None else [i[0]])))(i))


def inverse_of(x, build, n, what):
    S = x.S
    t = build(x)
    v = x.val(S.m(t, 'inverse'), 'inverse of ' + what)
    id_ = lambda i: num(int(i[-1].args[0] == i[-2].args[0]))
    x.eq('%s composed with its inverse' % what, mat(x, x.val(S.m(t, 'compose', v), 'compose')), (S.dim(n), 4, 4), id_)
    x.eq('inverse of %s composed with it' % what, mat(x, x.val(S.m(v, 'compose', t), 'compose')), (S.dim(n), 4, 4), id_)


def b_translate(x):
    return x.val(x.S.call(tf(x.S, 'Translate'), x.S.t('t', ('B', 3))), 'Translate')


def b_translate1(x):
    S = x.S
    return x.val(S.call(tf(S, 'Translate'), S.f('a'), S.f('b'), S.f('c')), 'Translate')


def b_scale(x):
    return x.val(x.S.call(tf(x.S, 'Scale'), x.S.t('pos!s', ('B', 3))), 'Scale')


def b_scale1(x):
    return x.val(x.S.call(tf(x.S, 'Scale'), x.S.f('pos!s')), 'Scale')


def b_rotate(x):
    return x.val(x.S.call(tf(x.S, 'Rotate'), x.S.t('rot!R', ('B', 3, 3))), 'Rotate')


def b_raa(x):
    return x.val(x.S.call(tf(x.S, 'RotateAxisAngle'), x.S.t('ang', ('B',)), 'Y', degrees=False, dtype=F32), 'RotateAxisAngle')


def b_chain(x):
    S = x.S
    t = x.val(S.call(tf(S, 'Transform3d')), 'Transform3d')
    t = x.val(S.m(t, 'translate', S.t('t', ('B', 3))), 'translate')
    t = x.val(S.m(t, 'rotate', S.t('rot!R', ('B', 3, 3))), 'rotate')
    return x.val(S.m(t, 'translate', S.f('u'), S.f('v'), S.f('w')), 'translate')


def b_scaled(x):
    S = x.S
    t = x.val(S.call(tf(S, 'Transform3d')), 'Transform3d')
    return x.val(S.m(t, 'scale', S.f('pos!s')), 'scale')


def points(x, n, pshape, out, eps=None):
    S = x.S
    t = mk(x, 'm', n)
    o = x.val(S.m(t, 'transform_points', S.t('p', pshape), **({} if eps is None else {'eps': eps})), 'transform_points')

    def spec(i):
        b = i[0] if len(i) == 3 else num(0)
        M = MM('m', num(0) if n == 1 else b)
        p = at_('p', (i[-2],), 3) if len(pshape) == 2 else at_('p', (num(0) if pshape[0] == 1 else b, i[-2]), 3)
        return mvec(M, p + [T.ONE])[int(i[-1].args[0])]
    x.eq('transform_points', o, dims(S, out), spec, n=3)


def b2b(x, n, pshape, name):
    """each transform applied to its own point / normal"""
    S = x.S
    t = mk(x, 'rigid!m', n)
    o = x.val(S.m(t, name, S.t('p', pshape), batch_to_batch=True), name)
    h = T.ONE if name == 'transform_points' else T.ZERO
    x.eq(name + ' batch_to_batch', o, dims(S, pshape), lambda i: mvec(MM('rigid!m', i[0]), at_('p', i[:-1], 3) + [h])[int(i[-1].args[0])], n=3)


def points_bad(x, shp):
    x.refused(x.S.m(mk(x, 'm', 'B'), 'transform_points', x.S.t('p', shp)), 'transform_points of shape %s' % (shp,))


def normals_bad(x, shp):
    x.refused(x.S.m(mk(x, 'm', 'B'), 'transform_normals', x.S.t('p', shp)), 'transform_normals of shape %s' % (shp,))


def normals(x, n, pshape, out):
    S = x.S
    t = mk(x, 'rigid!m', n)
    o = x.val(S.m(t, 'transform_normals', S.t('p', pshape)), 'transform_normals')

    def spec(i):
        b = i[0] if len(i) == 3 else num(0)
        M = MM('rigid!m', num(0) if n == 1 else b)
        p = at_('p', (i[-2],), 3) if len(pshape) == 2 else at_('p', (num(0) if pshape[0] == 1 else b, i[-2]), 3)
        return mvec([r[:3] for r in M[:3]], p)[int(i[-1].args[0])]
    x.eq('transform_normals of a rigid transform', o, dims(S, out), spec, n=3)


def shape_operators(x, n, pshape, out):
    """R S R^T for every transform and every operator"""
    S = x.S
    o = x.val(S.m(mk(x, 'rigid!m', n), 'transform_shape_operator', S.t('h', pshape + (3, 3))), 'transform_shape_operator')

    def spec(i):
        b = i[0] if len(out) == 2 else num(0)
        R = [r[:3] for r in MM('rigid!m', num(0) if n == 1 else b)[:3]]
        lead = (i[-3],) if len(pshape) == 1 else (num(0) if pshape[0] == 1 else b, i[-3])
        h = [[T.atom('h', *lead, num(a), num(c)) for c in range(3)] for a in range(3)]
        a, c = int(i[-2].args[0]), int(i[-1].args[0])
        return T.add(*[T.mul(T.mul(R[a][k], h[k][l]), R[c][l]) for k in range(3) for l in range(3)])
    x.eq('transform_shape_operator of a rigid transform', o, dims(S, out + (3, 3)), spec, n=3)


def shape_operators_bad(x, shp):
    x.refused(x.S.m(mk(x, 'm', 'B'), 'transform_shape_operator', x.S.t('h', shp)), 'transform_shape_operator of shape %s' % (shp,))


def normals_scale(x):
    S = x.S
    t = x.val(S.call(tf(S, 'Scale'), S.t('pos!s', ('B', 3))), 'Scale')
    o = x.val(S.m(t, 'transform_normals', S.t('p', (5, 3))), 'transform_normals')
    x.eq('transform_normals of a scaling', o, dims(S, ('B', 5, 3)), lambda i: T.div(T.atom('p', i[1], i[2]), T.atom('pos!s', i[0], i[2])))


def stack(x, ns):
    S = x.S
    ts = [mk(x, 'm%d' % k, n) for k, n in enumerate(ns)]
    o = x.val(S.m(ts[0], 'stack', *ts[1:]), 'stack')
    m = mat(x, o)
    tot = sum(ns)
    rows_ = [(k, j) for k, n in enumerate(ns) for j in range(n)]
    x.eq('stack', m, (tot, 4, 4), lambda i: entry(MM('m%d' % rows_[int(i[0].args[0])][0], num(rows_[int(i[0].args[0])][1])))(i), prove=True)
    for k, (a, b) in enumerate(rows_):
        e = mat(x, x.val(S.I.getitem(o, k) and S.m(o, '__getitem__', k), 'indexing'))
        x.eq('index into a stack', e, (1, 4, 4), lambda i: entry(MM('m%d' % a, num(b)))(i), prove=True)


def stack_sym(x):
    """stacking generic batches keeps order: rows before the first size come from the first, later ones from the second"""
    S = x.S
    a, b = mk(x, 'm0', 'B'), mk(x, 'm1', 'C')
    o = x.val(S.m(a, 'stack', b), 'stack')
    m = S.I.resolve(mat(x, o))
    if not isinstance(m, Tensor):
        raise Undecided('stack %r' % (m,))
    Bd, Cd = S.dim('B'), S.dim('C')
    x.holds(len(m.shape) == 3 and same_dim(m.shape[0], T.add(Bd, Cd)), 'length of a stack', 'length %s' % (m.shape[0],))
    r = S.I.reader(m)
    j = T.fresh('row', sort='I', rng=Bd)
    k = T.fresh('row', sort='I', rng=Cd)
    pr = [(r((j, num(u), num(v))), MM('m0', j)[u][v]) for u in range(4) for v in range(4)]
    pr += [(r((T.add(Bd, k), num(u), num(v))), MM('m1', k)[u][v]) for u in range(4) for v in range(4)]
    x.terms('stack of generic batches', pr, prove=True)


def index(x, sel, n, want):
    """indexing a batch"""
    S, I = x.S, x.I
    t = mk(x, 'm', n)
    o = x.val(S.m(t, '__getitem__', sel(S)), 'indexing')
    x.eq('index', mat(x, o), (len(want), 4, 4), lambda i: entry(MM('m', num(want[int(i[0].args[0])])))(i), prove=True)


def clone(x, n):
    S, I = x.S, x.I
    t = mk(x, 'm', n, F64)
    o = x.val(S.m(t, 'clone'), 'clone')
    m = mat(x, o)
    x.eq('clone', m, (S.dim(n), 4, 4), lambda i: entry(MM('m', i[0]))(i), prove=True)
    x.holds(m.dtype is F64 and x.I.getattr(o, 'dtype') is F64, 'dtype of a clone', 'dtype %s' % m.dtype.name)
    a, b = I.resolve(m), I.resolve(mat(x, t))
    x.holds(a.cell != b.cell, 'a clone owns its matrix', 'the clone shares storage with the original')


def length(x, n):
    t = mk(x, 'm', n)
    v = x.I.length(t)
    x.holds(same_dim(v if isinstance(v, (int, T.Term)) else dim(v), x.S.dim(n)), 'len', 'len gives %r' % (v,))


def scenarios(tier):
    o = []
    for ns in (('B', 'B'), (1, 'B'), ('B', 1), (1, 1), ('B', 'B', 'B'), (1, 'B', 1), ('B', 1, 'B'), (3, 1, 3), (2, 2)):
        o.append(('compose.%s' % '_'.join(map(str, ns)), compose, (ns,), TD + '.compose'))
    for a, b in ((2, 3), (3, 2), ('B', 'C')):
        o.append(('compose.refuse.%s_%s' % (a, b), compose_bad, (a, b), TD + '.compose'))
    for n in (1, 'B', None, 3):
        o.append(('inverse.rigid.%s' % n, inverse_rigid, (n,), TD + '.inverse'))
    for nm, b, n in (('translation', b_translate, 'B'), ('translation1', b_translate1, 1), ('scaling', b_scale, 'B'), ('scaling1', b_scale1, 1), ('rotation', b_rotate, 'B'),
                     ('axis_rotation', b_raa, 'B'), ('composite', b_chain, 'B'), ('scaled_composite', b_scaled, 1)):
        o.append(('inverse.%s' % nm, inverse_of, (b, n, nm), TD + '.inverse'))
    for n, p, out in ((1, (5, 3), (5, 3)), (1, (1, 5, 3), (1, 5, 3)), (1, ('B', 5, 3), ('B', 5, 3)), ('B', (5, 3), ('B', 5, 3)), ('B', ('P', 3), ('B', 'P', 3)), ('B', (1, 5, 3), ('B', 5, 3)), ('B', ('B', 5, 3), ('B', 5, 3)), (1, ('P', 3), ('P', 3)), (2, (2, 3), (2, 2, 3))):
        o.append(('points.%s.%s' % (n, p), points, (n, p, out), TD + '.transform_points'))
        o.append(('normals.%s.%s' % (n, p), normals, (n, p, out), TD + '.transform_normals'))
    o.append(('points.eps', points, ('B', (5, 3), ('B', 5, 3), 1e-3), TD + '.transform_points'))
    for n, p in (('B', ('B', 3)), (3, (3, 3)), ('B', ('B', 5, 3))):
        for nm in ('transform_points', 'transform_normals'):
            o.append(('batch_to_batch.%s.%s' % (nm, p), b2b, (n, p, nm), TD + '.' + nm))
    for n, p, out in ((1, (5,), (5,)), (1, (1,), (1,)), (1, (1, 5), (1, 5)), (1, ('B', 5), ('B', 5)), ('B', (5,), ('B', 5)), ('B', (1,), ('B', 1)), ('B', ('P',), ('B', 'P')), ('B', (1, 5), ('B', 5)), ('B', ('B', 5), ('B', 5)),
                      ('B', ('B', 1), ('B', 1)), (2, (2,), (2, 2)), (3, (3, 1), (3, 1)), (1, ('P',), ('P',))):
        o.append(('shape.%s.%s' % (n, p), shape_operators, (n, p, out), TD + '.transform_shape_operator'))
    for s in ((3, 3), (2, 2, 2, 3, 3)):
        o.append(('shape.refuse.%s' % (s,), shape_operators_bad, (s,), TD + '.transform_shape_operator'))
    o.append(('normals.scale', normals_scale, (), TD + '.transform_normals'))
    for s in ((3,), (2, 2, 2, 3)):
        o.append(('points.refuse.%s' % (s,), points_bad, (s,), TD + '.transform_points'))
        o.append(('normals.refuse.%s' % (s,), normals_bad, (s,), TD + '.transform_normals'))
    for ns in ((1, 1), (2, 1), (1, 2, 1), (2, 2), (2, 2, 2), (3, 2)):
        o.append(('stack.%s' % '_'.join(map(str, ns)), stack, (ns,), TD + '.stack'))
    o.append(('stack.generic', stack_sym, (), TD + '.stack'))
    for nm, sel, n, want in (('int', lambda S: 1, 3, [1]), ('neg', lambda S: -1, 3, [2]), ('slice', lambda S: Slice(1, 3, None), 4, [1, 2]), ('list', lambda S: S.lst([2, 0]), 3, [2, 0]),
                             ('tensor', lambda S: S.const([2, 0, 2], I64), 3, [2, 0, 2]), ('mask', lambda S: S.const([True, False, True], BOOL), 3, [0, 2])):
        o.append(('index.%s' % nm, index, (sel, n, want), TD + '.__getitem__'))
    o.append(('clone', clone, ('B',), TD + '.clone'))
    for n in (1, 'B', 3):
        o.append(('len.%s' % n, length, (n,), TD + '.__len__'))
    return o
