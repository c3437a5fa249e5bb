"""Every way of building a transform is evaluated for symbolic arguments and the resulting matrix compared with the matrix the arguments stand for;
dtype facts come from the dtype component of the abstract tensor; refusal clauses are calls that have to raise on every path."""
from .lib import *
from .c13 import product

FLOOR = 70
TD = 'transforms/transform3d.py:'
NF = T.fn


def rotspec(kind, ix):
    if kind == 'quat':
        return quat_mat(at_('r', ix, 4))
    if kind == 'euler':
        return product('XYZ', at_('r', ix, 3))
    return amat('r', ix)


RSH = {'quat': (4,), 'euler': (3,), 'mat': (3, 3)}


def pyval(S, base, shape, ix=()):
    if not shape:
        return S.f2(base, ix)
    return tuple(pyval(S, base, shape[1:], ix + (k,)) for k in range(shape[0]))


def fnum(base, ix):
    return Num(T.atom(base, *[num(k) for k in ix]), 'f')


def pyv(base, shape, ix=()):
    if not shape:
        return fnum(base, ix)
    return tuple(pyv(base, shape[1:], ix + (k,)) for k in range(shape[0]))


def build(x, pos, rot, dtype, n=4, default=None):
    """pos: None | 'py' | () | ('B',) ; rot: (kind, None|'py'|lead)"""
    S = x.S
    kw = dict(dtype=dtype)
    N = 1
    if default is not None:
        kw['default_batch_size'] = default
        N = default
    pl = rl = ()
    if pos is not None:
        if pos == 'py':
            kw['pos'] = pyv('p', (3,))
        elif pos == 'pylist':
            kw['pos'] = S.lst(pyv('p', (3,)))
        else:
            pl = pos
            kw['pos'] = S.t('p', pos + (3,), dtype)
    if rot is not None:
        kind, how = rot
        if how == 'py':
            v = pyv('r', RSH[kind])
            kw['rot'] = S.lst([S.lst(r) for r in v]) if kind == 'mat' else S.lst(v)
        else:
            rl = how
            kw['rot'] = S.t('r', how + RSH[kind], dtype)
    for l in (pl, rl):
        if l and l[0] != 1:
            N = l[0]
    t = x.val(S.call(tf(S, 'Transform3d'), **kw), 'Transform3d')
    m = x.val(S.m(t, 'get_matrix'), 'get_matrix')

    def spec(i):
        b = i[0]
        R = eye(3)
        if rot is not None:
            R = rotspec(rot[0], () if rl in ((), 'py') else ((num(0),) if rl == (1,) else (b,)))
        p = [T.ZERO] * 3
        if pos is not None:
            p = at_('p', () if pl == () else ((num(0),) if pl == (1,) else (b,)), 3)
        return entry(hom(R, p))(i)
    x.eq('matrix', m, (S.dim(N), 4, 4), spec, n=n)
    dtypes(x, t, m, dtype)


def dtypes(x, t, m, dtype):
    m = x.I.resolve(m)
    x.holds(m.dtype is dtype, 'matrix dtype', 'requested %s, matrix is %s' % (dtype.name, m.dtype.name))
    rep = x.I.resolve(x.I.getattr(t, 'dtype'))
    x.holds(rep is m.dtype, 'reported dtype', 'reports %r, matrix is %s' % (rep, m.dtype.name))


def from_matrix(x, n, dtype, pos=None, rot=None):
    S = x.S
    lead = () if n is None else (n,)
    kw = {}
    if pos:
        kw['pos'] = S.t('p', lead + (3,), dtype)
    if rot:
        kw['rot'] = S.t('r', lead + RSH[rot], dtype)
    t = x.val(S.call(tf(S, 'Transform3d'), matrix=S.t('m', lead + (4, 4), dtype), dtype=dtype, **kw), 'Transform3d')
    m = x.val(S.m(t, 'get_matrix'), 'get_matrix')

    def spec(i):
        ix = () if n is None else (i[0],)
        M = amat('m', ix, 4, 4)
        r, c = int(i[1].args[0]), int(i[2].args[0])
        if pos and c == 3:
            return (at_('p', ix, 3) + [T.ONE])[r]
        if rot and c < 3:
            return rotspec(rot, ix)[r][c] if r < 3 else T.ZERO
        return M[r][c]
    x.eq('matrix', m, (S.dim(n or 1), 4, 4), spec, n=4)
    dtypes(x, t, m, dtype)


def tdtype(x, dtype):
    """dtype of the matrix wins over the dtype argument"""
    S = x.S
    t = x.val(S.call(tf(S, 'Transform3d'), matrix=S.t('m', ('B', 4, 4), dtype)), 'Transform3d')
    dtypes(x, t, x.val(S.m(t, 'get_matrix'), 'get_matrix'), dtype)


def refuse(x, name, args, kw=None):
    S = x.S
    a = [S.t('x%d' % k, s) if isinstance(s, tuple) else s for k, s in enumerate(args)]
    k = {n: S.t('k' + n, s) if isinstance(s, tuple) else s for n, s in (kw or {}).items()}
    x.refused(S.call(tf(S, name), *a, **k), '%s%s%s' % (name, tuple(args), kw or ''))


def special(x, name, mkargs, spec, N, dtype, kw=None, default_dtype=False):
    S = x.S
    args = mkargs(S, dtype)
    k = dict(kw or {})
    if not default_dtype:
        k['dtype'] = dtype
    t = x.val(S.call(tf(S, name), *args, **k), name)
    m = x.val(S.m(t, 'get_matrix'), 'get_matrix')
    x.eq(name, m, (S.dim(N), 4, 4), lambda i: entry(spec(i[0]))(i), n=4)
    dtypes(x, t, m, dtype)


def tr_(p):
    return hom(eye(3), p)


def diag(p):
    return [[p[i] if i == j and i < 3 else num(int(i == j)) for j in range(4)] for i in range(4)]


def method(x, name, mkargs, spec, N, dtype, kw=None):
    """t.translate(...), t.scale(...), ...: composition on the right with the corresponding elementary transform, without loss of precision"""
    S, I = x.S, x.I
    t = x.val(S.call(tf(S, 'Transform3d'), matrix=S.t('m', ('B', 4, 4), dtype), dtype=dtype), 'Transform3d')
    o = S.m(t, name, *mkargs(S, dtype), **(kw or {}))
    t2 = x.val(o, name)
    m = x.val(S.m(t2, 'get_matrix'), 'get_matrix')
    x.eq(name, m, (S.dim('B'), 4, 4), lambda i: entry(mmul(amat('m', (i[0],), 4, 4), spec(i[0])))(i), n=4)
    dtypes(x, t2, m, dtype)
    lossy = [e for k, e in o.events if k in ('cast', 'dtype_store') and e['dtypes'][0] == 'float64' and e['dtypes'][1] == 'float32']
    if dtype is F64:
        x.holds(not lossy, 'no rounding through a narrower dtype', 'a float64 value is stored as float32 in %s (line %s)' % (lossy[0]['fn'], getattr(lossy[0]['node'], 'lineno', '?')) if lossy else '')
        made = [e for k, e in o.events if k == 'create' and e['dtype'] is F32 and tuple(e['shape'])[-1:] in ((3,), (4,))]


def scenarios(tier):
    o = []
    C = TD + 'Transform3d.__init__'
    rots = [None] + [(k, h) for k in ('quat', 'euler', 'mat') for h in ('py', (), ('B',), (1,), (2,))]
    poss = [None, 'py', 'pylist', (), ('B',), (1,), (2,)]
    k = 0
    for p in poss:
        for r in rots:
            if p is None and r is None:
                continue
            pl = p if isinstance(p, tuple) else ()
            rl = r[1] if r and isinstance(r[1], tuple) else ()
            if p is not None and r is not None:
                # both given: same batch
                if pl != rl and not (pl in ((), (1,)) and rl in ((), (1,))):
                    continue
            k += 1
            if tier == 'quick' and p == 'pylist' and r is not None:
                continue
            for dt in (F32, F64):
                o.append(('build.pos=%s.rot=%s.%s' % (p, r, dt.name), build, (p, r, dt), C))
    for dflt in (1, 3):
        o.append(('identity.%d' % dflt, build, (None, None, F32, 2, dflt), C))
    for n in (None, 1, 'B', 2):
        for dt in (F32, F64):
            o.append(('matrix.%s.%s' % (n, dt.name), from_matrix, (n, dt), C))
            o.append(('matrix+pos.%s.%s' % (n, dt.name), from_matrix, (n, dt, True), C))
            for r in RSH:
                if n is None and r == 'mat' or n is not None or True:
                    o.append(('matrix+rot_%s.%s.%s' % (r, n, dt.name), from_matrix, (n, dt, False, r), C))
                    o.append(('matrix+pos+rot_%s.%s.%s' % (r, n, dt.name), from_matrix, (n, dt, True, r), C))
    o.append(('matrix.dtype', tdtype, (F64,), C))
    for shp in ((3, 3), ('B', 3, 4), ('B', 4, 3), (4,), ('B', 2, 4, 4), (16,), ('B', 16)):
        o.append(('refuse.matrix.%s' % (shp,), refuse, ('Transform3d', (), {'matrix': shp}), C))
    v = lambda b: at_('t', (b,), 3)
    z = [T.atom(n) for n in 'abc']
    fa = lambda S, d: [S.f('a'), S.f('b'), S.f('c')]
    tB = lambda S, d: [S.t('t', ('B', 3), d)]
    mix = lambda S, d: [S.f('a'), S.t('y', ('B',), d), S.t('z', (), d)]
    mixs = lambda b: [T.atom('a'), T.atom('y', b), T.atom('z')]
    for dt in (F32, F64):
        d = dt.name
        o.append(('Translate.scalars.' + d, special, ('Translate', fa, lambda b: tr_(z), 1, dt), TD + 'Translate.__init__'))
        o.append(('Translate.tensor.' + d, special, ('Translate', tB, lambda b: tr_(v(b)), 'B', dt), TD + 'Translate.__init__'))
        o.append(('Translate.mixed.' + d, special, ('Translate', mix, lambda b: tr_(mixs(b)), 'B', dt), TD + 'Translate.__init__'))
        o.append(('Scale.scalar.' + d, special, ('Scale', lambda S, d_: [S.f('a')], lambda b: diag([T.atom('a')] * 3), 1, dt), TD + 'Scale.__init__'))
        o.append(('Scale.tscalar.' + d, special, ('Scale', lambda S, d_: [S.t('a', (), d_)], lambda b: diag([T.atom('a')] * 3), 1, dt), TD + 'Scale.__init__'))
        o.append(('Scale.vector.' + d, special, ('Scale', lambda S, d_: [S.t('s', ('B',), d_)], lambda b: diag([T.atom('s', b)] * 3), 'B', dt), TD + 'Scale.__init__'))
        o.append(('Scale.tensor.' + d, special, ('Scale', tB, lambda b: diag(v(b)), 'B', dt), TD + 'Scale.__init__'))
        o.append(('Scale.scalars.' + d, special, ('Scale', fa, lambda b: diag(z), 1, dt), TD + 'Scale.__init__'))
        o.append(('Scale.mixed.' + d, special, ('Scale', mix, lambda b: diag(mixs(b)), 'B', dt), TD + 'Scale.__init__'))
        o.append(('Rotate.mat.' + d, special, ('Rotate', lambda S, d_: [S.t('rot!r', (3, 3), d_)], lambda b: hom(amat('rot!r', ()), [T.ZERO] * 3), 1, dt), TD + 'Rotate.__init__'))
        o.append(('Rotate.mats.' + d, special, ('Rotate', lambda S, d_: [S.t('rot!r', ('B', 3, 3), d_)], lambda b: hom(amat('rot!r', (b,)), [T.ZERO] * 3), 'B', dt), TD + 'Rotate.__init__'))
        o.append(('Rotate.quat.' + d, special, ('Rotate', lambda S, d_: [S.t('r', (4,), d_)], lambda b: hom(rotspec('quat', ()), [T.ZERO] * 3), 1, dt), TD + 'Rotate.__init__'))
        o.append(('Rotate.quats.' + d, special, ('Rotate', lambda S, d_: [S.t('r', ('B', 4), d_)], lambda b: hom(rotspec('quat', (b,)), [T.ZERO] * 3), 'B', dt), TD + 'Rotate.__init__'))
        o.append(('Rotate.euler.' + d, special, ('Rotate', lambda S, d_: [S.t('r', (3,), d_)], lambda b: hom(rotspec('euler', ()), [T.ZERO] * 3), 1, dt), TD + 'Rotate.__init__'))
        o.append(('Rotate.eulers.' + d, special, ('Rotate', lambda S, d_: [S.t('r', ('B', 3), d_)], lambda b: hom(rotspec('euler', (b,)), [T.ZERO] * 3), 'B', dt), TD + 'Rotate.__init__'))
        for ax in 'XYZ':
            deg = lambda a: T.mul(a, T.div(T.PI, num(180)))
            o.append(('RotateAxisAngle.%s.scalar.%s' % (ax, d), special, ('RotateAxisAngle', lambda S, d_, ax=ax: [S.f('a'), ax], lambda b, ax=ax: hom(ROT[ax](deg(T.atom('a'))), [T.ZERO] * 3), 1, dt), TD + 'RotateAxisAngle.__init__'))
            o.append(('RotateAxisAngle.%s.tensor.%s' % (ax, d), special, ('RotateAxisAngle', lambda S, d_, ax=ax: [S.t('an', ('B',), d_), ax.lower()], lambda b, ax=ax: hom(ROT[ax](deg(T.atom('an', b))), [T.ZERO] * 3), 'B', dt), TD + 'RotateAxisAngle.__init__'))
            o.append(('RotateAxisAngle.%s.radians.%s' % (ax, d), special, ('RotateAxisAngle', lambda S, d_, ax=ax: [S.t('an', ('B',), d_), ax], lambda b, ax=ax: hom(ROT[ax](T.atom('an', b)), [T.ZERO] * 3), 'B', dt, {'degrees': False}), TD + 'RotateAxisAngle.__init__'))
        o.append(('translate.scalars.' + d, method, ('translate', fa, lambda b: tr_(z), 1, dt), TD + 'Transform3d.translate'))
        o.append(('translate.tensor.' + d, method, ('translate', tB, lambda b: tr_(v(b)), 1, dt), TD + 'Transform3d.translate'))
        o.append(('scale.' + d, method, ('scale', tB, lambda b: diag(v(b)), 1, dt), TD + 'Transform3d.scale'))
        o.append(('rotate.' + d, method, ('rotate', lambda S, d_: [S.t('rot!r', ('B', 3, 3), d_)], lambda b: hom(amat('rot!r', (b,)), [T.ZERO] * 3), 1, dt), TD + 'Transform3d.rotate'))
        o.append(('rotate_axis_angle.' + d, method, ('rotate_axis_angle', lambda S, d_: [S.t('an', ('B',), d_), 'Z'], lambda b: hom(ROT['Z'](T.atom('an', b)), [T.ZERO] * 3), 1, dt, {'degrees': False}), TD + 'Transform3d.rotate_axis_angle'))
    o.append(('RotateAxisAngle.defaults', special, ('RotateAxisAngle', lambda S, d_: [S.f('a')], lambda b: hom(ROT['X'](T.mul(T.atom('a'), T.div(T.PI, num(180)))), [T.ZERO] * 3), 1, F64, None, True), TD + 'RotateAxisAngle.__init__'))
    for nm, a, kw in (('Translate', [('B', 4)], {}), ('Translate', [('B', 2)], {}), ('Translate', [('B', 3), ('B',)], {}), ('Translate', [(2,), (3,), (1,)], {}), ('Scale', [('B', 4)], {}), ('Scale', [(2,), (3,), (2,)], {}),
                      ('Scale', [2.0, 3.0], {}), ('Scale', [('B',), ('B',)], {}), ('Scale', [('B', 3), 2.0], {}), ('Translate', [1.0, 2.0], {}), ('Translate', [('B',)], {}),
                      ('Rotate', [('B', 5)], {}), ('Rotate', [('B', 3, 5)], {}), ('RotateAxisAngle', [1.0, 'W'], {}), ('RotateAxisAngle', [('B', 2), 'X'], {}), ('RotateAxisAngle', [1.0, ''], {})):
        o.append(('refuse.%s.%s' % (nm, a), refuse, (nm, tuple(a), kw), TD + nm + '.__init__'))
    return o
