"""The Jacobian of serial chains with a symbolic tool offset (position or transform, shared or per element) and with the end effector pose requested is
evaluated; every entry is compared with the twist at the tool point and the pose with the end frame's pose times the tool transform."""
from .lib import *
from .c01 import qmap
from .c04 import Ser, memo_jac

FLOOR = 60
AT = 'chain.py:SerialChain.jacobian'
CASES = [('arm', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('pp', 'ee', ''), ('rr', 'l2', ''), ('rootmove', 'l2', ''), ('fixed', 'l2', ''), ('star', 'b1', '')]
FORMS = ['none', 'pos', 'posB', 'tf', 'tfB', 'tfpos', 'posrow']


def tool(x, form, B, dtype=F32, other=None):
    """(value, position provider b -> 3 terms, matrix provider b -> 4x4 terms)"""
    S, I = x.S, x.I
    td = other or dtype
    I3 = eye(3)
    if form == 'none':
        return None, None, lambda b: eye(4)
    if form == 'pos':
        p = lambda b: [T.atom('tp', num(k)) for k in range(3)]
        return S.t('tp', (3,), td), p, lambda b: hom(I3, p(b))
    if form == 'posrow':
        p = lambda b: [T.atom('tp', num(0), num(k)) for k in range(3)]
        return S.t('tp', (1, 3), td), p, lambda b: hom(I3, p(b))
    if form == 'posB':
        p = lambda b: [T.atom('tp', b, num(k)) for k in range(3)]
        return S.t('tp', (B, 3), td), p, lambda b: hom(I3, p(b))
    Tr = S.get(TF + ':Transform3d')
    if form == 'tfpos':
        p = lambda b: [T.atom('tp', num(k)) for k in range(3)]
        return x.val(S.call(Tr, pos=S.t('tp', (3,), td), dtype=td), 'Transform3d'), p, lambda b: hom(I3, p(b))
    n = S.dim(B) if form == 'tfB' else 1
    at = lambda b: b if form == 'tfB' else num(0)

    def fn(idx):
        k, i, j = idx
        if i.op == 'num' and i.args[0] == 3:
            return num(int(j.args[0] == 3)) if j.op == 'num' else T.ite(T.eq(j, num(3)), T.ONE, T.ZERO)
        return T.atom('rigid!tool', k, i, j)
    m = I.tensor((n, 4, 4), fn, td, CPU)
    v = x.val(S.call(Tr, matrix=m, dtype=td), 'Transform3d')
    M = lambda b: [[T.atom('rigid!tool', at(b), num(i), num(j)) for j in range(4)] for i in range(3)] + [[T.ZERO, T.ZERO, T.ZERO, T.ONE]]
    return v, lambda b: [M(b)[i][3] for i in range(3)], M


def run(x, key, end, root, B, form, want_pose, entry_point='jacobian', dtype=F32, other=None, ret='pair'):
    S = x.S
    s = Ser(x, key, end, root, dtype)
    n = len(s.names)
    flat = B is None
    th = S.t('th', (n,) if flat else (B, n), dtype)
    B = 1 if flat else B
    tl_, p, M = tool(x, form, B, dtype, other)
    kw = {}
    if want_pose:
        kw['ret_eef_pose'] = True
    if entry_point == 'jacobian':
        if tl_ is not None:
            kw['locations'] = tl_
        o = S.m(s.chain, 'jacobian', th, **kw)
    else:
        if tl_ is not None:
            kw['tool'] = tl_
        o = S.call(PK + '.jacobian:calc_jacobian', s.chain, th, **kw)
    v = x.val(o, entry_point)
    P = None
    if want_pose:
        if not isinstance(v, tuple) or len(v) != 2:
            raise ScenarioBad('result', 'the end effector pose was requested but the result is not a pair')
        v, P = v
    elif isinstance(v, tuple):
        raise ScenarioBad('result', 'the end effector pose was not requested but a tuple is returned')
    b = S.dim(B)
    if flat:
        qs = {nm: T.atom('th', num(j)) for j, nm in enumerate(s.names)}
        J = s.jac(qs, p(num(0)) if p else None)
        x.eq('jacobian', v, (1, 6, n), lambda i: J[int(i[1].args[0])][int(i[2].args[0])], n=3)
        q = lambda b_: qs
    else:
        x.eq('jacobian', v, (b, 6, n), memo_jac(s, p), n=3)
        q = qmap(s.names)
    if P is not None:
        x.eq('end effector pose', P, (b, 4, 4), lambda i: entry(mmul(s.pose(q(i[0])), M(i[0])))(i), n=3)
    for nm, t in (('jacobian', v), ('end effector pose', P)):
        t = x.I.resolve(t)
        if isinstance(t, Tensor):
            x.holds(t.dtype == dtype, nm + ' dtype', '%s has dtype %s for a %s chain' % (nm, t.dtype, dtype))


def scenarios(tier):
    o = []
    for key, e, r in CASES:
        for form in FORMS:
            for wp in (0, 1):
                for B in ('B', None) if tier == 'quick' else ('B', None, 1, 2, 3, 6):
                    if form in ('posB', 'tfB') and B is None:
                        continue
                    o.append(('%s.%d.%s.%s.%s.%s' % (form, wp, key, r, e, B), run, (key, e, r, B, form, wp), AT))
        o.append(('calc.%s.%s' % (key, e), run, (key, e, r, 'B', 'tfB', 1, 'calc'), AT))
        o.append(('calcpos.%s.%s' % (key, e), run, (key, e, r, 'B', 'pos', 0, 'calc'), AT))
    for form in ('tf', 'pos', 'posB'):
        o.append(('f64.%s' % form, run, ('arm', 'ee', '', 'B', form, 1, 'jacobian', F64), AT))
        o.append(('mixed.%s' % form, run, ('arm', 'ee', '', 'B', form, 1, 'jacobian', F64, F32), AT))
    for B in (1, 2, 3):
        o.append(('posB.size%s' % B, run, ('arm', 'ee', '', B, 'posB', 1), AT))
        o.append(('tfB.size%s' % B, run, ('rr', 'l2', '', B, 'tfB', 1), AT))
    return o
