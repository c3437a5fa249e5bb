"""shared helpers of the rules"""
from ..robots import *
from ..run import ScenarioBad

LEADS = [(), ('B',), ('B', 'C')]
RC = 'transforms/rotation_conversions.py'


def tf(S, name, *mods):
    """public function exported by pytorch_kinematics.transforms (or, if it is not re-exported, by the module that defines it)"""
    last = None
    for m in (TF,) + tuple(TF + '.' + m for m in (mods or ('rotation_conversions', 'math', 'so3', 'perturbation', 'transform3d'))):
        try:
            return S.get(m + ':' + name)
        except Anchor as e:
            last = e
        except KeyError as e:
            last = e
    raise Anchor(TF + ':' + name)


def at_(base, idx, n=None):
    """vector of atoms base[idx..., 0..n-1]"""
    return [T.atom(base, *(tuple(idx) + (k,))) for k in range(n)]


def amat(base, idx, r=3, c=3):
    return [[T.atom(base, *(tuple(idx) + (i, j))) for j in range(c)] for i in range(r)]


def dims(S, lead):
    return tuple(S.dim(d) for d in lead)


def rows(lead):
    """generic index tuple for leading dims"""
    out = []
    for k, d in enumerate(lead):
        out.append(_r(d, k))
    return tuple(out)


def _r(d, k):
    from ..api import _row
    return num(0) if isinstance(d, int) else _row(T.atom(d, sort='I') if isinstance(d, str) else d, k)


def read(x, t, *idx):
    """element of a tensor value"""
    return nterm(x.I.elem(t, *idx)) if not isinstance(t, T.Term) else t


def fixq(q):
    """provider: entries of the rotation matrix of quaternion q (w,x,y,z)"""
    n = math.sqrt(sum(c * c for c in q))
    M = qmat_num([c / n for c in q])
    return lambda e, name, idx: M[idx[-2]][idx[-1]]


def tensor_el(x, t):
    """reader for a tensor value; raises Undecided on unknown"""
    t = x.I.resolve(t)
    if isinstance(t, Unknown):
        raise Undecided(t.reason)
    if not isinstance(t, Tensor):
        raise Undecided('value %r' % (t,))
    return x.I.reader(t)


def N_(i):
    return num(i)


def shape_ok(x, t, shape, what, at=None):
    t = x.I.resolve(t)
    if isinstance(t, Unknown):
        raise Undecided(t.reason)
    if not isinstance(t, Tensor):
        raise ScenarioBad(what, 'returns %r instead of a tensor' % (type(t).__name__,), at)
    shape = tuple(x.S.dim(d) for d in shape)
    ok = len(shape) == len(t.shape) and all(same_dim(a, b) for a, b in zip(shape, t.shape))
    x.holds(ok, what + ' shape', 'shape %s, required %s' % (tuple(T.show(d) if isinstance(d, T.Term) else d for d in t.shape), tuple(T.show(d) if isinstance(d, T.Term) else d for d in shape)), at)
    return ok


# ---- interpretations at special points
def _pick(vals):
    return lambda e, name, idx: vals[int(e.h('pick', name, idx) * len(vals)) % len(vals)]


_AX = [(1., 0., 0.), (0., 1., 0.), (0., 0., 1.), (-1., 0., 0.), (0., -1., 0.), (0., 0., -1.)]


def p_axis(e, name, idx):
    return _AX[int(e.h('axis', name) * 6) % 6][idx[-1]]


def p_rigid_corner(e, name, idx):
    i, j = idx[-2], idx[-1]
    if i == 3:
        return float(j == 3)
    k = e.h('kind', name)
    if j == 3:
        return 0.0 if k < 0.35 else round((e.h(name, idx) * 2 - 1) * 1.3, 2)
    if k < 0.5:
        return float(i == j)
    return p_rot(e, name, idx)


HALF = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 7.25, -40.5, 1e-3, 0.0]
CORNER = {'ax!*': p_axis, 'th': _pick(HALF), 'rigid!*': p_rigid_corner}
