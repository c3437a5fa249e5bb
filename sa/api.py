"""Building blocks of the rules: sessions, robots, comparison of value graphs."""
import math
import itertools
import os
import sys
from . import terms as T
from .terms import num, atom
from .values import *
from .interp import Interp, Frame as IFrame, Maybe, mkbool, bterm, nterm, GenResult
from . import sizes
from . import torchlib as tl

PK = 'pytorch_kinematics'
TF = PK + '.transforms'
GPU = Dev('gpu')
I_ = lambda n: atom(n, sort='I')


class Anchor(Exception):
    """a public name the property is stated about is missing"""


class Undecided(Exception):
    pass


class Sess:
    def __init__(self, src=None):
        self.I = Interp(src)
        m = ModV(tl.PRELUDE, *tl.PRELUDE_SRC)
        self.I.modules[m.name] = m
        self.I.exec_module(m)
        self.I.module(PK)
        self.out = None

    # ---- values
    def t(self, name, shape, dtype=F32, device=CPU, rg=False, kind='torch', watch=False, sort='R'):
        shape = tuple(self.dim(d) for d in shape)
        t = self.I.input_tensor(name, shape, dtype, device, kind, sort)
        if rg:
            self.I.rg.add(name)
        else:
            t.gdep = frozenset()
        if watch:
            self.I.input_cells[t.cell] = name
        return t

    def dim(self, d):
        if isinstance(d, str):
            sizes.GENERIC.add(d)
            return atom(d, sort='I')
        return d

    def f(self, name):
        return Num(atom(name), 'f')

    def const(self, data, dtype=F32, device=CPU, kind='torch'):
        """tensor from nested python data of numbers / Terms / Num"""
        def conv(x):
            if isinstance(x, (list, tuple)):
                return tuple(conv(y) for y in x)
            if isinstance(x, T.Term):
                return Num(x)
            return x
        t = tl.tensor_from(self.I, conv(data), dtype, device, None, kind)
        return t

    def lst(self, xs):
        return self.I.list_of(list(xs))

    def dct(self, d):
        return self.I.new_dict([('item', k, v) for k, v in d.items()])

    # ---- calls
    def get(self, dotted):
        try:
            return self.I.lookup(dotted if ':' in dotted else PK + ':' + dotted)
        except KeyError:
            raise Anchor(dotted)

    def call(self, f, *a, **k):
        """returns Outcome"""
        I = self.I
        if isinstance(f, str):
            f = self.get(f)
        n0, r0, g0 = len(I.events), len(I.raise_log), dict(I.unknown_ops)
        exc = None
        v = None
        try:
            v = I.call(f, list(a), k, None)
        except AbsRaise as e:
            exc = e
        except Giveup as e:
            v = Unknown('giveup: %s' % e)
        except RecursionError:
            v = Unknown('recursion')
        return Outcome(self, v, exc, I.events[n0:], I.raise_log[r0:], {k_: c for k_, c in I.unknown_ops.items() if g0.get(k_) != c})

    def m(self, obj, name, *a, **k):
        o = self.attr(obj, name)
        return self.call(o, *a, **k)

    def attr(self, obj, name):
        try:
            return self.I.getattr(obj, name)
        except AbsRaise as e:
            if e.exc == 'AttributeError':
                raise Anchor('%s.%s' % (getattr(getattr(obj, 'cls', None), 'name', obj), name))
            raise

    # ---- elements
    def el(self, t, *idx):
        return self.I.elem(t, *idx)


class Outcome:
    def __init__(self, s, v, exc, events, raises, unknown):
        self.s, self.v, self.exc, self.events, self.raises, self.unknown = s, s.I.resolve(v), exc, events, raises, unknown

    @property
    def ok(self):
        return self.exc is None and not isinstance(self.v, Unknown)

    def val(self):
        """the value; Undecided when the analysis does not know it, Raised when the call certainly raises"""
        if self.exc is not None:
            raise Raised(self.exc)
        if isinstance(self.v, Unknown):
            raise Undecided(self.v.reason)
        return self.v

    def raises_under(self):
        """condition (Term) under which some path raises"""
        if self.exc is not None:
            return T.TRUE
        return T.or_(*[r[0] for r in self.raises]) if self.raises else T.FALSE


class Raised(Exception):
    def __init__(self, e):
        Exception.__init__(self, e.exc)
        self.e = e


def loc(I, node, fn=None):
    ln = getattr(node, 'lineno', None)
    return '%s%s' % (fn or '', ':%d' % ln if ln else '')


# ------------------------------------------------------------------ little linear algebra over terms
def madd(A, B):
    return [[T.add(x, y) for x, y in zip(r, q)] for r, q in zip(A, B)]


def mmul(A, B):
    return [[T.add(*[T.mul(A[i][k], B[k][j]) for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def mvec(A, v):
    return [T.add(*[T.mul(A[i][k], v[k]) for k in range(len(v))]) for i in range(len(A))]


def eye(n):
    return [[num(int(i == j)) for j in range(n)] for i in range(n)]


def tr(A):
    return [list(r) for r in zip(*A)]


def cross(a, b):
    return [T.sub(T.mul(a[1], b[2]), T.mul(a[2], b[1])), T.sub(T.mul(a[2], b[0]), T.mul(a[0], b[2])), T.sub(T.mul(a[0], b[1]), T.mul(a[1], b[0]))]


def dot(a, b):
    return T.add(*[T.mul(x, y) for x, y in zip(a, b)])


def hom(R, p):
    return [list(R[i]) + [p[i]] for i in range(3)] + [[T.ZERO, T.ZERO, T.ZERO, T.ONE]]


def sin(x):
    return T.fn('sin', x)


def cos(x):
    return T.fn('cos', x)


def sqrt(x):
    return T.fn('sqrt', x)


def normd(v):
    n = sqrt(T.add(*[T.pw(x, 2) for x in v]))
    return [T.div(x, n) for x in v]


def rodrigues(u, th):
    c, s = cos(th), sin(th)
    C = T.sub(T.ONE, c)
    x, y, z = u
    k = [[T.ZERO, T.neg(z), y], [z, T.ZERO, T.neg(x)], [T.neg(y), x, T.ZERO]]
    return [[T.add(T.mul(c, num(int(i == j))), T.mul(C, u[i], u[j]), T.mul(s, k[i][j])) for j in range(3)] for i in range(3)]


def rotx(a):
    return [[T.ONE, T.ZERO, T.ZERO], [T.ZERO, cos(a), T.neg(sin(a))], [T.ZERO, sin(a), cos(a)]]


def roty(a):
    return [[cos(a), T.ZERO, sin(a)], [T.ZERO, T.ONE, T.ZERO], [T.neg(sin(a)), T.ZERO, cos(a)]]


def rotz(a):
    return [[cos(a), T.neg(sin(a)), T.ZERO], [sin(a), cos(a), T.ZERO], [T.ZERO, T.ZERO, T.ONE]]


ROT = {'X': rotx, 'Y': roty, 'Z': rotz}


def quat_mat(q):
    """rotation of a (not necessarily unit) quaternion, real part first"""
    w, x, y, z = q
    n = T.add(*[T.mul(a, a) for a in q])
    s = T.div(num(2), n)
    m = lambda a, b: T.mul(s, a, b)
    return [[T.sub(T.ONE, T.add(m(y, y), m(z, z))), T.sub(m(x, y), m(z, w)), T.add(m(x, z), m(y, w))],
            [T.add(m(x, y), m(z, w)), T.sub(T.ONE, T.add(m(x, x), m(z, z))), T.sub(m(y, z), m(x, w))],
            [T.sub(m(x, z), m(y, w)), T.add(m(y, z), m(x, w)), T.sub(T.ONE, T.add(m(x, x), m(y, y)))]]


def qmul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    M = T.mul
    return [T.sub(M(aw, bw), T.add(M(ax, bx), M(ay, by), M(az, bz))),
            T.add(M(aw, bx), M(ax, bw), M(ay, bz), T.neg(M(az, by))),
            T.add(M(aw, by), T.neg(M(ax, bz)), M(ay, bw), M(az, bx)),
            T.add(M(aw, bz), M(ax, by), T.neg(M(ay, bx)), M(az, bw))]


# ------------------------------------------------------------------ providers of interpretations
def _gauss(e, *k):
    u, v = e.h(*k, 'a'), e.h(*k, 'b')
    return math.sqrt(-2 * math.log(u + 1e-12)) * math.cos(2 * math.pi * v)


def rand_quat(e, *k):
    q = [_gauss(e, i, *k) for i in range(4)]
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


def qmat_num(q):
    w, x, y, z = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def p_rot(e, name, idx):
    """entries of a random rotation matrix (last two indices)"""
    key = ('rot', name) + tuple(idx[:-2])
    m = e.memo.get(key)
    if m is None:
        m = qmat_num(rand_quat(e, *key))
        e.memo[key] = m
    return m[idx[-2]][idx[-1]]


def p_rigid(e, name, idx):
    i, j = idx[-2], idx[-1]
    if i == 3:
        return float(j == 3)
    if j == 3:
        return (e.h(name, idx) * 2 - 1) * 1.3 * e.scale
    return p_rot(e, name, idx)


def p_unitquat(e, name, idx):
    key = ('uq', name) + tuple(idx[:-1])
    m = e.memo.get(key)
    if m is None:
        m = rand_quat(e, *key)
        e.memo[key] = m
    return m[idx[-1]]


def p_unitvec(e, name, idx):
    key = ('uv', name) + tuple(idx[:-1])
    m = e.memo.get(key)
    if m is None:
        v = [_gauss(e, i, *key) for i in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        m = [x / n for x in v]
        e.memo[key] = m
    return m[idx[-1]]


def p_pos(lo=0.2, hi=2.0):
    return lambda e, name, idx: lo + (hi - lo) * e.h(name, idx)


def p_range(lo, hi):
    return lambda e, name, idx: lo + (hi - lo) * e.h(name, idx)


def p_const(v):
    def f(e, name, idx):
        x = v
        for i in idx:
            if isinstance(x, (list, tuple)):
                x = x[i]
        return x
    return f


PROV = {'rot!*': p_rot, 'rigid!*': p_rigid, 'uq!*': p_unitquat, 'uv!*': p_unitvec, 'pos!*': p_pos(), 'ang!*': p_range(-3.0, 3.0)}


MAG = (1.0, 0.2, 4.0, 1.0, 0.6)


def envs(I, n=4, prov=None, seed0=0, scale=1.0):
    p = dict(PROV)
    p.update(prov or {})
    sd = int(os.environ.get('VERIF_SEED', '1') or 1)
    # magnitudes vary from point to point, so that a rule keyed to the size of an input shows
    return [T.Env('%d.%d' % (sd, seed0 + k), scale * MAG[(seed0 + k) % len(MAG)], p, None, I.where_ites, I.norms) for k in range(n)]


# ------------------------------------------------------------------ comparison
class Mismatch:
    def __init__(self, what, idx, got, want, env=None, gt=None, wt=None):
        self.what, self.idx, self.got, self.want, self.env = what, idx, got, want, env
        self.gt, self.wt = gt, wt

    def __str__(self):
        return '%s%s: computed %s, required %s' % (self.what, list(self.idx) if self.idx else '', _fmt(self.got), _fmt(self.want))


def _fmt(x):
    return '%.9g' % x if isinstance(x, float) else str(x)


def close(a, b, tol):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))


def indices(shape):
    """all index tuples with symbolic dimensions replaced by a generic row"""
    axes = []
    for k, d in enumerate(shape):
        if isinstance(d, int):
            axes.append([num(i) for i in range(d)])
        else:
            axes.append([_row(d, k)])
    return itertools.product(*axes)


_rows = {}


def _row(d, k):
    key = (d.id, k)
    r = _rows.get(key)
    if r is None:
        r = T.fresh('row', sort='I', rng=d)
        _rows[key] = r
    return r


class Cmp:
    """result of comparing value graphs: status 'equal' | 'differ' | 'unknown'"""

    def __init__(self):
        self.n = 0          # obligations
        self.proved = 0     # by normal form
        self.ri = 0         # by random interpretation only
        self.bad = []
        self.unknown = []
        self.points = 0

    def merge(self, o):
        self.n += o.n
        self.proved += o.proved
        self.ri += o.ri
        self.bad += o.bad
        self.unknown += o.unknown
        self.points += o.points
        return self

    @property
    def ok(self):
        return not self.bad


def cmp_terms(c, pairs, es, tol=1e-7, prove=True):
    """pairs: (what, idx, got term, want term)"""
    for what, idx, g, w in pairs:
        c.n += 1
        if g is w:
            c.proved += 1
            continue
        status = 'eq'
        for e in es:
            try:
                b = e.ev(w)
            except T.Undefined as u:
                status = 'unk'
                c.unknown.append('%s%s: specification undefined: %s' % (what, list(map(T.show, idx)), u))
                break
            try:
                a = e.ev(g)
            except T.Undefined as u:
                if str(u) == 'uninitialised memory':
                    c.bad.append(Mismatch(what, [T.show(i) for i in idx], 'uninitialised memory', b, e, g, w))
                    status = 'bad'
                else:
                    status = 'unk'
                    c.unknown.append('%s%s: %s' % (what, [T.show(i) for i in idx], u))
                break
            c.points += 1
            if not close(a, b, tol):
                c.bad.append(Mismatch(what, [T.show(i) for i in idx], a, b, e, g, w))
                status = 'bad'
                break
        if status == 'eq':
            if prove and try_nf(g, w):
                c.proved += 1
            else:
                c.ri += 1
    return c


def tsize(t, limit, seen=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > limit:
            return limit + 1
        st.extend(a for a in x.args if isinstance(a, T.Term))
    return len(seen)


NF_NODES = 250


def try_nf(g, w):
    if tsize(g, NF_NODES) > NF_NODES or tsize(w, NF_NODES) > NF_NODES:
        return False
    try:
        return T.equal(g, w) is True
    except T.TooBig:
        return False
    except RecursionError:
        return False


def cmp_tensor(c, I, what, t, shape, spec, es, tol=1e-7, prove=False, rows=None):
    """t: abstract value; shape: required shape (ints or Terms); spec(idx)->Term"""
    t = I.resolve(t)
    if isinstance(t, Unknown):
        c.n += 1
        c.unknown.append('%s: %s' % (what, t.reason))
        return c
    if isinstance(t, Gamma):
        # both alternatives have to satisfy the specification under their condition
        for cnd, v in ((t.c, t.a), (T.not_(t.c), t.b)):
            if cnd.unk:
                c.n += 1
                c.unknown.append('%s: unknown condition' % what)
                continue
            es2 = []
            for e in es:
                try:
                    if e.ev(cnd):
                        es2.append(e)
                except T.Undefined:
                    pass
            if es2:
                cmp_tensor(c, I, what, v, shape, spec, es2, tol, False, rows)
        return c
    if not isinstance(t, Tensor):
        c.n += 1
        c.bad.append(Mismatch(what, (), 'a value of type %s' % type(t).__name__, 'a tensor'))
        return c
    if shape is not None:
        shape = tuple(shape)
        if len(shape) != len(t.shape) or not all(same_dim(a, b) for a, b in zip(shape, t.shape)):
            c.n += 1
            c.bad.append(Mismatch(what, (), 'shape %s' % (_shp(t.shape),), 'shape %s' % (_shp(shape),)))
            return c
    r = I.reader(t)
    pairs = []
    for idx in indices(t.shape):
        g = r(idx)
        w = spec(idx)
        pairs.append((what, idx, g, w))
    return cmp_terms(c, pairs, es, tol, prove)


def _shp(s):
    return tuple(T.show(d) if isinstance(d, T.Term) else d for d in s)
