"""Models of torch tensors and of the torch functions/methods the analysed code uses."""
import math
from . import terms as T
from .terms import Term, num, TRUE, FALSE
from .values import *
from .values import dim as vdim

FUNCS = {}


def reg(*names):
    def deco(f):
        for n in names:
            FUNCS[n] = f
        return f
    return deco


# ------------------------------------------------------------------ helpers
def gd(I, t):
    g = getattr(t, 'gdep', frozenset())
    if isinstance(t, Tensor):
        g = g | I.cell_gdep.get(t.cell, frozenset())
    return g


def gjoin(I, ts):
    if getattr(I, 'no_grad', 0):
        return frozenset()
    out = frozenset()
    for t in ts:
        out |= gd(I, t)
    return out


def to_dev(d):
    if d is None:
        return None
    if isinstance(d, str):
        return Dev(d)
    if isinstance(d, Dev):
        return d
    raise Giveup('device %r' % (d,))


def to_dt(d):
    if d is None or isinstance(d, DT):
        return d
    if isinstance(d, Ext):
        n = d.name.split('.')[-1]
        return {'float': F32, 'float32': F32, 'double': F64, 'float64': F64, 'long': I64, 'int': DT('int32'), 'int64': I64,
                'bool': BOOL, 'int32': DT('int32'), 'half': DT('float16'), 'float16': DT('float16'), 'uint8': DT('uint8')}.get(n) or _gu('dtype %s' % n)
    if isinstance(d, Gamma):
        raise Giveup('conditional dtype')
    if isinstance(d, Prim) and d.name in ('float', 'int', 'bool'):
        return {'float': F64, 'int': I64, 'bool': BOOL}[d.name]
    raise Giveup('dtype %r' % (d,))


def _gu(s):
    raise Giveup(s)


def promote2(I, a, b, node):
    if a is b:
        return a
    if a.cat != b.cat:
        return a if a.cat > b.cat else b
    if a.cat == 2:
        if a.name.startswith('sym:') or b.name.startswith('sym:'):
            x, y = sorted((a.name, b.name))
            return DT('sym:mix(%s|%s)' % (x, y))
        order = ['float16', 'bfloat16', 'float32', 'float64']
        return DT(max((a.name, b.name), key=lambda n: order.index(n) if n in order else 2))
    return I64


def result_dtype(I, ops, node=None):
    A = [o.dtype for o in ops if isinstance(o, Masked) or (isinstance(o, Tensor) and o.shape)]
    Z = [o.dtype for o in ops if isinstance(o, Tensor) and not o.shape]
    S = [o for o in ops if not isinstance(o, (Tensor, Masked))]
    r = None
    for d in A:
        r = d if r is None else promote2(I, r, d, node)
    if r is None:
        for d in Z:
            r = d if r is None else promote2(I, r, d, node)
    else:
        for d in Z:
            if d.cat > r.cat:
                r = d
    for s in S:
        c = 2 if (isinstance(s, float) or (isinstance(s, Num) and s.kind == 'f')) else 0 if isinstance(s, (bool, SBool)) else 1
        if r is None or c > r.cat:
            r = {2: I.default_dtype, 1: I64, 0: BOOL}[c]
    ds = set(d for d in A if d.cat == 2)
    if len(ds) > 1:
        I.event('dtype_mix', node, dtypes=[d.name for d in A])
    return r


def result_device(I, ops, node=None):
    devs = []
    for o in ops:
        if isinstance(o, Masked) or (isinstance(o, Tensor) and o.kind == 'torch'):
            devs.append((o.device, isinstance(o, Tensor) and not o.shape))
    big = [d for d, z in devs if not z]
    if len(set(big)) > 1:
        I.event('device_mix', node, devices=sorted(d.name for d in set(big)))
    if big:
        r = next((d for d in big if d is not CPU), big[0])
        for d, z in devs:
            if z and d is not CPU and d is not r:
                I.event('device_mix', node, devices=sorted({d.name, r.name}))
        return r
    for d, z in devs:
        if d is not CPU:
            return d
    return CPU


def need_same_dtype(I, ops, node, what):
    ds = [o.dtype for o in ops]
    if any(d is not ds[0] for d in ds):
        I.event('dtype_error', node, dtypes=[d.name for d in ds], op=what)


def bshape(I, shapes, node=None):
    n = max([len(s) for s in shapes] or [0])
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = len(s) - n + k
            if j < 0:
                continue
            e = s[j]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
            elif not same_dim(d, e):
                raise AbsRaise('RuntimeError', node)
        out.append(d)
    return tuple(out)


def bidx(shape, idx):
    """index into an operand of `shape` from a broadcast index"""
    n = len(idx) - len(shape)
    return tuple(T.ZERO if (isinstance(d, int) and d == 1) else idx[n + k] for k, d in enumerate(shape))


def shp(t):
    return t.shape


def zidx(t):
    return tuple(T.ZERO for _ in t.shape)


def rd(I, t):
    """reader of tensor / masked / scalar as function of index"""
    if isinstance(t, Tensor):
        return I.reader(t)
    if isinstance(t, Masked):
        return t.fn
    from .interp import nterm
    if isinstance(t, SBool):
        return lambda idx: t.t
    if isinstance(t, bool):
        b = TRUE if t else FALSE
        return lambda idx: b
    x = nterm(t)
    return lambda idx: x


def as_num(x):
    """boolean terms to 0/1"""
    return T.ite(x, T.ONE, T.ZERO) if x.sort == 'B' else x


def as_bool(x):
    return x if x.sort == 'B' else T.not_(T.eq(x, T.ZERO))


def istens(v):
    return isinstance(v, (Tensor, Masked))


def scalar_ok(v):
    return isinstance(v, (bool, int, float, Num, SBool))


def mk(I, shape, fn, dtype, device, gdep=frozenset(), kind='torch', node=None):
    return I.tensor(shape, fn, dtype, device, gdep, kind)


def elementwise(I, f, ops, dtype=None, node=None, diff=True, device=None):
    """f(terms...) elementwise with broadcasting; ops tensors / masked / python scalars"""
    for o in ops:
        if isinstance(o, Unknown):
            return o
        if not istens(o) and not scalar_ok(o):
            return I.unk('elementwise on %s' % type(o).__name__)
    if any(isinstance(o, Masked) for o in ops):
        return masked_elementwise(I, f, ops, dtype, node, diff)
    dt = dtype or result_dtype(I, ops, node)
    dev = device or result_device(I, ops, node)
    ts = [o for o in ops if istens(o)]
    shape = bshape(I, [o.shape for o in ts], node)
    rs = [(rd(I, o), o.shape if istens(o) else ()) for o in ops]

    def fn(idx):
        return f(*[r(bidx(s, idx)) for r, s in rs])
    kind = 'numpy' if ts and all(t.kind == 'numpy' for t in ts) else 'torch'
    return mk(I, shape, fn, dt, dev, gjoin(I, ts) if diff else frozenset(), kind, node)


def masked_elementwise(I, f, ops, dtype, node, diff):
    ms = [o for o in ops if isinstance(o, Masked)]
    m = ms[0]
    rs = []
    for o in ops:
        if isinstance(o, Masked):
            if o.mkey != m.mkey:
                return I.unk('masked op with different masks')
            if len(o.shape) != len(m.shape):
                # align trailing dims: the compressed dimension is one dim
                return I.unk('masked op of different rank')
            rs.append((rd(I, o), o.shape, True))
        elif isinstance(o, Tensor):
            if len(o.shape) > len(m.shape) - m.mrank:
                if all(isinstance(d, int) and d == 1 for d in o.shape):
                    x = rd(I, o)(zidx(o))
                    rs.append((lambda idx, x=x: x, (), True))
                    continue
                return I.unk('masked op with dense tensor')
            rs.append((rd(I, o), o.shape, True))
        else:
            rs.append((rd(I, o), (), True))
    dt = dtype or result_dtype(I, ops, node)

    def fn(idx):
        return f(*[r(bidx(s, idx)) for r, s, _ in rs])
    return Masked(bshape(I, [s for _, s, _ in rs], node), fn, m.mask, m.mrank, dt, m.device, gjoin(I, [o for o in ops if istens(o)]) if diff else frozenset(), m.mkey, m.axis0)


def norm_axis(d, n, node=None):
    if isinstance(d, Num):
        raise Giveup('symbolic axis')
    if d is None:
        return None
    if not -n <= d < max(n, 1) + (1 if n == 0 else 0):
        raise AbsRaise('IndexError', node)
    return d % n if n else 0


def axes_arg(I, dimv, n, node=None):
    if dimv is None:
        return list(range(n))
    if isinstance(dimv, int):
        return [norm_axis(dimv, n, node)]
    c = I.concrete_list(dimv)
    if c is None:
        raise Giveup('axes')
    return [norm_axis(x, n, node) for x in c]


def shape_args(I, args):
    """shape given as ints or one sequence; returns list of dims (python int / Term)"""
    if len(args) == 1 and not isinstance(args[0], (int, Num)):
        c = I.concrete_list(args[0])
        if c is None:
            raise Giveup('shape argument')
        args = c
    out = []
    for a in args:
        a = I.resolve(a)
        if isinstance(a, Tensor):
            sync(I, a)
            a = item(I, a)
        out.append(vdim(a))
    return out


def sync(I, t, node=None, what='item'):
    """the program reads the value of a tensor as a python value"""
    if isinstance(t, Masked) or t.kind == 'torch':
        I.event('item', node, tensor=t, what=what)


def item(I, t, node=None):
    n = [d for d in t.shape if not (isinstance(d, int) and d == 1)]
    if n:
        raise AbsRaise('RuntimeError', node)
    x = rd(I, t)(zidx(t))
    if t.dtype.cat == 0:
        from .interp import mkbool
        return mkbool(as_bool(x))
    if x.sort == 'B':
        x = as_num(x)
    if x.op == 'num':
        return int(x.args[0]) if t.dtype.cat == 1 else float(x.args[0])
    if x.op == 'inf':
        return math.inf
    return Num(x, 'i' if t.dtype.cat == 1 else 'f')


def kw(args, kwargs, names, defaults=None):
    """bind positional+keyword arguments"""
    out = dict(zip(names, args))
    if len(args) > len(names):
        raise Giveup('arguments')
    for k, v in kwargs.items():
        out[k] = v
    return [out.get(n, (defaults or {}).get(n)) for n in names]


def creation(I, t, node, explicit_dtype, explicit_device, what):
    I.event('create', node, what=what, dtype=t.dtype, device=t.device, explicit_dtype=explicit_dtype, explicit_device=explicit_device, shape=t.shape)
    return t


# ------------------------------------------------------------------ views
def mkview(I, t, shape, f, finv, contig=False):
    """view of t: f maps view index to t index, finv maps t index to (cond, view index)"""
    of, oi = t.fwd, t.inv
    if of is None:
        nf, ni = f, finv
    else:
        nf = lambda idx: of(f(idx))

        def ni(idx):
            c, v = oi(idx)
            c2, v2 = finv(v)
            return T.and_(c, c2), v2
    r = Tensor(t.cell, tuple(shape), nf, ni, t.dtype, t.device, t.gdep if not getattr(I, 'no_grad', 0) else frozenset(), t.alias, t.kind)
    r.gdep = gd(I, t) if not getattr(I, 'no_grad', 0) else frozenset()
    r.contig = contig
    if I.sg and I.no_grad and gd(I, t):
        return mk(I, tuple(shape), I.reader(r), t.dtype, t.device, frozenset(), t.kind)
    return r


def is_contig(t):
    return t.fwd is None or getattr(t, 'contig', False)


def permute(I, t, perm):
    if isinstance(t, Masked):
        return I.unk('permute masked')
    perm = list(perm)
    inv = [perm.index(k) for k in range(len(perm))]
    return mkview(I, t, [t.shape[p] for p in perm], lambda idx: tuple(idx[inv[k]] for k in range(len(inv))),
                  lambda idx: (TRUE, tuple(idx[p] for p in perm)))


def unsqueeze(I, t, d):
    n = len(t.shape)
    if not -n - 1 <= d <= n:
        raise AbsRaise('IndexError')
    d = d % (n + 1)
    sh = t.shape[:d] + (1,) + t.shape[d:]
    return mkview(I, t, sh, lambda idx: idx[:d] + idx[d + 1:], lambda idx: (TRUE, idx[:d] + (T.ZERO,) + idx[d:]), is_contig(t))


def squeeze(I, t, d=None):
    if d is None:
        ds = [k for k, s in enumerate(t.shape) if isinstance(s, int) and s == 1]
    elif isinstance(d, int):
        d = norm_axis(d, len(t.shape))
        ds = [d] if t.shape and isinstance(t.shape[d], int) and t.shape[d] == 1 else []
    else:
        ds = [k for k in (norm_axis(x, len(t.shape)) for x in d) if t.shape[k] == 1]
    if isinstance(t, Masked):
        return t if not ds else I.unk('squeeze masked')
    keep = [k for k in range(len(t.shape)) if k not in ds]
    n = len(t.shape)

    def f(idx):
        out = [T.ZERO] * n
        for j, k in enumerate(keep):
            out[k] = idx[j]
        return tuple(out)
    return mkview(I, t, [t.shape[k] for k in keep], f, lambda idx: (TRUE, tuple(idx[k] for k in keep)), is_contig(t))


def expand(I, t, dims, node=None):
    dims = list(dims)
    n = len(dims)
    off = n - len(t.shape)
    if off < 0:
        raise AbsRaise('RuntimeError', node)
    sh = []
    for k, d in enumerate(dims):
        if k < off:
            sh.append(d)
            continue
        s = t.shape[k - off]
        if isinstance(d, int) and d == -1:
            sh.append(s)
        elif isinstance(s, int) and s == 1:
            sh.append(d)
        elif same_dim(s, d):
            sh.append(s)
        else:
            raise AbsRaise('RuntimeError', node)
    shape = t.shape

    def finv(idx):
        # writes into expanded views are not modelled precisely
        return TRUE, tuple([T.ZERO] * off) + tuple(idx)
    return mkview(I, t, sh, lambda idx: bidx(shape, idx), finv)


def prod_dims(ds):
    p = num(1)
    for d in ds:
        p = T.mul(p, dterm(d))
    return p


def numel(t):
    p = prod_dims(t.shape)
    return int(p.args[0]) if p.op == 'num' else p


def flatten_mul(t):
    return T._distribute(t) if t.op in ('mul', 'add') else t


def tdiv_exact(a, b):
    """a / b when b divides a syntactically"""
    if a is b:
        return num(1)
    if a.op == 'num' and b.op == 'num':
        if b.args[0] and (a.args[0] / b.args[0]).denominator == 1:
            return num(a.args[0] / b.args[0])
        return None
    return T._mono_div(a, b)


def reshape_groups(src, dst):
    """split two shapes into groups of equal size"""
    i = j = 0
    groups = []
    while i < len(src) or j < len(dst):
        if i < len(src) and isinstance(src[i], int) and src[i] == 1:
            groups.append(([i], []))
            i += 1
            continue
        if j < len(dst) and isinstance(dst[j], int) and dst[j] == 1:
            groups.append(([], [j]))
            j += 1
            continue
        if i >= len(src) or j >= len(dst):
            return None
        gi, gj = [i], [j]
        pi, pj = dterm(src[i]), dterm(dst[j])
        i += 1
        j += 1
        while not T.nf_same(pi, pj):
            # extend the smaller side
            if pi.op == 'num' and pj.op == 'num':
                left = pi.args[0] < pj.args[0]
            else:
                if tdiv_exact(pj, pi) is not None:
                    left = True
                elif tdiv_exact(pi, pj) is not None:
                    left = False
                elif i < len(src):
                    left = True
                else:
                    left = False
            if left:
                if i >= len(src):
                    if j >= len(dst):
                        return None
                    left = False
            elif j >= len(dst):
                if i >= len(src):
                    return None
                left = True
            if left:
                pi = T.mul(pi, dterm(src[i]))
                gi.append(i)
                i += 1
            else:
                pj = T.mul(pj, dterm(dst[j]))
                gj.append(j)
                j += 1
        groups.append((gi, gj))
    return groups


def _remap(groups, src, dst, side):
    """map from dst index to src index (side=0) or src to dst (side=1)"""
    def f(idx):
        out = [T.ZERO] * (len(src) if side == 0 else len(dst))
        for gi, gj in groups:
            a, b = (gj, gi) if side == 0 else (gi, gj)       # from a to b
            da, db = (dst, src) if side == 0 else (src, dst)
            if not b:
                continue
            if not a:
                for k in b:
                    out[k] = T.ZERO
                continue
            if len(a) == 1 and len(b) == 1:
                out[b[0]] = idx[a[0]]
                continue
            flat = idx[a[0]]
            for k in a[1:]:
                flat = T.add(T.mul(flat, dterm(da[k])), idx[k])
            flat = T.lift_flat(flat)
            if len(b) == 1:
                out[b[0]] = flat
                continue
            rem = flat
            for k in reversed(b[1:]):
                out[k] = T.fn('mod', rem, dterm(db[k]))
                rem = T.fn('idiv', rem, dterm(db[k]))
            out[b[0]] = rem
        return tuple(out)
    return f


def reshape(I, t, dims, node=None, must_view=False):
    dims = list(dims)
    if isinstance(t, Masked):
        return I.unk('reshape of a masked selection')
    neg = [k for k, d in enumerate(dims) if isinstance(d, int) and d == -1]
    total = prod_dims(t.shape)
    if len(neg) > 1:
        raise AbsRaise('RuntimeError', node)
    if neg:
        known = prod_dims([d for k, d in enumerate(dims) if k not in neg])
        if known.op == 'num' and known.args[0] == 0:
            raise AbsRaise('RuntimeError', node)
        q = tdiv_exact(total, known)
        if q is None:
            x = T.fn('idiv', total, known)
            if total.op == 'num' and known.op == 'num':
                raise AbsRaise('RuntimeError', node)
            q = x
        dims[neg[0]] = vdim(Num(q, 'i')) if q.op == 'num' else q
    else:
        p = prod_dims(dims)
        if not T.nf_same(p, total):
            if p.op == 'num' and total.op == 'num':
                raise AbsRaise('RuntimeError', node)
            raise AbsRaise('RuntimeError', node)
    src, dst = t.shape, tuple(dims)
    if len(src) == len(dst) and all(same_dim(a, b) for a, b in zip(src, dst)):
        return mkview(I, t, src, lambda idx: idx, lambda idx: (TRUE, idx), is_contig(t))
    g = reshape_groups(src, dst)
    if g is None:
        g = [(list(range(len(src))), list(range(len(dst))))]
    f = _remap(g, src, dst, 0)
    fi = _remap(g, src, dst, 1)
    if is_contig(t) or must_view or all(len(a) == 1 and len(b) == 1 or not a or not b for a, b in g):
        return mkview(I, t, dst, f, lambda idx: (TRUE, fi(idx)), is_contig(t))
    r = I.reader(t)
    out = mk(I, dst, lambda idx: r(f(idx)), t.dtype, t.device, gjoin(I, [t]), t.kind)
    return out


# ------------------------------------------------------------------ indexing
def concrete_bool(I, t):
    """nested positions where a concrete boolean tensor is true, or None"""
    import itertools
    if not all(isinstance(d, int) for d in t.shape):
        return None
    r = I.reader(t)
    out = []
    for p in itertools.product(*[range(d) for d in t.shape]):
        x = as_bool(r(tuple(num(i) for i in p)))
        if x is TRUE:
            out.append(p)
        elif x is not FALSE:
            d = I.decide(x)
            if d is None:
                return None
            if d:
                out.append(p)
    return out


def int_tensor(I, vals):
    vals = list(vals)
    ts = [num(v) for v in vals]
    return mk(I, (len(vals),), lambda idx: pick(ts, idx[0]), I64, CPU)


def pick(ts, i):
    if i.op == 'num':
        k = int(i.args[0])
        return ts[k]
    if not ts:
        return T.unknown('index into empty')
    out = ts[-1]
    for k in range(len(ts) - 2, -1, -1):
        out = T.ite(T.eq(i, num(k)), ts[k], out)
    return out


def norm_key(I, t, k, mask_sync=True):
    if not isinstance(k, tuple):
        k = (k,)
    out = []
    for x in k:
        x = I.resolve(x)
        if isinstance(x, Unknown):
            raise Giveup('unknown index: ' + x.reason)
        if isinstance(x, (ListV, tuple, range)):
            c = I.concrete_list(x)
            if c is None:
                raise Giveup('symbolic list index')
            if all(isinstance(y, bool) for y in c) and c:
                x = bool_list(I, c)
            else:
                x = tensor_from(I, x, I64, CPU, None)
        if isinstance(x, Tensor) and x.kind == 'numpy':
            pass
        if isinstance(x, Tensor) and not x.shape and x.dtype.cat == 1:
            x = item(I, x)
        out.append(x)
    # expand concrete bool masks into integer lists
    res = []
    for x in out:
        if isinstance(x, Tensor) and x.dtype is BOOL:
            pos = concrete_bool(I, x)
            if pos is not None:
                if mask_sync:
                    sync(I, x, None, 'boolean mask')
                for d in range(len(x.shape)):
                    y = int_tensor(I, [p[d] for p in pos])
                    y.leaf = 'nz'
                    res.append(y)
                continue
        res.append(x)
    n = len(t.shape)
    used = 0
    for x in res:
        if x is None or x is Ellipsis or isinstance(x, (bool, SBool)):
            continue
        if isinstance(x, Tensor) and x.dtype is BOOL:
            used += len(x.shape)
        else:
            used += 1
    if used > n:
        raise AbsRaise('IndexError')
    if not any(x is Ellipsis for x in res):
        res.append(Ellipsis)
    e = next(i for i, x in enumerate(res) if x is Ellipsis)
    res = res[:e] + [Slice(None, None, None)] * (n - used) + [x for x in res[e + 1:] if x is not Ellipsis]
    return res


def bool_list(I, c):
    ts = [TRUE if x else FALSE for x in c]
    return mk(I, (len(c),), lambda idx: pick(ts, idx[0]), BOOL, CPU, kind="numpy")


def slice_of(I, s, d):
    """(start Term, step int, size)"""
    from .interp import nterm
    lo, hi, st = s.lo, s.hi, s.step
    st = 1 if st is None else st
    if isinstance(lo, Tensor):
        sync(I, lo)
        lo = item(I, lo)
    if isinstance(hi, Tensor):
        sync(I, hi)
        hi = item(I, hi)
    if isinstance(d, int) and all(isinstance(x, (int, type(None))) for x in (lo, hi, st)):
        a, b, c = slice(lo, hi, st).indices(d)
        n = max(0, (b - a + (c - (1 if c > 0 else -1))) // c)
        return num(a), c, n
    if st != 1:
        raise Giveup('strided slice of symbolic dimension')
    D = dterm(d)

    def pos(x, default):
        if x is None:
            return default
        if isinstance(x, int):
            return num(x) if x >= 0 else T.add(D, num(x))
        return nterm(x)
    a, b = pos(lo, T.ZERO), pos(hi, D)
    if isinstance(hi, int) and isinstance(d, Term) and hi > 1:
        # x[:k] of a generic dimension: may be shorter than k
        pass
    sz = T._distribute(T.sub(b, a))
    if sz.op == 'num' and sz.args[0] < 0:
        sz = num(0)
    return a, 1, vdim(Num(sz, 'i')) if sz.op == 'num' else sz


def basic_view(I, t, key, node):
    """apply ints / slices / None of key (advanced entries kept as full dimensions); returns (view, remaining adv map)"""
    n = len(t.shape)
    src = 0
    outdims = []     # (kind, srcdim, start, step)
    fixed = {}
    adv = {}
    for x in key:
        if x is None:
            outdims.append(('new', None, None, None, 1))
        elif isinstance(x, Slice):
            a, st, sz = slice_of(I, x, t.shape[src])
            outdims.append(('dim', src, a, st, sz))
            src += 1
        elif isinstance(x, bool):
            raise Giveup('bool index')
        elif isinstance(x, (int, Num)):
            d = t.shape[src]
            from .interp import nterm
            if isinstance(x, int) and isinstance(d, int):
                if not -d <= x < d:
                    raise AbsRaise('IndexError', node)
                v = num(x % d)
            elif isinstance(x, int):
                v = num(x) if x >= 0 else T.add(dterm(d), num(x))
            else:
                v = nterm(x)
            fixed[src] = v
            src += 1
        elif isinstance(x, Tensor):
            k = len(x.shape) if x.dtype is BOOL else 1
            adv[len(outdims)] = x
            for j in range(k):
                outdims.append(('dim', src, T.ZERO, 1, t.shape[src]))
                src += 1
        else:
            raise Giveup('index %s' % type(x).__name__)
    trivial = not fixed and all(o[0] == 'dim' and o[2] is T.ZERO and o[3] == 1 and o[4] is t.shape[o[1]] or
                                (o[0] == 'dim' and o[2] is T.ZERO and o[3] == 1 and same_dim(o[4], t.shape[o[1]])) for o in outdims)
    if trivial:
        v = mkview(I, t, t.shape, lambda idx: idx, lambda idx: (TRUE, idx), is_contig(t)) if isinstance(t, Tensor) else t
        return v, adv
    shape = [o[4] for o in outdims]

    def f(idx):
        out = [None] * n
        for k, v in fixed.items():
            out[k] = v
        for j, o in enumerate(outdims):
            if o[0] == 'dim':
                i = idx[j]
                out[o[1]] = i if (o[2] is T.ZERO and o[3] == 1) else T.add(o[2], T.mul(num(o[3]), i))
        return tuple(out)

    def finv(idx):
        c = TRUE
        for k, v in fixed.items():
            c = T.and_(c, T.eq(idx[k], v))
        out = []
        for o in outdims:
            if o[0] == 'new':
                out.append(T.ZERO)
                continue
            i = idx[o[1]]
            if o[2] is T.ZERO and o[3] == 1:
                out.append(i)
                if not same_dim(o[4], t.shape[o[1]]):
                    c = T.and_(c, T.lt(i, dterm(o[4])))
            elif o[3] == 1:
                j = T.sub(i, o[2])
                c = T.and_(c, T.ge(i, o[2]), T.lt(j, dterm(o[4])))
                out.append(j)
            else:
                j = T.fn('idiv', T.sub(i, o[2]), num(o[3]))
                c = T.and_(c, T.eq(T.add(o[2], T.mul(num(o[3]), j)), i), T.ge(j, T.ZERO), T.lt(j, dterm(o[4])))
                out.append(j)
        return c, tuple(out)
    # contiguity: leading-dimension selections keep a contiguous block
    contig = is_contig(t) and set(fixed) == set(range(len(fixed))) and all(
        o[0] == 'new' or (o[2] is T.ZERO and o[3] == 1 and same_dim(o[4], t.shape[o[1]])) for o in outdims)
    if isinstance(t, Masked):
        if any(k >= t.axis0 and k < t.axis0 + t.mrank for k in fixed) :
            raise Giveup('index into masked dimension')
        ff = t.fn
        # masked dims must stay full
        ax = t.axis0 - len([k for k in fixed if k < t.axis0]) + len([1 for j, o in enumerate(outdims) if o[0] == 'new' and j < t.axis0])
        return Masked(tuple(shape), lambda idx: ff(f(idx)), t.mask, t.mrank, t.dtype, t.device, t.gdep, t.mkey, ax), adv
    return mkview(I, t, shape, f, finv, contig), adv


def getitem(I, t, k, node=None):
    if isinstance(t, Masked):
        # the compressed selection has its mask dims collapsed into one; keep base coordinates
        kk = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, Tensor) for x in kk):
            return I.unk('index into masked selection')
        # key counts collapsed dims as one: expand
        res = []
        pos = 0
        n_real = len(t.shape) - t.mrank + 1
        used = sum(1 for x in kk if x is not None and x is not Ellipsis)
        if Ellipsis in [x for x in kk if not isinstance(x, Tensor)]:
            pass
        key = []
        for x in kk:
            if x is Ellipsis:
                key += [Slice(None, None, None)] * (n_real - used)
            else:
                key.append(x)
        cnt = sum(1 for x in key if x is not None)
        key += [Slice(None, None, None)] * (n_real - cnt)
        for x in key:
            if x is None:
                res.append(x)
                continue
            if pos == t.axis0:
                if not (isinstance(x, Slice) and x.lo is None and x.hi is None):
                    return I.unk('index into masked dimension')
                res += [Slice(None, None, None)] * t.mrank
            else:
                res.append(x)
            pos += 1
        v, adv = basic_view(I, t, res, node)
        return v
    try:
        key = norm_key(I, t, k)
        v, adv = basic_view(I, t, key, node)
    except AbsRaise as e:
        e.node = e.node or node
        raise
    if not adv:
        return v
    return advanced_get(I, v, adv, node)


def index_term(I, x, d):
    """wrap negative concrete indices"""
    if x.op == 'num':
        if isinstance(d, int):
            i = int(x.args[0])
            if not -d <= i < d:
                raise AbsRaise('IndexError')
            return num(i % d)
        return x if x.args[0] >= 0 else T.add(dterm(d), x)
    if x.op == 'ite':
        return T.ite(x.args[0], index_term(I, x.args[1], d), index_term(I, x.args[2], d))
    return x


def adv_plan(I, v, adv):
    """positions and index readers for integer-array indexing"""
    pos = sorted(adv)
    xs = [adv[p] for p in pos]
    S = bshape(I, [x.shape for x in xs])
    adj = pos == list(range(pos[0], pos[0] + len(pos)))
    at = pos[0] if adj else 0
    rs = [(I.reader(x), x.shape) for x in xs]
    rest = [k for k in range(len(v.shape)) if k not in pos]
    shape = [v.shape[k] for k in rest]
    nb = len([k for k in rest if k < at]) if adj else 0
    shape = shape[:nb] + list(S) + shape[nb:]
    ns = len(S)

    def f(idx):
        si = idx[nb:nb + ns]
        ri = idx[:nb] + idx[nb + ns:]
        out = [None] * len(v.shape)
        for k, i in zip(rest, ri):
            out[k] = i
        for p, (r, s) in zip(pos, rs):
            out[p] = index_term(I, as_num(r(bidx(s, si))), v.shape[p])
        return tuple(out)
    return pos, S, nb, ns, rest, shape, f


def check_index_bounds(I, v, adv):
    import itertools
    for p, x in adv.items():
        if all(isinstance(d, int) for d in x.shape) and isinstance(v.shape[p], int):
            r = I.reader(x)
            for q in itertools.product(*[range(d) for d in x.shape]):
                t = r(tuple(num(i) for i in q))
                if t.op == 'num':
                    index_term(I, t, v.shape[p])


def advanced_get(I, v, adv, node):
    bools = [p for p in adv if adv[p].dtype is BOOL]
    if bools:
        if len(adv) > 1:
            return I.unk('mixed boolean and integer indexing')
        p = bools[0]
        m = adv[p]
        mr = I.reader(m)
        n = len(m.shape)
        # mask of lower extent 1 cannot broadcast in torch
        for a, b in zip(m.shape, v.shape[p:p + n]):
            if not same_dim(a, b):
                raise AbsRaise('IndexError', node)
        mask = lambda idx: as_bool(mr(tuple(idx[p:p + n])))
        canon = tuple(T.atom('mi!%d' % j) for j in range(n))
        if n == 0:
            return I.unk('0-dim mask')
        try:
            mkey = (p, n, as_bool(mr(canon)).id)
        except Exception:
            mkey = (p, n, m.cell, id(m))
        sync(I, m, node, 'boolean mask')
        return Masked(v.shape, I.reader(v), mask, n, v.dtype, v.device, gjoin(I, [v]), mkey, p)
    check_index_bounds(I, v, adv)
    pos, S, nb, ns, rest, shape, f = adv_plan(I, v, adv)
    r = I.reader(v)
    out = mk(I, shape, lambda idx: r(f(idx)), v.dtype, v.device, gjoin(I, [v]), v.kind)
    for x in adv.values():
        if isinstance(x, Tensor) and x.kind == 'torch' and x.leaf != 'nz' and x.device is not v.device and x.device is not CPU:
            I.event('device_mix', node, devices=sorted({x.device.name, v.device.name}))
    return out


def setitem(I, t, k, v, node=None):
    try:
        key = norm_key(I, t, k, False)
        view, adv = basic_view(I, t, key, node)
    except AbsRaise as e:
        e.node = e.node or node
        raise
    v = I.resolve(v)
    if t.kind == 'torch' and (isinstance(v, (ListV, tuple)) or isinstance(v, Tensor) and v.kind == 'numpy'):
        raise AbsRaise('TypeError', node)
    if isinstance(v, (ListV, tuple)):
        v = tensor_from(I, v, t.dtype, t.device, node)
    if not adv:
        store(I, view, v, node)
        return
    bools = [p for p in adv if adv[p].dtype is BOOL]
    if bools:
        if len(adv) > 1:
            store(I, view, Unknown('mixed mask store'), node)
            return
        p = bools[0]
        m = adv[p]
        n = len(m.shape)
        for a, b in zip(m.shape, view.shape[p:p + n]):
            if not same_dim(a, b):
                raise AbsRaise('IndexError', node)
        mr = I.reader(m)
        old = I.reader(view)
        if isinstance(v, Masked):
            canon = tuple(T.atom('mi!%d' % j) for j in range(n))
            mkey = (p, n, as_bool(mr(canon)).id)
            if v.mkey != mkey:
                store(I, view, Unknown('masked store of another selection'), node)
                return
            vr, vs = v.fn, v.shape
        elif isinstance(v, Tensor):
            vr, vs = I.reader(v), v.shape
            if len(vs) > len(view.shape) - n - p or any(not (isinstance(d, int) and d == 1) for d in vs[:max(0, len(vs) - (len(view.shape) - n - p))]):
                if not all(isinstance(d, int) and d == 1 for d in vs):
                    store(I, view, Unknown('dense store through mask'), node)
                    return
                vs = ()
                x0 = I.reader(v)(zidx(v))
                vr = lambda idx: x0
        elif scalar_ok(v):
            vr, vs = rd(I, v), ()
        else:
            store(I, view, Unknown('mask store'), node)
            return
        full = mk(I, view.shape, lambda idx: T.ite(as_bool(mr(tuple(idx[p:p + n]))), vr(bidx(vs, idx)), old(idx)), view.dtype, view.device,
                  gjoin(I, [v]) if istens(v) else frozenset())
        store(I, view, full, node, partial=True)
        return
    check_index_bounds(I, view, adv)
    pos, S, nb, ns, rest, shape, f = adv_plan(I, view, adv)
    if istens(v):
        vr, vs = rd(I, v), v.shape
        b = bshape(I, [vs, tuple(shape)], node)
        if len(b) != len(shape) or not all(same_dim(x, y) for x, y in zip(b, shape)):
            raise AbsRaise('RuntimeError', node)
    elif scalar_ok(v):
        vr, vs = rd(I, v), ()
    else:
        store(I, view, v if isinstance(v, Unknown) else Unknown('store'), node)
        return
    if not all(isinstance(d, int) for d in S):
        # symbolic list of positions: only injective index maps 0..n-1 are handled
        store(I, view, Unknown('scatter through a symbolic index list'), node)
        return
    import itertools
    old = I.reader(view)
    rs = [(I.reader(adv[p]), adv[p].shape) for p in pos]
    ents = []
    for q in itertools.product(*[range(d) for d in S]):
        qi = tuple(num(i) for i in q)
        tgt = [index_term(I, as_num(r(bidx(s, qi))), view.shape[p]) for p, (r, s) in zip(pos, rs)]
        ents.append((qi, tgt))

    def fn(idx):
        out = old(idx)
        ri = tuple(idx[k] for k in rest)
        for qi, tgt in ents:
            c = T.and_(*[T.eq(idx[p], x) for p, x in zip(pos, tgt)])
            if c is FALSE:
                continue
            out = T.ite(c, vr(bidx(vs, ri[:nb] + qi + ri[nb:])), out)
        return out
    full = mk(I, view.shape, fn, view.dtype, view.device, gjoin(I, [v]) if istens(v) else frozenset())
    store(I, view, full, node, partial=True, stored=v)


def store(I, t, r, node=None, partial=False, stored=None):
    """write r (broadcast) through the view t"""
    for c in t.alias | {t.cell}:
        if c in I.input_cells:
            I.event('mutate', node, cell=I.input_cells[c])
    if isinstance(r, Masked):
        r = Unknown('store of a masked selection')
    if isinstance(r, Gamma):
        I.lift(r, lambda x: store(I, t, x, node, partial))
        return
    if isinstance(r, Tensor):
        s = stored if stored is not None and istens(stored) else r
        if isinstance(s, Tensor) and s.dtype is not t.dtype and s.dtype.cat == 2 and t.dtype.cat == 2 and not partial or \
                (stored is not None and istens(stored) and stored.dtype is not t.dtype and stored.dtype.cat == 2):
            I.event('dtype_store', node, dtypes=[s.dtype.name, t.dtype.name])
        b = bshape(I, [r.shape, t.shape], node)
        if not all(same_dim(x, y) for x, y in zip(b[len(b) - len(t.shape):], t.shape)) or \
                any(not (isinstance(d, int) and d == 1) for d in b[:len(b) - len(t.shape)]):
            raise AbsRaise('RuntimeError', node)
        rr0, rs = I.reader(r), r.shape
        drop = max(0, len(rs) - len(t.shape))
        rr = lambda idx: rr0(tuple([T.ZERO] * drop) + bidx(rs[drop:], idx))
        g = gjoin(I, [r])
        if g:
            I.cell_gdep[t.cell] = I.cell_gdep.get(t.cell, frozenset()) | g
        if r.kind == 'torch' and t.kind == 'torch' and r.shape and r.device is not t.device and not partial:
            I.event('device_store', node, devices=[r.device.name, t.device.name])
    elif scalar_ok(r):
        q = rd(I, r)
        rr = lambda idx: q(idx)
    elif isinstance(r, Unknown):
        rr = lambda idx: T.unknown(r.reason)
    elif r is None:
        raise AbsRaise('TypeError', node)
    else:
        rr = lambda idx: T.unknown('store of %s' % type(r).__name__)
    if t.dtype is BOOL:
        rb = rr
        rr = lambda idx: as_bool(rb(idx))
    elif t.dtype.cat >= 1:
        rb2 = rr
        rr = lambda idx: as_num(rb2(idx))
    old = I.get(t.cell)[1]
    inv = t.inv
    from .interp import memo
    if inv is None:
        I.put(t.cell, ('C', memo(lambda idx: rr(idx))))
    else:
        def fn(idx):
            c, v = inv(idx)
            if c is FALSE:
                return old(idx)
            return T.ite(c, rr(v), old(idx))
        I.put(t.cell, ('C', memo(fn)))
    if len(t.alias) > 1:
        I.event('alias_store', node)


def havoc_cell(I, t, reason):
    store(I, t, Unknown(reason), None)


# ------------------------------------------------------------------ operators
def unary(I, op, v):
    if op == 'USub':
        return elementwise(I, lambda x: T.neg(as_num(x)), [v])
    if op == 'Invert':
        if v.dtype.cat == 0:
            return elementwise(I, lambda x: T.not_(as_bool(x)), [v], BOOL, diff=False)
        return I.unk('bitwise not')
    if op == 'UAdd':
        return v
    return I.unk('unary ' + op)


def tmax(a, b):
    return T.ite(T.lt(a, b), b, a)


def tmin(a, b):
    return T.ite(T.lt(b, a), b, a)


def _pow_term(x, e):
    if e.op == 'num':
        v = e.args[0]
        if v.denominator == 1:
            return T.pw(x, int(v))
        if v * 2 == int(v * 2):
            s = T.fn('sqrt', x)
            return T.pw(s, int(v * 2))
    return T.fn('pow', x, e)


def binary(I, op, a, b, node):
    if isinstance(b, (ListV, tuple)) and isinstance(a, Tensor) and a.kind == 'numpy':
        b = tensor_from(I, b, None, CPU, node, kind='numpy')
    if isinstance(a, (ListV, tuple)) and isinstance(b, Tensor) and b.kind == 'numpy':
        a = tensor_from(I, a, None, CPU, node, kind='numpy')
    for x in (a, b):
        if x is None or isinstance(x, (str, ListV, DictV, tuple)):
            raise AbsRaise('TypeError', node)
        if isinstance(x, Obj):
            return I.unk('tensor op object')
    if op == 'MatMult':
        return matmul(I, a, b, node)
    A = as_num
    if op == 'Add':
        if _allbool(a, b):
            return elementwise(I, lambda x, y: T.or_(as_bool(x), as_bool(y)), [a, b], BOOL, node, False)
        return elementwise(I, lambda x, y: T.add(A(x), A(y)), [a, b], None, node)
    if op == 'Sub':
        return elementwise(I, lambda x, y: T.sub(A(x), A(y)), [a, b], None, node)
    if op == 'Mult':
        if _allbool(a, b):
            return elementwise(I, lambda x, y: T.and_(as_bool(x), as_bool(y)), [a, b], BOOL, node, False)
        return elementwise(I, lambda x, y: T.mul(A(x), A(y)), [a, b], None, node)
    if op == 'Div':
        d = result_dtype(I, [a, b], node)
        if d.cat < 2:
            d = I.default_dtype
        return elementwise(I, lambda x, y: T.div(A(x), A(y)), [a, b], d, node)
    if op == 'FloorDiv':
        d = result_dtype(I, [a, b], node)
        if d.cat == 1:
            return elementwise(I, lambda x, y: T.fn('idiv', A(x), A(y)), [a, b], d, node, False)
        return elementwise(I, lambda x, y: T.fn('floor', T.div(A(x), A(y))), [a, b], d, node)
    if op == 'Mod':
        d = result_dtype(I, [a, b], node)
        if d.cat == 1:
            return elementwise(I, lambda x, y: T.fn('mod', A(x), A(y)), [a, b], d, node, False)
        return elementwise(I, lambda x, y: T.sub(A(x), T.mul(A(y), T.fn('floor', T.div(A(x), A(y))))), [a, b], d, node)
    if op == 'Pow':
        return elementwise(I, lambda x, y: _pow_term(A(x), A(y)), [a, b], None, node)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if not all((istens(x) and x.dtype.cat == 0) or isinstance(x, (bool, SBool)) for x in (a, b)):
            return I.unk('bitwise op on numbers')
        f = {'BitAnd': T.and_, 'BitOr': T.or_, 'BitXor': lambda x, y: T.not_(T.eq(x, y))}[op]
        return elementwise(I, lambda x, y: f(as_bool(x), as_bool(y)), [a, b], BOOL, node, False)
    return I.unk('tensor op ' + op)


def _allbool(a, b):
    return all((istens(x) and x.dtype.cat == 0) or isinstance(x, (bool, SBool)) for x in (a, b))


def compare(I, op, a, b, node):
    A = as_num
    if op in ('Eq', 'NotEq'):
        f = lambda x, y: T.eq(x, y) if x.sort == y.sort else T.eq(A(x), A(y))
        if op == 'NotEq':
            g = f
            f = lambda x, y: T.not_(g(x, y))
    else:
        h = {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge}[op]
        f = lambda x, y: h(A(x), A(y))
    for x in (a, b):
        if not istens(x) and not scalar_ok(x):
            return I.unk('tensor comparison with %s' % type(x).__name__)
    return elementwise(I, f, [a, b], BOOL, node, False)


def contract(I, n, f):
    """sum_{k<n} f(k)"""
    if isinstance(n, int):
        return T.add(*[f(num(k)) for k in range(n)]) if n else T.ZERO
    v = T.fresh('s', rng=n)
    return T.tosum(v, n, f(v))


def matmul(I, a, b, node=None):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return I.unk('matmul of masked selection')
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        return I.unk('matmul operand %s %s' % (type(a).__name__, type(b).__name__))
    need_same_dtype(I, [a, b], node, 'matmul')
    dev = result_device(I, [a, b], node)
    ra, rb = I.reader(a), I.reader(b)
    sa, sb = a.shape, b.shape
    va, vb = len(sa) == 1, len(sb) == 1
    if not sa or not sb:
        raise AbsRaise('RuntimeError', node)
    if va:
        sa = (1,) + sa
        r0 = ra
        ra = lambda idx: r0(idx[1:])
    if vb:
        sb = sb + (1,)
        r1 = rb
        rb = lambda idx: r1(idx[:-1])
    if not same_dim(sa[-1], sb[-2]):
        raise AbsRaise('RuntimeError', node)
    bs = bshape(I, [sa[:-2], sb[:-2]], node)
    n = sa[-1]

    def fn(idx):
        bi, i, j = idx[:-2], idx[-2], idx[-1]
        ai, bi2 = bidx(sa[:-2], bi), bidx(sb[:-2], bi)
        return contract(I, n, lambda k: T.mul(as_num(ra(ai + (i, k))), as_num(rb(bi2 + (k, j)))))
    shape = tuple(bs) + (sa[-2], sb[-1])
    if va:
        g = fn
        shape = shape[:-2] + shape[-1:]
        fn = lambda idx: g(idx[:-1] + (T.ZERO,) + idx[-1:])
    if vb:
        h = fn
        shape = shape[:-1]
        fn = lambda idx: h(idx + (T.ZERO,))
    dt = promote2(I, a.dtype, b.dtype, node)
    return mk(I, shape, fn, dt, dev, gjoin(I, [a, b]), 'numpy' if a.kind == b.kind == 'numpy' else 'torch')


# ------------------------------------------------------------------ constructors
def nest_shape(I, v):
    v = I.resolve(v)
    if isinstance(v, Gamma):
        raise Giveup('conditional tensor data')
    if isinstance(v, (tuple, ListV, range)):
        c = I.concrete_list(v)
        if c is None:
            segs = I.segs(v) if isinstance(v, ListV) else None
            if segs is not None and len(segs) == 1 and segs[0].kind == 'map' and segs[0].cond is TRUE:
                return ('map', segs[0])
            raise Giveup('tensor of a symbolic list')
        return ('list', c)
    if isinstance(v, Tensor):
        return ('tensor', v)
    return ('leaf', v)


def tensor_from(I, v, dtype, device, node, kind='torch'):
    """torch.tensor(nested python data)"""
    from .interp import nterm
    dts = []

    def build(x):
        k, y = nest_shape(I, x)
        if k == 'leaf':
            if isinstance(y, (str, SStr)) and kind == 'numpy' and dtype is not None:
                from .pylib import BUILTINS
                y = BUILTINS['float'].f(I, [y], {}, node)
                if isinstance(y, Unknown):
                    raise Giveup('number in text')
            if y is None or isinstance(y, (str, SStr)):
                raise AbsRaise('TypeError' if y is not None else 'RuntimeError', node)
            if isinstance(y, Unknown):
                t = T.unknown(y.reason)
                dts.append(F32)
                return (), lambda idx: t
            if isinstance(y, (bool, SBool)):
                dts.append(BOOL)
                t = y.t if isinstance(y, SBool) else (TRUE if y else FALSE)
            elif scalar_ok(y):
                dts.append(I64 if (isinstance(y, int) or (isinstance(y, Num) and y.kind == 'i')) else I.default_dtype if kind == 'torch' else F64)
                t = nterm(y)
            else:
                raise Giveup('tensor element %s' % type(y).__name__)
            return (), lambda idx: t
        if k == 'tensor':
            dts.append(y.dtype)
            if kind == 'torch' or y.kind == 'torch':
                sync(I, y, node, 'tensor of tensors')
            r = I.reader(y)
            return y.shape, r
        if k == 'map':
            s = y
            sh, f = build(s.v)
            var = s.var

            def g(idx):
                return T.subst(f(idx[1:]), {var.id: idx[0]})
            return (s.n,) + tuple(sh), g
        subs = [build(z) for z in y]
        if not subs:
            return (0,), lambda idx: T.unknown('element of empty tensor')
        sh = subs[0][0]
        for s, _ in subs[1:]:
            if len(s) != len(sh) or not all(same_dim(p, q) for p, q in zip(s, sh)):
                raise AbsRaise('ValueError', node)
        fs = [f for _, f in subs]

        def g(idx):
            i = idx[0]
            if i.op == 'num':
                return fs[int(i.args[0])](idx[1:])
            ts = [f(idx[1:]) for f in fs]
            return pick(ts, i)
        return (len(subs),) + tuple(sh), g
    sh, f = build(v)
    dt = to_dt(dtype)
    if dt is None:
        dt = None
        for d in dts:
            dt = d if dt is None else (promote2(I, dt, d, node))
        dt = dt or I.default_dtype
    if dt.cat == 0:
        g = lambda idx: as_bool(f(idx))
    else:
        g = lambda idx: as_num(f(idx))
        if dt.cat == 1 and any(d.cat == 2 for d in dts):
            g = lambda idx: T.fn('trunc', as_num(f(idx)))
    return mk(I, sh, g, dt, device or CPU, frozenset(), kind)


@reg('torch.as_tensor', 'torch.asarray')
def f_as_tensor(I, args, kwargs, node):
    v, dtype, device = kw(args, {k: x for k, x in kwargs.items()}, ['data', 'dtype', 'device'])
    v = I.resolve(v)
    if isinstance(v, Gamma):
        return I.lift(v, lambda x: f_as_tensor(I, [x], dict(dtype=dtype, device=device), node))
    if isinstance(v, Tensor) and v.kind == 'torch':
        k = {}
        if dtype is not None:
            k['dtype'] = dtype
        if device is not None:
            k['device'] = device
        return I.call(I.getattr(v, 'to', node), [], k, node) if k else v
    return f_tensor(I, [v], {a: b for a, b in (('dtype', dtype), ('device', device)) if b is not None}, node)


@reg('torch.tensor', 'torch.from_numpy')
def f_tensor(I, args, kwargs, node):
    v, dtype, device, rg = kw(args, {k: x for k, x in kwargs.items()}, ['data', 'dtype', 'device', 'requires_grad'])
    v = I.resolve(v)
    if isinstance(v, Gamma):
        return I.lift(v, lambda x: f_tensor(I, [x], dict(dtype=dtype, device=device), node))
    if isinstance(v, Unknown):
        return v
    dv = to_dev(device)
    if isinstance(v, Tensor):
        r = I.reader(v)
        dt = to_dt(dtype) or v.dtype
        t = mk(I, v.shape, _cast(r, v.dtype, dt), dt, dv or (v.device if v.kind == 'torch' else CPU))
        if v.kind == 'torch':
            I.event('detach', node, what='tensor()', gdep=gd(I, v))
            if I.sg:
                t = mk(I, v.shape, I.stop(_cast(r, v.dtype, dt), dt), dt, dv or v.device)
        return creation(I, t, node, dtype is not None, device is not None, 'tensor')
    if isinstance(v, Custom_types(I)):
        return I.unk('tensor of custom object')
    t = tensor_from(I, v, dtype, dv, node)
    return creation(I, t, node, dtype is not None, device is not None, 'tensor')


def Custom_types(I):
    from .interp import Custom
    return Custom


def _cast(r, src, dst):
    if dst.cat == 0 and src.cat != 0:
        return lambda idx: as_bool(r(idx))
    if src.cat == 0 and dst.cat != 0:
        return lambda idx: as_num(r(idx))
    if dst.cat == 1 and src.cat == 2:
        return lambda idx: T.fn('trunc', r(idx))
    return r


def _creator(name, f):
    @reg('torch.' + name)
    def g(I, args, kwargs, node):
        kwargs = dict(kwargs)
        dtype, device = kwargs.pop('dtype', None), kwargs.pop('device', None)
        rg = kwargs.pop('requires_grad', None)
        if 'size' in kwargs:
            args = [kwargs.pop('size')] + list(args)
        kwargs.pop('generator', None)
        kwargs.pop('layout', None)
        if kwargs:
            return I.unk('torch.%s arguments' % name)
        sh = shape_args(I, args)
        t = f(I, sh, to_dt(dtype) or I.default_dtype, to_dev(device) or CPU)
        return creation(I, t, node, dtype is not None, device is not None, name)
    return g


_creator('zeros', lambda I, s, d, v: mk(I, s, lambda i: FALSE if d.cat == 0 else T.ZERO, d, v))
_creator('ones', lambda I, s, d, v: mk(I, s, lambda i: TRUE if d.cat == 0 else T.ONE, d, v))


def _rnd(prefix):
    def f(I, s, d, v):
        I.rand_count += 1
        name = '%s!%d' % (prefix, I.rand_count)
        return mk(I, s, lambda i: T.atom(name, *i), d, v)
    return f


_creator('empty', _rnd('uninit'))
_creator('rand', _rnd('rand'))
_creator('randn', _rnd('randn'))


@reg('torch.eye')
def f_eye(I, args, kwargs, node):
    n, m, dtype, device = kw(args, kwargs, ['n', 'm', 'dtype', 'device'])
    m = n if m is None else m
    t = mk(I, (vdim(n), vdim(m)), lambda i: T.ite(T.eq(i[0], i[1]), T.ONE, T.ZERO), to_dt(dtype) or I.default_dtype, to_dev(device) or CPU)
    return creation(I, t, node, dtype is not None, device is not None, 'eye')


@reg('torch.full')
def f_full(I, args, kwargs, node):
    sz, v, dtype, device = kw(args, kwargs, ['size', 'fill_value', 'dtype', 'device'])
    sh = shape_args(I, [sz])
    r = rd(I, v)
    d = to_dt(dtype) or (I64 if isinstance(v, int) and not isinstance(v, bool) else BOOL if isinstance(v, bool) else I.default_dtype)
    t = mk(I, sh, (lambda i: as_bool(r(()))) if d.cat == 0 else (lambda i: as_num(r(()))), d, to_dev(device) or CPU)
    return creation(I, t, node, dtype is not None, device is not None, 'full')


@reg('torch.arange')
def f_arange(I, args, kwargs, node):
    kwargs = dict(kwargs)
    dtype, device = kwargs.pop('dtype', None), kwargs.pop('device', None)
    a = [x for x in args]
    lo, hi, st = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, st = a
    if not isinstance(lo, int) or not isinstance(st, int):
        return I.unk('arange')
    if isinstance(hi, int):
        n = len(range(lo, hi, st))
    elif isinstance(hi, Num) and st == 1:
        n = T.sub(hi.t, num(lo))
    else:
        return I.unk('arange')
    t = mk(I, (n,), lambda i: T.add(num(lo), T.mul(num(st), i[0])), to_dt(dtype) or I64, to_dev(device) or CPU)
    return creation(I, t, node, True, device is not None, 'arange')


@reg('torch.linspace')
def f_linspace(I, args, kwargs, node):
    return I.unk('linspace')


def _like(name, f):
    @reg('torch.' + name)
    def g(I, args, kwargs, node):
        t = I.resolve(args[0])
        if isinstance(t, Gamma):
            return I.lift(t, lambda x: g(I, [x], kwargs, node))
        if isinstance(t, Unknown):
            return t
        if isinstance(t, Masked):
            return I.unk('like of masked')
        d = to_dt(kwargs.get('dtype')) or t.dtype
        v = to_dev(kwargs.get('device')) or t.device
        return f(I, t.shape, d, v)


_like('zeros_like', lambda I, s, d, v: mk(I, s, lambda i: FALSE if d.cat == 0 else T.ZERO, d, v))
_like('ones_like', lambda I, s, d, v: mk(I, s, lambda i: TRUE if d.cat == 0 else T.ONE, d, v))
_like('empty_like', _rnd('uninit'))
_like('rand_like', _rnd('rand'))
_like('randn_like', _rnd('randn'))


@reg('torch.full_like')
def f_full_like(I, args, kwargs, node):
    t, v = args[0], args[1] if len(args) > 1 else kwargs['fill_value']
    r = rd(I, v)
    return mk(I, t.shape, lambda i: r(()), to_dt(kwargs.get('dtype')) or t.dtype, to_dev(kwargs.get('device')) or t.device)


# ------------------------------------------------------------------ generic dispatch helpers
def each(f):
    """lift Gamma/Unknown in the first argument"""
    def g(I, args, kwargs, node):
        if args:
            a = I.resolve(args[0])
            if isinstance(a, Unknown):
                return a
            if isinstance(a, Gamma):
                return I.lift(a, lambda x: g(I, [x] + list(args[1:]), kwargs, node))
            args = [a] + list(args[1:])
        for j, b in enumerate(args[1:], 1):
            b = I.resolve(b)
            if isinstance(b, Unknown):
                return b
            if isinstance(b, Gamma):
                return I.lift(b, lambda x: g(I, list(args[:j]) + [x] + list(args[j + 1:]), kwargs, node))
        for k, b in kwargs.items():
            b = I.resolve(b)
            if isinstance(b, Unknown):
                return b
            if isinstance(b, Gamma):
                return I.lift(b, lambda x: g(I, args, dict(kwargs, **{k: x}), node))
        return f(I, list(args), dict(kwargs), node)
    return g


def ereg(*names):
    def deco(f):
        g = each(f)
        for n in names:
            FUNCS[n] = g
        return g
    return deco


def _un(names, f, diff=True, dtype=None):
    def g(I, args, kwargs, node):
        x = args[0]
        if not istens(x):
            if scalar_ok(x):
                from .interp import nterm
                return Num(f(nterm(x)), 'f')
            return I.unk('%s of %s' % (names[0], type(x).__name__))
        d = dtype or (x.dtype if x.dtype.cat == 2 or names[0] in ('abs', 'sign', 'neg', 'square') else I.default_dtype)
        return elementwise(I, lambda t: f(as_num(t)), [x], d, node, diff)
    for n in names:
        FUNCS['torch.' + n] = each(g)


for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'trunc', 'tanh', 'sinh', 'cosh'):
    _un([_n] + {'asin': ['arcsin'], 'acos': ['arccos'], 'atan': ['arctan']}.get(_n, []), (lambda nm: lambda t: T.fn(nm, t))(_n), _n not in ('floor', 'ceil', 'trunc'))
_un(['round'], lambda t: T.fn('round', t), False)
_un(['sqrt'], lambda t: T.fn('sqrt', t))
_un(['rsqrt'], lambda t: T.pw(T.fn('sqrt', t), -1))
_un(['abs', 'absolute'], lambda t: T.fn('abs', t))
_un(['sign', 'sgn'], lambda t: T.fn('sign', t), False)
_un(['square'], lambda t: T.pw(t, 2))
_un(['neg', 'negative'], lambda t: T.neg(t))
_un(['reciprocal'], lambda t: T.pw(t, -1))
_un(['rad2deg'], lambda t: T.mul(t, T.div(num(180), T.PI)))
_un(['deg2rad'], lambda t: T.mul(t, T.div(T.PI, num(180))))
_un(['relu'], lambda t: tmax(t, T.ZERO))


def finite_t(t):
    return T.fn('isfinite', t, sort='B')


def _isfin(t):
    if t.op == 'num' or t.op == 'pi':
        return TRUE
    if t.op in ('inf', 'nan'):
        return FALSE
    if t.op == 'mul' and any(a.op == 'inf' for a in t.args):
        return FALSE
    if t.op == 'ite':
        return T.ite(t.args[0], _isfin(t.args[1]), _isfin(t.args[2]))
    if t.op == 'atom' and t.sort == 'R':
        return TRUE         # inputs are finite numbers; infinite limits are terms of their own
    return T.fn('isfinite', t, sort='B')


def _isnan(t):
    if t.op in ('num', 'pi', 'inf'):
        return FALSE
    if t.op == 'nan':
        return TRUE
    if t.op == 'ite':
        return T.ite(t.args[0], _isnan(t.args[1]), _isnan(t.args[2]))
    if t.op == 'atom':
        return FALSE
    if t.op in ('mul', 'add'):
        if any(_isnan(a) is TRUE for a in t.args):
            return TRUE
        if all(_isfin(a) is TRUE for a in t.args):
            return FALSE
    return T.fn('isnan', t, sort='B')


ereg('torch.isfinite')(lambda I, a, k, n: elementwise(I, lambda t: _isfin(as_num(t)), [a[0]], BOOL, n, False))
ereg('torch.isnan')(lambda I, a, k, n: elementwise(I, lambda t: _isnan(as_num(t)), [a[0]], BOOL, n, False))
ereg('torch.isinf')(lambda I, a, k, n: elementwise(I, lambda t: T.and_(T.not_(_isfin(as_num(t))), T.not_(_isnan(as_num(t)))), [a[0]], BOOL, n, False))


@ereg('torch.nan_to_num')
def f_nan_to_num(I, a, k, n):
    x, v = a[0], rd(I, k.get('nan', a[1] if len(a) > 1 else 0.0))
    return elementwise(I, lambda t: T.ite(_isnan(t), as_num(v(())), t), [x], None, n)


@ereg('torch.atan2', 'torch.arctan2')
def f_atan2(I, a, k, n):
    return elementwise(I, lambda y, x: T.fn('atan2', as_num(y), as_num(x)), a[:2], None, n)


def _bin(name, op):
    @ereg(*['torch.' + x for x in name])
    def f(I, a, k, n):
        x, y = a[0], a[1] if len(a) > 1 else k.get('other')
        al = k.get('alpha', a[2] if len(a) > 2 and name[0] in ('add', 'sub') else None)
        if al is not None:
            y = I.binop('Mult', y, al, n)
        return I.binop(op, x, y, n)


_bin(['add'], 'Add')
_bin(['sub', 'subtract'], 'Sub')
_bin(['mul', 'multiply'], 'Mult')
_bin(['true_divide'], 'Div')
_bin(['pow'], 'Pow')
_bin(['floor_divide'], 'FloorDiv')
_bin(['remainder'], 'Mod')
_bin(['logical_and', 'bitwise_and'], 'BitAnd')
_bin(['logical_or', 'bitwise_or'], 'BitOr')
_bin(['logical_xor'], 'BitXor')
for _n, _o in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'), ('less', 'Lt'), ('greater', 'Gt')):
    ereg('torch.' + _n)((lambda o: lambda I, a, k, n: I.compare(o, a[0], a[1] if len(a) > 1 else k['other'], n))(_o))
ereg('torch.logical_not', 'torch.bitwise_not')(lambda I, a, k, n: elementwise(I, lambda t: T.not_(as_bool(t)), [a[0]], BOOL, n, False))


@ereg('torch.rsub')
def f_rsub(I, a, k, n):
    return I.binop('Sub', a[1], a[0], n)


@ereg('torch.addcmul')
def f_addcmul(I, a, k, n):
    v = k.get('value', 1)
    return I.binop('Add', a[0], I.binop('Mult', v, I.binop('Mult', a[1], a[2], n), n), n)


@ereg('torch.lerp')
def f_lerp(I, a, k, n):
    return I.binop('Add', a[0], I.binop('Mult', a[2], I.binop('Sub', a[1], a[0], n), n), n)


@ereg('torch.maximum')
def f_maximum(I, a, k, n):
    return elementwise(I, lambda x, y: tmax(as_num(x), as_num(y)), a[:2], None, n)


@ereg('torch.minimum')
def f_minimum(I, a, k, n):
    return elementwise(I, lambda x, y: tmin(as_num(x), as_num(y)), a[:2], None, n)


def clamp_term(x, lo, hi):
    if lo is not None:
        x = tmax(x, lo)
    if hi is not None:
        x = tmin(x, hi)
    return x


@ereg('torch.clamp', 'torch.clip')
def f_clamp(I, a, k, n):
    x, lo, hi = kw(a, k, ['input', 'min', 'max'])
    ops, pos = [x], []
    for b in (lo, hi):
        if b is not None:
            pos.append(len(ops))
            ops.append(b)
        else:
            pos.append(None)
    # dtype follows the tensor operands (a scalar bound does not promote an equal category)
    def f(*ts):
        t = as_num(ts[0])
        for p, g, b in ((pos[0], tmax, lo), (pos[1], tmin, hi)):
            if p:
                t = g(t, as_num(ts[p]))
                if not istens(b):
                    I.where_ites.add(('clamp', t.id))       # at a scalar bound the gradient is zero
        return t
    return elementwise(I, f, ops, None, n)


ereg('torch.clamp_min')(lambda I, a, k, n: f_clamp(I, [a[0], a[1]], {}, n))
ereg('torch.clamp_max')(lambda I, a, k, n: f_clamp(I, [a[0], None, a[1]], {}, n))


@ereg('torch.where')
def f_where(I, a, k, n):
    if len(a) == 1:
        return I.unk('where with one argument')
    c, x, y = a[0], a[1], a[2]
    if not istens(c):
        return I.unk('where condition')
    dt = result_dtype(I, [x, y], n)
    dev = result_device(I, [o for o in (c, x, y) if istens(o)], n)

    def f(cc, p, q):
        cc = as_bool(cc)
        if p.sort != q.sort:
            p, q = as_num(p), as_num(q)
        r = T.ite(cc, p, q)
        if r.op == 'ite':
            I.where_ites.add(r.id)
        return r
    r = elementwise(I, f, [c, x, y], dt, n, True, dev)
    if isinstance(r, Tensor):
        r.gdep = gjoin(I, [o for o in (x, y) if istens(o)])
    return r


@ereg('torch.masked_fill')
def f_masked_fill(I, a, k, n):
    x, m, v = kw(a, k, ['input', 'mask', 'value'])
    return elementwise(I, lambda t, mm, vv: T.ite(as_bool(mm), as_num(vv), t), [x, m, v], x.dtype, n)


# ------------------------------------------------------------------ structure
def tlist(I, v):
    c = I.concrete_list(v)
    if c is None:
        return None
    out = []
    for x in c:
        x = I.resolve(x)
        if not isinstance(x, Tensor):
            return x if isinstance(x, Unknown) else None
        out.append(x)
    return out


def _gamma_list(I, v, f):
    """tensor list containing a conditional element: lift"""
    c = I.concrete_list(v)
    if c is None:
        return None
    for j, x in enumerate(c):
        x = I.resolve(x)
        if isinstance(x, Gamma):
            return I.lift(x, lambda y: f(I.list_of(c[:j] + [y] + c[j + 1:])))
    return None


@ereg('torch.stack')
def f_stack(I, a, k, n):
    v, d = kw(a, k, ['tensors', 'dim'], {'dim': 0})
    g = _gamma_list(I, v, lambda lv: f_stack(I, [lv, d], {}, n))
    if g is not None:
        return g
    ts = tlist(I, v)
    if ts is None:
        if isinstance(v, ListV) and len(I.segs(v)) == 1 and I.segs(v)[0].kind == 'map':
            s = I.segs(v)[0]
            if s.cond is TRUE and isinstance(s.v, Tensor) and d == 0:
                r = I.reader(s.v)
                return mk(I, (s.n,) + s.v.shape, lambda idx: T.subst(r(idx[1:]), {s.var.id: idx[0]}), s.v.dtype, s.v.device, gjoin(I, [s.v]))
        return I.unk('stack of symbolic list')
    if isinstance(ts, Unknown):
        return ts
    if not ts:
        raise AbsRaise('RuntimeError', n)
    sh = ts[0].shape
    for t in ts[1:]:
        if len(t.shape) != len(sh) or not all(same_dim(x, y) for x, y in zip(t.shape, sh)):
            raise AbsRaise('RuntimeError', n)
    d = norm_axis(d, len(sh) + 1, n)
    rs = [I.reader(t) for t in ts]

    def fn(idx):
        i, rest = idx[d], idx[:d] + idx[d + 1:]
        if i.op == 'num':
            return rs[int(i.args[0])](rest)
        return pick([r(rest) for r in rs], i)
    dt = ts[0].dtype
    if len({t.dtype for t in ts}) > 1:
        for t in ts[1:]:
            dt = promote2(I, dt, t.dtype, n)
        if len({t.dtype for t in ts if t.dtype.cat == 2}) > 1:
            I.event('dtype_mix', n, dtypes=[t.dtype.name for t in ts])
    return mk(I, sh[:d] + (len(ts),) + sh[d:], fn, dt, result_device(I, ts, n), gjoin(I, ts))


@ereg('torch.cat', 'torch.concat', 'torch.concatenate')
def f_cat(I, a, k, n):
    if 'axis' in k:
        k['dim'] = k.pop('axis')
    v, d = kw(a, k, ['tensors', 'dim'], {'dim': 0})
    g = _gamma_list(I, v, lambda lv: f_cat(I, [lv, d], {}, n))
    if g is not None:
        return g
    ts = tlist(I, v)
    if ts is None:
        return I.unk('cat of symbolic list')
    if isinstance(ts, Unknown):
        return ts
    if not ts:
        raise AbsRaise('RuntimeError', n)
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = promote2(I, dt, t.dtype, n)
    if len({t.dtype for t in ts if t.dtype.cat == 2}) > 1:
        I.event('dtype_mix', n, dtypes=[t.dtype.name for t in ts])
    dev = result_device(I, ts, n)
    full = ts
    ts = [t for t in ts if not (len(t.shape) == 1 and t.shape[0] == 0)] or ts[:1]
    nd = len(ts[0].shape)
    d = norm_axis(d, nd, n)
    for t in ts[1:]:
        if len(t.shape) != nd or any(not same_dim(t.shape[j], ts[0].shape[j]) for j in range(nd) if j != d):
            raise AbsRaise('RuntimeError', n)
    rs = [I.reader(t) for t in ts]
    offs = [T.ZERO]
    for t in ts:
        offs.append(T.add(offs[-1], dterm(t.shape[d])))

    def fn(idx):
        i = idx[d]
        if i.op == 'num' and all(o.op == 'num' for o in offs):
            for j, r in enumerate(rs):
                if offs[j].args[0] <= i.args[0] < offs[j + 1].args[0]:
                    return r(idx[:d] + (num(i.args[0] - offs[j].args[0]),) + idx[d + 1:])
            return T.unknown('cat index out of range')
        out = None
        for j in range(len(rs) - 1, -1, -1):
            try:
                x = rs[j](idx[:d] + (T.sub(i, offs[j]),) + idx[d + 1:])
            except (IndexError, AbsRaise):
                continue
            out = x if out is None else T.ite(T.lt(i, offs[j + 1]), x, out)
        return out
    tot = offs[-1]
    return mk(I, ts[0].shape[:d] + (int(tot.args[0]) if tot.op == 'num' else tot,) + ts[0].shape[d + 1:], fn, dt, dev, gjoin(I, full))


FUNCS['torch.hstack'] = lambda I, a, k, n: f_cat(I, [a[0], -1 if len(tlist(I, a[0])[0].shape) == 1 else 1], {}, n)


@ereg('torch.unbind')
def f_unbind(I, a, k, n):
    t, d = kw(a, k, ['input', 'dim'], {'dim': 0})
    d = norm_axis(d, len(t.shape), n)
    if not isinstance(t.shape[d], int):
        return I.unk('unbind of symbolic dimension')
    full = Slice(None, None, None)
    return tuple(getitem(I, t, tuple([full] * d + [j]), n) for j in range(t.shape[d]))


@ereg('torch.split')
def f_split(I, a, k, n):
    t, s, d = kw(a, k, ['tensor', 'split_size', 'dim'], {'dim': 0})
    d = norm_axis(d, len(t.shape), n)
    full = Slice(None, None, None)
    if not isinstance(t.shape[d], int):
        return I.unk('split of symbolic dimension')
    N = t.shape[d]
    if isinstance(s, int):
        sizes = [min(s, N - j) for j in range(0, N, s)]
    else:
        sizes = I.concrete_list(s)
    out, o = [], 0
    for z in sizes:
        out.append(getitem(I, t, tuple([full] * d + [Slice(o, o + z, None)]), n))
        o += z
    return tuple(out)


ereg('torch.unsqueeze')(lambda I, a, k, n: unsqueeze(I, a[0], a[1] if len(a) > 1 else k['dim']) if isinstance(a[0], Tensor) else I.unk('unsqueeze'))


@ereg('torch.squeeze')
def f_squeeze(I, a, k, n):
    d = a[1] if len(a) > 1 else k.get('dim')
    return squeeze(I, a[0], d if d is None or isinstance(d, int) else I.concrete_list(d))


@ereg('torch.reshape', 'torch.view')
def f_reshape(I, a, k, n):
    ar = a[1:] if len(a) > 1 else [k.get('shape', k.get('size'))]
    if len(ar) == 1 and isinstance(ar[0], DT):
        return I.unk('view as dtype')
    return reshape(I, a[0], shape_args(I, ar), n)


@ereg('torch.Tensor.view')
def m_view(I, a, k, n):
    if len(a) == 2 and isinstance(a[1], (DT, Ext)):
        return I.unk('view as dtype')
    return reshape(I, a[0], shape_args(I, a[1:]), n, must_view=True)


ereg('torch.Tensor.view_as', 'torch.Tensor.reshape_as')(lambda I, a, k, n: reshape(I, a[0], list(a[1].shape), n))


@ereg('torch.flatten')
def f_flatten(I, a, k, n):
    t, s, e = kw(a, k, ['input', 'start_dim', 'end_dim'], {'start_dim': 0, 'end_dim': -1})
    nd = len(t.shape)
    s, e = s % nd, e % nd
    p = prod_dims(t.shape[s:e + 1])
    return reshape(I, t, list(t.shape[:s]) + [vdim(Num(p, 'i')) if p.op == 'num' else p] + list(t.shape[e + 1:]), n)


@ereg('torch.permute')
def f_permute(I, a, k, n):
    t = a[0]
    p = a[1:] if len(a) > 1 else [k['dims']]
    if len(p) == 1 and not isinstance(p[0], int):
        p = I.concrete_list(p[0])
    if sorted(x % len(t.shape) for x in p) != list(range(len(t.shape))):
        raise AbsRaise('RuntimeError', n)
    return permute(I, t, [x % len(t.shape) for x in p])


@ereg('torch.transpose', 'torch.swapaxes', 'torch.swapdims')
def f_transpose(I, a, k, n):
    t, x, y = kw(a, k, ['input', 'dim0', 'dim1'])
    nd = len(t.shape)
    x, y = norm_axis(x, nd, n), norm_axis(y, nd, n)
    p = list(range(nd))
    p[x], p[y] = p[y], p[x]
    return permute(I, t, p)


@ereg('torch.movedim', 'torch.moveaxis')
def f_movedim(I, a, k, n):
    t, x, y = kw(a, k, ['input', 'source', 'destination'])
    nd = len(t.shape)
    if not isinstance(x, int):
        return I.unk('movedim')
    x, y = x % nd, y % nd
    p = [j for j in range(nd) if j != x]
    p.insert(y, x)
    return permute(I, t, p)


ereg('torch.t')(lambda I, a, k, n: permute(I, a[0], list(range(len(a[0].shape)))[::-1]))


@ereg('torch.expand', 'torch.broadcast_to')
def f_expand(I, a, k, n):
    return expand(I, a[0], shape_args(I, a[1:] or [k['size']]), n)


ereg('torch.expand_as')(lambda I, a, k, n: expand(I, a[0], list(a[1].shape), n))


@ereg('torch.broadcast_tensors')
def f_broadcast_tensors(I, a, k, n):
    sh = bshape(I, [x.shape for x in a], n)
    return tuple(expand(I, x, list(sh), n) for x in a)


@ereg('torch.repeat', 'torch.tile')
def f_repeat(I, a, k, n):
    t = a[0]
    reps = shape_args(I, a[1:] or [k.get('repeats', k.get('dims'))])
    off = len(reps) - len(t.shape)
    if off < 0:
        raise AbsRaise('RuntimeError', n)
    src = (1,) * off + t.shape
    sh = []
    for s, r in zip(src, reps):
        p = T.mul(dterm(s), dterm(r))
        sh.append(int(p.args[0]) if p.op == 'num' else p)
    rr = I.reader(t)

    def fn(idx):
        out = []
        for j in range(off, len(src)):
            s, r = src[j], reps[j]
            if isinstance(s, int) and s == 1:
                out.append(T.ZERO)
            elif isinstance(r, int) and r == 1:
                out.append(idx[j])
            else:
                out.append(T.fn('mod', idx[j], dterm(s)))
        return rr(tuple(out))
    return mk(I, sh, fn, t.dtype, t.device, gjoin(I, [t]), t.kind)


@ereg('torch.repeat_interleave')
def f_repeat_interleave(I, a, k, n):
    t, r, d = kw(a, k, ['input', 'repeats', 'dim'])
    if isinstance(r, Tensor):
        return I.unk('repeat_interleave')
    if d is None:
        return f_repeat_interleave(I, [FUNCS['torch.reshape'](I, [t, -1], {}, n), r, 0], {}, n)
    d = norm_axis(d, len(t.shape), n)
    rr = I.reader(t)
    rt = dterm(vdim(r))
    p = T.mul(dterm(t.shape[d]), rt)
    return mk(I, t.shape[:d] + (int(p.args[0]) if p.op == 'num' else p,) + t.shape[d + 1:],
              lambda idx: rr(idx[:d] + (T.fn('idiv', idx[d], rt),) + idx[d + 1:]), t.dtype, t.device, gjoin(I, [t]))


@ereg('torch.roll')
def f_roll(I, a, k, n):
    t, s, d = kw(a, k, ['input', 'shifts', 'dims'])
    if not isinstance(s, int) or not isinstance(d, int) or not isinstance(t.shape[d], int):
        return I.unk('roll')
    d = norm_axis(d, len(t.shape), n)
    rr = I.reader(t)
    N = t.shape[d]
    return mk(I, t.shape, lambda idx: rr(idx[:d] + (T.fn('mod', T.sub(idx[d], num(s)), num(N)),) + idx[d + 1:]), t.dtype, t.device, gjoin(I, [t]))


@ereg('torch.flip')
def f_flip(I, a, k, n):
    t = a[0]
    ds = a[1:] if len(a) > 1 else [k['dims']]
    if len(ds) == 1 and not isinstance(ds[0], int):
        ds = I.concrete_list(ds[0])
    ds = [norm_axis(d, len(t.shape), n) for d in ds]
    rr = I.reader(t)
    return mk(I, t.shape, lambda idx: rr(tuple(T.sub(T.sub(dterm(t.shape[j]), T.ONE), i) if j in ds else i for j, i in enumerate(idx))),
              t.dtype, t.device, gjoin(I, [t]))


for _k in (1, 2, 3):
    def _atl(I, a, k, n, _k=_k):
        t = a[0]
        if not isinstance(t, Tensor):
            return I.unk('atleast')
        while len(t.shape) < _k:
            t = unsqueeze(I, t, 0)
        return t
    ereg('torch.atleast_%dd' % _k)(_atl)


@ereg('torch.clone', 'torch.contiguous')
def f_clone(I, a, k, n):
    t = a[0]
    if isinstance(t, Masked):
        return t
    r = I.reader(t)
    return mk(I, t.shape, r, t.dtype, t.device, gjoin(I, [t]), t.kind)


@ereg('torch.Tensor.contiguous')
def m_contiguous(I, a, k, n):
    t = a[0]
    if is_contig(t):
        return t
    return f_clone(I, a, k, n)


@ereg('torch.detach')
def f_detach(I, a, k, n):
    t = a[0]
    if isinstance(t, Masked):
        return I.unk('detach masked')
    if I.sg:
        I.event('detach', n, what='detach', gdep=gd(I, t))
        return mk(I, t.shape, I.stop(I.reader(t), t.dtype), t.dtype, t.device, frozenset(), t.kind)
    r = Tensor(t.cell, t.shape, t.fwd, t.inv, t.dtype, t.device, frozenset(), t.alias, t.kind)
    r.detached = True
    I.event('detach', n, what='detach', gdep=gd(I, t))
    # the cell may carry gradient provenance: use a fresh cell handle without it
    if I.cell_gdep.get(t.cell):
        rr = I.reader(t)
        r = mk(I, t.shape, rr, t.dtype, t.device, frozenset(), t.kind)
        r.alias = r.alias | t.alias
    r.contig = is_contig(t)
    return r


def _reduce_shape(t, axes, keep):
    return [1 if j in axes else d for j, d in enumerate(t.shape) if keep or j not in axes]


def reduce_(I, t, axes, keep, f, dtype, diff=True):
    """f(list of (n, ...)) : combine over axes. f gets (reader over reduced idx tuple, dims)"""
    r = rd(I, t)
    nd = len(t.shape)
    dims = [t.shape[j] for j in axes]

    def fn(idx):
        base = [None] * nd
        p = 0
        for j in range(nd):
            if j in axes:
                if keep:
                    p += 1
                continue
            base[j] = idx[p]
            p += 1

        def at(red):
            b = list(base)
            for j, i in zip(axes, red):
                b[j] = i
            return r(tuple(b))
        return f(at, dims)
    return mk(I, _reduce_shape(t, axes, keep), fn, dtype, t.device, gjoin(I, [t]) if diff else frozenset(), t.kind)


def fold(dims, at, conc, symb):
    """recursive fold over reduced dims; conc(list) and symb(var, n, body)"""
    def go(k, pre):
        if k == len(dims):
            return at(pre)
        d = dims[k]
        if isinstance(d, int):
            return conc([go(k + 1, pre + (num(i),)) for i in range(d)])
        v = T.fresh('r', rng=d)
        return symb(v, d, go(k + 1, pre + (v,)))
    return go(0, ())


def sum_fold(at, dims):
    return fold(dims, lambda p: as_num(at(p)), lambda l: T.add(*l) if l else T.ZERO, lambda v, n, b: T.tosum(v, n, b))


def red_args(a, k, extra=()):
    names = ['input', 'dim', 'keepdim']
    kk = dict(k)
    if 'axis' in kk:
        kk['dim'] = kk.pop('axis')
    if 'keepdims' in kk:
        kk['keepdim'] = kk.pop('keepdims')
    kk.pop('dtype', None)
    o = dict(zip(names, a))
    o.update(kk)
    return o.get('input'), o.get('dim'), bool(o.get('keepdim', False))


def masked_reduce(I, t, which, n):
    """full reduction of a masked selection"""
    def at(idx):
        return t.fn(idx)
    dims = t.shape
    if which == 'any':
        x = fold(dims, lambda p: T.and_(t.mask(p), as_bool(t.fn(p))), lambda l: T.or_(*l), lambda v, m, b: T.exists(v, m, b))
        return mk(I, (), lambda i: x, BOOL, t.device)
    if which == 'all':
        x = fold(dims, lambda p: T.or_(T.not_(t.mask(p)), as_bool(t.fn(p))), lambda l: T.and_(*l), lambda v, m, b: T.forall(v, m, b))
        return mk(I, (), lambda i: x, BOOL, t.device)
    if which == 'sum':
        x = fold(dims, lambda p: T.ite(t.mask(p), as_num(t.fn(p)), T.ZERO), lambda l: T.add(*l), lambda v, m, b: T.tosum(v, m, b))
        return mk(I, (), lambda i: x, t.dtype, t.device, t.gdep)
    return I.unk('masked %s' % which)


@ereg('torch.sum')
def f_sum(I, a, k, n):
    t, d, keep = red_args(a, k)
    if isinstance(t, Masked):
        if d is None:
            return masked_reduce(I, t, 'sum', n)
        nd = len(t.shape) - t.mrank + 1
        ax = axes_arg(I, d, nd, n)
        if t.axis0 in ax:
            return I.unk('sum over the masked dimension')
        real = [x if x < t.axis0 else x + t.mrank - 1 for x in ax]
        r = t.fn
        keepd = [j for j in range(len(t.shape)) if j not in real]

        def fn(idx):
            base = [None] * len(t.shape)
            if keep:
                for j in keepd:
                    base[j] = idx[j]
            else:
                for p, j in enumerate(keepd):
                    base[j] = idx[p]

            def at(red):
                b = list(base)
                for j, i in zip(real, red):
                    b[j] = i
                return r(tuple(b))
            return sum_fold(at, [t.shape[j] for j in real])
        sh = [1 if j in real else x for j, x in enumerate(t.shape)] if keep else [t.shape[j] for j in keepd]
        ax0 = t.axis0 if keep else t.axis0 - len([x for x in real if x < t.axis0])
        return Masked(tuple(sh), fn, t.mask, t.mrank, t.dtype, t.device, t.gdep, t.mkey, ax0)
    dt = t.dtype if t.dtype.cat == 2 else I64
    return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep, sum_fold, dt)


@ereg('torch.mean')
def f_mean(I, a, k, n):
    t, d, keep = red_args(a, k)
    ax = axes_arg(I, d, len(t.shape), n)
    cnt = prod_dims([t.shape[j] for j in ax])
    return reduce_(I, t, ax, keep, lambda at, dims: T.div(sum_fold(at, dims), cnt), t.dtype)


@ereg('torch.prod')
def f_prod(I, a, k, n):
    t, d, keep = red_args(a, k)
    return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep,
                   lambda at, dims: fold(dims, lambda p: as_num(at(p)), lambda l: T.mul(*l), lambda v, m, b: T.unknown('symbolic product')), t.dtype)


@ereg('torch.any')
def f_any(I, a, k, n):
    t, d, keep = red_args(a, k)
    if isinstance(t, Masked):
        return masked_reduce(I, t, 'any', n)
    return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep,
                   lambda at, dims: fold(dims, lambda p: as_bool(at(p)), lambda l: T.or_(*l), lambda v, m, b: T.exists(v, m, b)), BOOL, False)


@ereg('torch.all')
def f_all(I, a, k, n):
    t, d, keep = red_args(a, k)
    if isinstance(t, Masked):
        return masked_reduce(I, t, 'all', n)
    return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep,
                   lambda at, dims: fold(dims, lambda p: as_bool(at(p)), lambda l: T.and_(*l), lambda v, m, b: T.forall(v, m, b)), BOOL, False)


@ereg('torch.norm', 'torch.linalg.norm', 'torch.linalg.vector_norm')
def f_norm(I, a, k, n):
    k = dict(k)
    p = k.pop('p', k.pop('ord', None))
    if len(a) > 1:
        p = a[1]
        a = [a[0]] + a[2:]
    t, d, keep = red_args(a, k)
    if isinstance(t, Masked):
        return I.unk('norm of masked')
    if p not in (None, 2, 2.0, 'fro', 1, 1.0):
        if p in (float('inf'),):
            return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep,
                           lambda at, dims: fold(dims, lambda q: T.fn('abs', as_num(at(q))), lambda l: _maxl(l), lambda v, m, b: T.extremum('max', v, m, b)), t.dtype)
        return I.unk('norm order')
    if p in (1, 1.0):
        return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep,
                       lambda at, dims: sum_fold(lambda q: T.fn('abs', as_num(at(q))), dims), t.dtype)
    def l2(at, dims):
        x = T.fn('sqrt', sum_fold(lambda q: T.pw(as_num(at(q)), 2), dims))
        I.norms.add(x.id)
        return x
    return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep, l2, t.dtype)


def _maxl(l):
    x = l[0]
    for y in l[1:]:
        x = tmax(x, y)
    return x


def _minl(l):
    x = l[0]
    for y in l[1:]:
        x = tmin(x, y)
    return x


def _ext(name):
    f_l = _maxl if name == 'max' else _minl

    def whole(I, a, k, n):
        t, d, keep = red_args(a, k)
        if isinstance(t, Masked):
            return I.unk('extremum of masked selection')
        ext = lambda at, dims: fold(dims, lambda p: as_num(at(p)), f_l, lambda v, m, b: T.extremum(name, v, m, b))
        return reduce_(I, t, axes_arg(I, d, len(t.shape), n), keep, ext, t.dtype)
    ereg('torch.a' + name)(whole)

    @ereg('torch.' + name)
    def f(I, a, k, n):
        t = a[0]
        o = a[1] if len(a) > 1 else k.get('other', k.get('dim'))
        if istens(o):
            return elementwise(I, lambda x, y: (tmax if name == 'max' else tmin)(as_num(x), as_num(y)), [t, o], None, n)
        keep = bool(k.get('keepdim', a[2] if len(a) > 2 else False))
        if isinstance(t, Masked):
            return I.unk('extremum of masked selection')
        ext = lambda at, dims: fold(dims, lambda p: as_num(at(p)), f_l, lambda v, m, b: T.extremum(name, v, m, b))
        if o is None:
            return reduce_(I, t, list(range(len(t.shape))), False, ext, t.dtype)
        ax = axes_arg(I, o, len(t.shape), n)
        vals = reduce_(I, t, ax, keep, ext, t.dtype)
        idx = FUNCS['torch.arg' + name](I, [t, o], dict(keepdim=keep), n)
        r = I.new_obj(I.namedtuple_cls, {'values': vals, 'indices': idx})
        return MinMax(vals, idx)


class MinMax(tuple):
    def __new__(cls, v, i):
        return tuple.__new__(cls, (v, i))


def _arg(name):
    @ereg('torch.arg' + name)
    def f(I, a, k, n):
        t, d, keep = red_args(a, k)
        ax = axes_arg(I, d, len(t.shape), n)

        def comb(at, dims):
            if len(dims) != 1 or not isinstance(dims[0], int):
                if all(isinstance(x, int) for x in dims):
                    import itertools
                    ts = [at(tuple(num(i) for i in p)) for p in itertools.product(*[range(x) for x in dims])]
                    return T.fn('arg' + name, *[as_num(x) for x in ts])
                return T.unknown('arg%s over symbolic dimension' % name)
            ts = [as_num(at((num(i),))) for i in range(dims[0])]
            return T.fn('arg' + name, *ts)
        return reduce_(I, t, ax, keep, comb, I64, False)


for _n in ('max', 'min'):
    _arg(_n)
    _ext(_n)


@ereg('torch.gather')
def f_gather(I, a, k, n):
    t, d, ix = kw(a, k, ['input', 'dim', 'index'])
    d = norm_axis(d, len(t.shape), n)
    r, ri = I.reader(t), I.reader(ix)
    if len(ix.shape) != len(t.shape):
        raise AbsRaise('RuntimeError', n)
    N = t.shape[d]

    def fn(idx):
        i = ri(idx)
        if i.op == 'num':
            return r(idx[:d] + (i,) + idx[d + 1:])
        if not isinstance(N, int):
            return r(idx[:d] + (i,) + idx[d + 1:])
        return pick([r(idx[:d] + (num(j),) + idx[d + 1:]) for j in range(N)], i)
    return mk(I, ix.shape, fn, t.dtype, t.device, gjoin(I, [t]))


@ereg('torch.index_select')
def f_index_select(I, a, k, n):
    t, d, ix = kw(a, k, ['input', 'dim', 'index'])
    d = norm_axis(d, len(t.shape), n)
    return getitem(I, t, tuple([Slice(None, None, None)] * d + [ix]), n)


@ereg('torch.take_along_dim')
def f_tad(I, a, k, n):
    return f_gather(I, [a[0], a[2] if len(a) > 2 else k.get('dim'), a[1]], {}, n)


@ereg('torch.masked_select')
def f_msel(I, a, k, n):
    return getitem(I, a[0], a[1], n)


@ereg('torch.linalg.cross')
def f_lcross(I, a, k, n):
    return f_cross(I, a, {'dim': -1, **k}, n)


@ereg('torch.cross')
def f_cross(I, a, k, n):
    x, y, d = kw(a, k, ['input', 'other', 'dim'])
    if isinstance(x, Masked) or isinstance(y, Masked):
        return I.unk('cross of masked')
    sh = bshape(I, [x.shape, y.shape], n)
    if d is None:
        d = next((j for j, s in enumerate(sh) if isinstance(s, int) and s == 3), None)
        if d is None:
            raise AbsRaise('RuntimeError', n)
        for j in range(d):      # an axis of unknown length comes first: when it has three entries, the product is along it
            c = T.eq(sh[j], num(3))
            if not isinstance(sh[j], int) and I.decide(c) is not False:
                u, v = I.reader(cross_along(I, x, y, sh, j, n)), I.reader(cross_along(I, x, y, sh, d, n))
                return mk(I, sh, lambda idx: T.ite(c, u(idx), v(idx)), result_dtype(I, [x, y], n), result_device(I, [x, y], n), gjoin(I, [x, y]))
    d = norm_axis(d, len(sh), n)
    if sh[d] != 3:
        raise AbsRaise('RuntimeError', n)
    return cross_along(I, x, y, sh, d, n)


def cross_along(I, x, y, sh, d, n):
    ra, rb = I.reader(x), I.reader(y)
    sa, sb = x.shape, y.shape

    def fn(idx):
        def A(j):
            return ra(bidx(sa, idx[:d] + (num(j),) + idx[d + 1:]))

        def B(j):
            return rb(bidx(sb, idx[:d] + (num(j),) + idx[d + 1:]))
        c = [lambda: T.sub(T.mul(A(1), B(2)), T.mul(A(2), B(1))),
             lambda: T.sub(T.mul(A(2), B(0)), T.mul(A(0), B(2))),
             lambda: T.sub(T.mul(A(0), B(1)), T.mul(A(1), B(0)))]
        i = idx[d]
        if i.op == 'num':
            return c[int(i.args[0])]()
        return pick([f() for f in c], i)
    return mk(I, sh, fn, result_dtype(I, [x, y], n), result_device(I, [x, y], n), gjoin(I, [x, y]))


@ereg('torch.inner')
def f_inner(I, a, k, n):
    x, y = a[:2]
    if len(x.shape) > 1 and len(y.shape) > 1:
        return I.unk('inner product of arrays') if len(y.shape) > 2 else matmul(I, x, permute(I, y, [1, 0]), n)
    return f_dot(I, a, k, n)


@ereg('torch.dot', 'torch.linalg.vecdot')
def f_dot(I, a, k, n):
    return f_sum(I, [I.binop('Mult', a[0], a[1], n), k.get('dim', -1)], {}, n)


@ereg('torch.outer')
def f_outer(I, a, k, n):
    return I.binop('Mult', unsqueeze(I, a[0], 1), unsqueeze(I, a[1], 0), n)


ereg('torch.matmul', 'torch.bmm', 'torch.mm', 'torch.mv')(lambda I, a, k, n: matmul(I, a[0], a[1] if len(a) > 1 else k.get('other', k.get('mat2')), n))


@ereg('torch.Tensor.bmm')
def m_bmm(I, a, k, n):
    x, y = a[0], a[1]
    if len(x.shape) != 3 or len(y.shape) != 3 or not same_dim(x.shape[0], y.shape[0]):
        raise AbsRaise('RuntimeError', n)
    return matmul(I, x, y, n)


FUNCS['torch.bmm'] = m_bmm


@ereg('torch.baddbmm')
def f_baddbmm(I, a, k, n):
    return I.binop('Add', a[0], matmul(I, a[1], a[2], n), n)


@ereg('torch.einsum')
def f_einsum(I, a, k, n):
    eq = a[0]
    ts = a[1:]
    if len(ts) == 1 and not isinstance(ts[0], Tensor):
        ts = I.concrete_list(ts[0])
    if not isinstance(eq, str):
        return I.unk('einsum equation')
    eq = eq.replace(' ', '')
    if '->' in eq:
        lhs, out = eq.split('->')
    else:
        lhs = eq
        out = ''.join(sorted(c for c in set(lhs.replace(',', '').replace('.', '')) if lhs.count(c) == 1))
        if '...' in lhs:
            out = '...' + out
    ins = lhs.split(',')
    if len(ins) != len(ts):
        raise AbsRaise('RuntimeError', n)
    # ellipsis dims named from the right
    nell = 0
    for s, t in zip(ins, ts):
        if '...' in s:
            nell = max(nell, len(t.shape) - len(s.replace('...', '')))
    ell = [chr(0x400 + j) for j in range(nell)]
    full = []
    for s, t in zip(ins, ts):
        if '...' in s:
            m = len(t.shape) - len(s.replace('...', ''))
            s = s.replace('...', ''.join(ell[nell - m:]))
        if len(s) != len(t.shape):
            raise AbsRaise('RuntimeError', n)
        full.append(s)
    out = out.replace('...', ''.join(ell))
    size = {}
    for s, t in zip(full, ts):
        for c, d in zip(s, t.shape):
            if c not in size or size[c] == 1:
                size[c] = d
            elif not same_dim(size[c], d) and d != 1:
                raise AbsRaise('RuntimeError', n)
    rs = [I.reader(t) for t in ts]
    summed = [c for c in size if c not in out]
    need_same_dtype(I, ts, n, 'einsum')

    def fn(idx):
        env = dict(zip(out, idx))

        def go(j):
            if j == len(summed):
                ps = []
                for s, r, t in zip(full, rs, ts):
                    ps.append(as_num(r(tuple(T.ZERO if (d == 1 and size[c] != 1) else env[c] for c, d in zip(s, t.shape)))))
                return T.mul(*ps)
            c = summed[j]

            def at(v):
                env[c] = v
                return go(j + 1)
            return contract(I, size[c], at)
        return go(0)
    return mk(I, [size[c] for c in out], fn, result_dtype(I, ts, n), result_device(I, ts, n), gjoin(I, ts))


@ereg('torch.diag_embed')
def f_diag_embed(I, a, k, n):
    t, off, d1, d2 = kw(a, k, ['input', 'offset', 'dim1', 'dim2'], {'offset': 0, 'dim1': -2, 'dim2': -1})
    nd = len(t.shape) + 1
    d1, d2 = d1 % nd, d2 % nd
    if off != 0:
        return I.unk('diag_embed offset')
    N = t.shape[-1]
    sh = []
    it = iter(t.shape[:-1])
    for j in range(nd):
        sh.append(N if j in (d1, d2) else next(it))
    r = I.reader(t)

    def fn(idx):
        rest = tuple(x for j, x in enumerate(idx) if j not in (d1, d2))
        return T.ite(T.eq(idx[d1], idx[d2]), r(rest + (idx[d1],)), T.ZERO)
    return mk(I, sh, fn, t.dtype, t.device, gjoin(I, [t]))


@ereg('torch.diagonal')
def f_diagonal(I, a, k, n):
    t, off, d1, d2 = kw(a, k, ['input', 'offset', 'dim1', 'dim2'], {'offset': 0, 'dim1': 0, 'dim2': 1})
    nd = len(t.shape)
    d1, d2 = d1 % nd, d2 % nd
    if off != 0:
        return I.unk('diagonal offset')
    r = I.reader(t)
    rest = [j for j in range(nd) if j not in (d1, d2)]

    def fn(idx):
        o = [None] * nd
        for j, i in zip(rest, idx[:-1]):
            o[j] = i
        o[d1] = o[d2] = idx[-1]
        return r(tuple(o))
    return mk(I, [t.shape[j] for j in rest] + [t.shape[d1]], fn, t.dtype, t.device, gjoin(I, [t]))


@ereg('torch.diag')
def f_diag(I, a, k, n):
    t = a[0]
    if len(t.shape) == 1:
        return f_diag_embed(I, [t], {}, n)
    return f_diagonal(I, [t], {}, n)


ereg('torch.trace')(lambda I, a, k, n: f_sum(I, [f_diagonal(I, [a[0]], {}, n)], {}, n))


@ereg('torch.det', 'torch.linalg.det')
def f_det(I, a, k, n):
    t = a[0]
    N = t.shape[-1]
    if not isinstance(N, int) or N > 3:
        return I.unk('det')
    r = I.reader(t)

    def det(m):
        if len(m) == 1:
            return m[0][0]
        s = []
        for j in range(len(m)):
            c = T.mul(m[0][j], det([row[:j] + row[j + 1:] for row in m[1:]]))
            s.append(c if j % 2 == 0 else T.neg(c))
        return T.add(*s)
    return mk(I, t.shape[:-2], lambda idx: det([[r(idx + (num(i), num(j))) for j in range(N)] for i in range(N)]), t.dtype, t.device, gjoin(I, [t]))


@ereg('torch.linalg.solve')
def f_solve(I, a, k, n):
    A, B = kw(a, k, ['A', 'B'])
    vec = len(B.shape) == 1 or (len(B.shape) == len(A.shape) - 1)
    if vec:
        B = unsqueeze(I, B, -1)
    N, M = A.shape[-1], B.shape[-1]
    if not isinstance(N, int) or not isinstance(M, int):
        return I.unk('solve')
    if not same_dim(A.shape[-2], N) or not same_dim(B.shape[-2], N):
        raise AbsRaise('RuntimeError', n)
    need_same_dtype(I, [A, B], n, 'linalg.solve')
    bs = bshape(I, [A.shape[:-2], B.shape[:-2]], n)
    ra, rb = I.reader(A), I.reader(B)

    def fn(idx):
        bi = idx[:-2]
        ai, bb = bidx(A.shape[:-2], bi), bidx(B.shape[:-2], bi)
        As = [as_num(ra(ai + (num(i), num(j)))) for i in range(N) for j in range(N)]
        Bs = [as_num(rb(bb + (num(i), num(j)))) for i in range(N) for j in range(M)]
        return T._mk('fn', ('solve', idx[-2], idx[-1], num(N), num(M)) + tuple(As) + tuple(Bs), 'R')
    out = mk(I, bs + (N, M), fn, A.dtype, result_device(I, [A, B], n), gjoin(I, [A, B]))
    return squeeze(I, out, -1) if vec else out


@ereg('torch.linalg.inv', 'torch.inverse', 'torch.linalg.pinv', 'torch.pinverse')
def f_inv(I, a, k, n):
    A = a[0]
    N = A.shape[-1]
    if not isinstance(N, int) or not same_dim(A.shape[-2], N):
        return I.unk('inverse')
    E = mk(I, (N, N), lambda i: T.ite(T.eq(i[0], i[1]), T.ONE, T.ZERO), A.dtype, A.device)
    if len(A.shape) > 2:
        E = expand(I, E, list(A.shape[:-2]) + [N, N])
    return f_solve(I, [A, E], {}, n)


@ereg('torch.cholesky_solve')
def f_chol_solve(I, a, k, n):
    B, L = a[0], a[1]
    if getattr(L, 'chol_of', None) is None:
        return I.unk('cholesky_solve')
    return f_solve(I, [L.chol_of, B], {}, n)


@ereg('torch.linalg.cholesky', 'torch.cholesky')
def f_chol(I, a, k, n):
    A = a[0]
    t = mk(I, A.shape, lambda idx: T.unknown('cholesky factor'), A.dtype, A.device, gjoin(I, [A]))
    t.chol_of = A
    return t


@ereg('torch.linalg.svd', 'torch.svd')
def f_svd(I, a, k, n):
    A = a[0]
    full = k.get('full_matrices', a[1] if len(a) > 1 else True)
    r, c = A.shape[-2], A.shape[-1]
    if not isinstance(r, int) or not isinstance(c, int):
        return I.unk('svd')
    m = min(r, c)
    rd_ = I.reader(A)
    bs = A.shape[:-2]

    def part(w):
        def fn(idx):
            k2 = 2 if w != 'S' else 1
            bi = idx[:-k2]
            As = [rd_(bi + (num(i), num(j))) for i in range(r) for j in range(c)]
            ij = idx[-2:] if w != 'S' else (idx[-1], T.ZERO)
            return T._mk('fn', ('svd' + w, ij[0], ij[1], num(r), num(c)) + tuple(As), 'R')
        return fn
    g = gjoin(I, [A])
    U = mk(I, bs + (r, r if full else m), part('U'), A.dtype, A.device, g)
    S = mk(I, bs + (m,), part('S'), A.dtype, A.device, g)
    V = mk(I, bs + (c if full else m, c), part('V'), A.dtype, A.device, g)
    return (U, S, V)


@ereg('torch.allclose')
def f_allclose(I, a, k, n):
    sync(I, a[0], n, 'allclose')
    x, y = a[0], a[1]
    rt, at = k.get('rtol', a[2] if len(a) > 2 else 1e-5), k.get('atol', a[3] if len(a) > 3 else 1e-8)
    d = elementwise(I, lambda p, q: T.le(T.fn('abs', T.sub(p, q)), T.add(num(float(at)), T.mul(num(float(rt)), T.fn('abs', q)))), [x, y], BOOL, n, False)
    r = f_all(I, [d], {}, n)
    from .interp import mkbool
    return mkbool(I.elem(r))


ereg('torch.isclose')(lambda I, a, k, n: elementwise(I, lambda p, q: T.le(T.fn('abs', T.sub(p, q)), T.add(num(float(k.get('atol', 1e-8))), T.mul(num(float(k.get('rtol', 1e-5))), T.fn('abs', q)))), a[:2], BOOL, n, False))


@ereg('torch.equal')
def f_equal(I, a, k, n):
    sync(I, a[0], n, 'equal')
    x, y = a[0], a[1]
    if len(x.shape) != len(y.shape) or not all(same_dim(p, q) for p, q in zip(x.shape, y.shape)):
        return False
    from .interp import mkbool
    return mkbool(I.elem(f_all(I, [compare(I, 'Eq', x, y, n)], {}, n)))


@ereg('torch.nn.functional.normalize')
def f_normalize(I, a, k, n):
    t, p, d, eps = kw(a, k, ['input', 'p', 'dim', 'eps'], {'p': 2.0, 'dim': 1, 'eps': 1e-12})
    nr = f_norm(I, [t], {'p': p, 'dim': d, 'keepdim': True}, n)
    # max(norm, eps): the tiny guard is kept
    return elementwise(I, lambda x, y: T.div(x, tmax(y, num(float(eps)))), [t, nr], None, n)


ereg('torch.is_tensor')(lambda I, a, k, n: isinstance(a[0], Masked) or (isinstance(a[0], Tensor) and a[0].kind == 'torch'))
ereg('torch.numel')(lambda I, a, k, n: dval(vdim(numel(a[0]))))
ereg('torch.is_floating_point')(lambda I, a, k, n: a[0].dtype.cat == 2)


@ereg('torch.cumsum')
def f_cumsum(I, a, k, n):
    t, d = kw(a, k, ['input', 'dim'])
    d = norm_axis(d, len(t.shape), n)
    if not isinstance(t.shape[d], int):
        return I.unk('cumsum')
    r = I.reader(t)
    N = t.shape[d]

    def fn(idx):
        part = [T.add(*[r(idx[:d] + (num(j),) + idx[d + 1:]) for j in range(m + 1)]) for m in range(N)]
        return pick(part, idx[d])
    return mk(I, t.shape, fn, t.dtype, t.device, gjoin(I, [t]))


@ereg('torch.nonzero', 'torch.argwhere')
def f_nonzero(I, a, k, n):
    sync(I, a[0], n, 'nonzero')
    t = a[0]
    pos = concrete_bool(I, elementwise(I, as_bool, [t], BOOL))
    if pos is None:
        return I.unk('nonzero of symbolic tensor')
    if k.get('as_tuple'):
        return tuple(int_tensor(I, [p[d] for p in pos]) for d in range(len(t.shape)))
    return tensor_from(I, tuple(tuple(p) for p in pos), I64, t.device, n) if pos else mk(I, (0, len(t.shape)), lambda i: T.ZERO, I64, t.device)


@ereg('torch.sort', 'torch.argsort', 'torch.topk', 'torch.unique', 'torch.multinomial')
def f_unsupported(I, a, k, n):
    return I.unk('sort-like tensor function')


@reg('torch.compile')
def f_compile(I, a, k, n):
    I.event('compile', n, target=a[0] if a else None)
    return a[0] if a else I.unk('torch.compile decorator')


FUNCS['torch.no_grad'] = lambda I, a, k, n: Ext('torch.no_grad')
FUNCS['torch.inference_mode'] = lambda I, a, k, n: Ext('torch.inference_mode')
FUNCS['torch.enable_grad'] = lambda I, a, k, n: Ext('torch.enable_grad')
FUNCS['torch.compiler.is_compiling'] = lambda I, a, k, n: False
FUNCS['torch.set_grad_enabled'] = lambda I, a, k, n: I.unk('set_grad_enabled')
FUNCS['torch.get_default_dtype'] = lambda I, a, k, n: I.default_dtype
FUNCS['torch.manual_seed'] = lambda I, a, k, n: (I.event('global_state', n, what='manual_seed'), None)[1]
FUNCS['torch.set_default_dtype'] = lambda I, a, k, n: (I.event('global_state', n, what='set_default_dtype'), None)[1]
FUNCS['torch.device'] = lambda I, a, k, n: a[0] if isinstance(a[0], Dev) else to_dev(a[0])
FUNCS['torch.cuda.is_available'] = lambda I, a, k, n: False


def autograd_apply(I, args, kwargs, node):
    cls = args[0]
    ins = args[1:]
    ctx = AutogradCtx()
    ctx.needs = tuple(isinstance(x, Tensor) and bool(gd(I, x) & I.rg) for x in map(I.resolve, ins))
    I.no_grad = getattr(I, 'no_grad', 0) + 1
    try:
        out = I.call(cls.lookup('forward'), [ctx] + list(ins), {}, node)
    finally:
        I.no_grad -= 1
    out = I.resolve(out)
    if isinstance(out, Tensor):
        if I.sg:
            # the hand-written gradient itself is the subject of a rule of its own; here it counts as the derivative of the values
            rr = I.reader(out)
            out = mk(I, out.shape, lambda idx: T.unstop(rr(idx)), out.dtype, out.device, frozenset(), out.kind)
        r = Tensor(out.cell, out.shape, out.fwd, out.inv, out.dtype, out.device,
                   gjoin(I, [x for x in ins if isinstance(x, Tensor)]), out.alias, out.kind)
        I.autograd.append(dict(cls=cls, ctx=ctx, inputs=list(ins), output=r, guard=I.abs_guard()))
        return r
    return out


def _ctx_cls():
    from .interp import Custom

    class _Ctx(Custom):
        def __init__(self):
            self.saved = ()
            self.attrs = {}
            self.needs = ()

        def getattr(self, I, name, node):
            if name in ('save_for_backward',):
                def f(I, a, k, n):
                    self.saved = tuple(a)
                return Prim(name, f)
            if name in ('saved_tensors', 'saved_variables'):
                return self.saved
            if name in ('mark_dirty', 'mark_non_differentiable', 'set_materialize_grads'):
                return Prim(name, lambda I, a, k, n: None)
            if name == 'needs_input_grad':
                return self.needs
            if name in self.attrs:
                return self.attrs[name]
            raise AbsRaise('AttributeError', node)

        def setattr(self, I, name, v, node):
            self.attrs[name] = v
    return _Ctx


def AutogradCtx():
    return _ctx_cls()()


# ------------------------------------------------------------------ attributes and methods
def meth_to(I, args, kwargs, node):
    t = I.resolve(args[0])
    if isinstance(t, Gamma):
        return I.lift(t, lambda x: meth_to(I, [x] + list(args[1:]), kwargs, node))
    kwargs = dict(kwargs)
    dt, dv, copy = kwargs.pop('dtype', None), kwargs.pop('device', None), kwargs.pop('copy', False)
    kwargs.pop('non_blocking', None)
    o = kwargs.pop('other', None)
    for a in list(args[1:]) + ([o] if o is not None else []):
        a = I.resolve(a)
        if isinstance(a, Tensor):
            dt, dv = a.dtype, a.device
        elif isinstance(a, DT):
            dt = a
        elif isinstance(a, Ext):
            dt = to_dt(a)
        elif isinstance(a, (str, Dev)):
            dv = a
        elif a is None:
            pass
        elif isinstance(a, bool):
            pass
        else:
            return I.unk('to(%s)' % type(a).__name__)
    dt, dv = I.resolve(dt), I.resolve(dv)
    if isinstance(dt, Gamma):
        return I.lift(dt, lambda x: meth_to(I, [t], dict(dtype=x, device=dv, copy=copy), node))
    if isinstance(dv, Gamma):
        return I.lift(dv, lambda x: meth_to(I, [t], dict(dtype=dt, device=x, copy=copy), node))
    dt = to_dt(dt) or t.dtype
    dv = to_dev(dv) or t.device
    return cast_tensor(I, t, dt, dv, copy is True, node)


def cast_tensor(I, t, dt, dv, copy, node):
    if isinstance(t, Masked):
        f = _cast(t.fn, t.dtype, dt)
        return Masked(t.shape, f, t.mask, t.mrank, dt, dv, t.gdep, t.mkey, t.axis0)
    if dt is t.dtype and dv is t.device and not copy:
        return t
    r = I.reader(t)
    if dv is CPU and t.device is not CPU and t.kind == 'torch':
        I.event('to_host', node, tensor=t)
    if dt is not t.dtype and dt.cat == 2 and t.dtype.cat == 2:
        I.event('cast', node, dtypes=[t.dtype.name, dt.name], tensor=t)
    return mk(I, t.shape, _cast(r, t.dtype, dt), dt, dv, gjoin(I, [t]), t.kind)


def _type_cast(dt):
    def f(I, a, k, n):
        return cast_tensor(I, a[0], dt, a[0].device, False, n)
    return each(f)


METHODS = {
    'to': meth_to,
    'float': _type_cast(F32), 'double': _type_cast(F64), 'long': _type_cast(I64), 'int': _type_cast(DT('int32')), 'bool': _type_cast(BOOL),
    'half': _type_cast(DT('float16')),
    'type_as': each(lambda I, a, k, n: cast_tensor(I, a[0], a[1].dtype, a[1].device, False, n)),
    'cpu': each(lambda I, a, k, n: cast_tensor(I, a[0], a[0].dtype, CPU, False, n)),
    'cuda': each(lambda I, a, k, n: cast_tensor(I, a[0], a[0].dtype, Dev('cuda'), False, n)),
    'numpy': each(lambda I, a, k, n: _retag(I, a[0], 'numpy')),
    'item': each(lambda I, a, k, n: _item(I, a[0], n)),
    'tolist': each(lambda I, a, k, n: _tolist(I, a[0])),
    'dim': each(lambda I, a, k, n: len(a[0].shape) if isinstance(a[0], Tensor) else I.unk('dim')),
    'ndimension': each(lambda I, a, k, n: len(a[0].shape)),
    'size': each(lambda I, a, k, n: _size(I, a, k, n)),
    'nelement': each(lambda I, a, k, n: dval(vdim(numel(a[0])))),
    'numel': each(lambda I, a, k, n: dval(vdim(numel(a[0]))) if isinstance(a[0], Tensor) else _mcount(I, a[0])),
    'requires_grad_': each(lambda I, a, k, n: (I.event('requires_grad_', n, tensor=a[0]), a[0])[1]),
    'backward': each(lambda I, a, k, n: I.unk('backward')),
    'is_contiguous': each(lambda I, a, k, n: is_contig(a[0])),
    'data_ptr': each(lambda I, a, k, n: I.unk('data_ptr')),
    'new_tensor': each(lambda I, a, k, n: _new_tensor(I, a, k, n)),
    'new_zeros': each(lambda I, a, k, n: _new_fill(I, a, k, n, 0)),
    'new_ones': each(lambda I, a, k, n: _new_fill(I, a, k, n, 1)),
    'new_empty': each(lambda I, a, k, n: _rnd('uninit')(I, shape_args(I, a[1:]), to_dt(k.get('dtype')) or a[0].dtype, to_dev(k.get('device')) or a[0].device)),
    'new_full': each(lambda I, a, k, n: _new_full(I, a, k, n)),
    'view': FUNCS['torch.Tensor.view'],
    'view_as': FUNCS['torch.Tensor.view_as'],
    'reshape_as': FUNCS['torch.Tensor.view_as'],
    'contiguous': FUNCS['torch.Tensor.contiguous'],
    'bmm': FUNCS['torch.Tensor.bmm'],
    'where': each(lambda I, a, k, n: f_where(I, [a[1], a[0], a[2]], {}, n)),
    'astype': each(lambda I, a, k, n: cast_tensor(I, a[0], to_dt(a[1]), a[0].device, True, n)),
    'copy': each(lambda I, a, k, n: f_clone(I, a, k, n)),
    '__len__': each(lambda I, a, k, n: I.length(a[0])),
    'index_copy': each(lambda I, a, k, n: I.unk('index_copy')),
    'register_hook': each(lambda I, a, k, n: I.unk('register_hook')),
    'is_floating_point': each(lambda I, a, k, n: a[0].dtype.cat == 2),
    'unfold': each(lambda I, a, k, n: I.unk('unfold')),
    'ravel': each(lambda I, a, k, n: f_flatten(I, a, k, n)),
}


def _new_full(I, a, k, n):
    r = rd(I, a[2] if len(a) > 2 else k['fill_value'])
    return mk(I, shape_args(I, [a[1]]), lambda i: as_num(r(())), to_dt(k.get('dtype')) or a[0].dtype, to_dev(k.get('device')) or a[0].device)


def _new_fill(I, a, k, n, v):
    sh = shape_args(I, a[1:] or [k['size']])
    d = to_dt(k.get('dtype')) or a[0].dtype
    return mk(I, sh, lambda i: (TRUE if v else FALSE) if d.cat == 0 else num(v), d, to_dev(k.get('device')) or a[0].device)


def _new_tensor(I, a, k, n):
    d = to_dt(k.get('dtype')) or a[0].dtype
    v = a[1]
    if isinstance(v, Tensor):
        return cast_tensor(I, v, d, a[0].device, True, n)
    return tensor_from(I, v, d, to_dev(k.get('device')) or a[0].device, n)


def _retag(I, t, kind):
    r = Tensor(t.cell, t.shape, t.fwd, t.inv, t.dtype, t.device, frozenset(), t.alias, kind)
    if kind == 'numpy':
        sync(I, t, None, 'numpy')
    if I.sg and t.kind == 'torch':
        r = mk(I, t.shape, I.stop(I.reader(t), t.dtype), t.dtype, t.device, frozenset(), kind)
    I.event('detach', None, what='numpy', gdep=gd(I, t))
    return r


def _item(I, t, n):
    if isinstance(t, Masked):
        return I.unk('item of masked')
    I.event('item', n, tensor=t)
    return stopped(I, t, item(I, t, n))


def stopped(I, t, v):
    if I.sg and isinstance(v, Num) and t.kind == 'torch' and t.dtype in (F32, F64):
        return Num(T.sg(v.t), v.kind)
    return v


def _tolist(I, t):
    sync(I, t, None, 'tolist')
    if not t.shape:
        return stopped(I, t, item(I, t))
    if not isinstance(t.shape[0], int):
        return I.unk('tolist')
    return I.list_of([_tolist(I, getitem(I, t, j)) for j in range(t.shape[0])])


def _size(I, a, k, n):
    t = a[0]
    d = a[1] if len(a) > 1 else k.get('dim')
    if isinstance(t, Masked):
        return I.unk('size of masked selection')
    if d is None:
        return tuple(dval(x) for x in t.shape)
    return dval(t.shape[norm_axis(d, len(t.shape), n)])


def _mcount(I, m):
    x = fold(m.shape[m.axis0:m.axis0 + m.mrank], lambda p: T.ite(m.mask((T.ZERO,) * m.axis0 + tuple(p)), T.ONE, T.ZERO),
             lambda l: T.add(*l), lambda v, nn, b: T.tosum(v, nn, b))
    rest = [d for j, d in enumerate(m.shape) if not m.axis0 <= j < m.axis0 + m.mrank]
    return Num(T.mul(x, prod_dims(rest)), 'i')


INPLACE_EXTRA = {'fill_', 'zero_', 'copy_', 'normal_', 'uniform_', 'masked_fill_', 'scatter_', 'index_copy_', 'squeeze_', 'unsqueeze_', 'transpose_', 't_', 'detach_'}


def tensor_attr(I, t, name, node):
    if name == 'shape':
        if isinstance(t, Masked):
            rest = list(t.shape[:t.axis0]) + [dim_of_mask(t)] + list(t.shape[t.axis0 + t.mrank:])
            return tuple(dval(d) for d in rest)
        return tuple(dval(d) for d in t.shape)
    if name == 'dtype':
        return t.dtype if getattr(t, 'kind', 'torch') == 'torch' else t.dtype
    if name == 'device':
        return t.device
    if name == 'ndim':
        return len(t.shape) if isinstance(t, Tensor) else len(t.shape) - t.mrank + 1
    if name == 'requires_grad':
        return bool(gd(I, t) & I.rg)
    if name in ('T', 'mT', 'H', 'mH'):
        if isinstance(t, Masked):
            return I.unk('transpose of masked')
        n = len(t.shape)
        p = list(range(n))
        if name in ('T', 'H'):
            p = p[::-1]
        else:
            p[-1], p[-2] = p[-2], p[-1]
        return permute(I, t, p)
    if name == 'data':
        return f_detach(I, [t], {}, node)
    if name == 'is_cuda':
        return False
    if name == 'grad':
        return Unknown('grad')
    if name == 'is_leaf':
        return Unknown('is_leaf')
    if name == 'size' and isinstance(t, Tensor) and t.kind == 'numpy':
        return dval(vdim(numel(t)))
    if name in METHODS:
        return Bound(Prim('Tensor.' + name, METHODS[name]), t)
    if name.endswith('_') and not name.startswith('_'):
        base = name[:-1]

        def inplace(I, args, kwargs, n):
            x = args[0]
            if base == 'requires_grad':
                return x
            if isinstance(x, Masked):
                return I.unk('in-place on masked copy')
            if base == 'fill':
                store(I, x, args[1], n)
                return x
            if base == 'zero':
                store(I, x, 0, n)
                return x
            if base == 'copy':
                v = args[1]
                store(I, x, v, n)
                return x
            if base in ('normal', 'uniform', 'random', 'exponential'):
                I.rand_count += 1
                nm = '%s!%d' % ({'normal': 'randn', 'uniform': 'rand'}.get(base, 'rnd'), I.rand_count)
                v = mk(I, x.shape, lambda i: T.atom(nm, *i), x.dtype, x.device)
                store(I, x, v, n)
                return x
            if base in ('squeeze', 'unsqueeze', 'transpose', 't', 'detach', 'resize'):
                I.event('mutate_meta', n)
                return I.unk('in-place %s' % base)
            f = FUNCS.get('torch.' + base) or METHODS.get(base)
            if f is None:
                havoc_cell(I, x, 'in-place ' + name)
                return I.unk('in-place ' + name)
            r = f(I, args, kwargs, n)
            if isinstance(r, Gamma):
                I.lift(r, lambda y: store(I, x, y, n))
            else:
                store(I, x, r, n)
            return x
        return Bound(Prim('Tensor.' + name, each(inplace)), t)
    f = FUNCS.get('torch.' + name) or FUNCS.get('torch.linalg.' + name)
    if f is not None:
        return Bound(Prim('Tensor.' + name, f), t)
    return I.unk('tensor attribute %s' % name)


def dim_of_mask(t):
    x = fold(t.shape[t.axis0:t.axis0 + t.mrank], lambda p: T.ite(t.mask((T.ZERO,) * t.axis0 + tuple(p)), T.ONE, T.ZERO),
             lambda l: T.add(*l), lambda v, nn, b: T.tosum(v, nn, b))
    return x


# ------------------------------------------------------------------ functions stated in terms of others
def _prelude():
    import ast
    import os
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')
    with open(p, encoding="utf-8") as f:
        tree = ast.parse(f.read(), p)
    for d in tree.body:
        if isinstance(d, ast.FunctionDef):
            f = (lambda nm: lambda I, a, k, n: I.call(I.lookup(PRELUDE + ':' + nm), list(a), dict(k), n))(d.name)
            for q in ast.get_docstring(d).split():
                FUNCS[q] = f
    return p, tree


PRELUDE = 'sa.prelude'
PRELUDE_SRC = _prelude()
