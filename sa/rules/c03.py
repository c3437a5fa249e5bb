"""The gradient of forward kinematics is evaluated with a symbolic upstream gradient: the hand-written backward function is interpreted on the
values its forward saved, and each entry of the joint gradient is compared with the sum over all frames and entries of upstream gradient times the
derivative of the pose product; the automatic path must have the pose product as its value with nothing detached."""
from .lib import *
from .c01 import poses, qmap
from .. import torchlib as tl

FLOOR = 40
AT = 'chain.py:Chain.forward_kinematics_tensor'


def setup(x, key, B, dtype=F32, rg=True, chain=None):
    S = x.S
    r = Robot(S, key, dtype)
    names = [n.jname for n in r.spec.joints()]
    th = S.t('th', (B, len(names)), dtype, rg=rg)
    return r, names, th


def grad(x, r, chain, out, names, B, frames, start=None, at=AT):
    """derivative carried by the value graph, cuts honoured"""
    q = qmap(names)
    ix = fidx_cached(x, r, chain, frames)
    for nm in frames:
        M = x.I.getitem(out, ix[nm])
        x.deriv('automatic gradient', M, lambda idx: [T.atom('th', idx[0], num(j)) for j in range(len(names))],
                lambda idx: entry(r.fk(nm, q(idx[0]), start))(idx), at=at)


def values(x, r, chain, out, names, B, frames, start=None, what='pose', at=AT):
    q = qmap(names)
    ix = fidx_cached(x, r, chain, frames)
    for nm in frames:
        M = x.I.getitem(out, ix[nm])
        x.eq(what, M, (x.S.dim(B), 4, 4), lambda idx: entry(r.fk(nm, q(idx[0]), start))(idx), n=2, at=at)


def fidx_cached(x, r, chain, frames):
    out = {}
    for n in frames:
        i = x.val(x.S.m(chain, 'get_frame_indices', n), 'get_frame_indices')
        t = x.I.reader(i)((num(0),))
        if t.op != 'num':
            raise Undecided('frame index')
        out[n] = int(t.args[0])
    return out


def call_backward(x, rec, grads):
    """gradients of the inputs of an autograd.Function application"""
    I = x.I
    I.no_grad = getattr(I, 'no_grad', 0) + 1
    try:
        o = x.S.call(rec['cls'].lookup('backward'), rec['ctx'], *grads)
    finally:
        I.no_grad -= 1
    v = x.val(o, 'backward', at='chain.py:_FKAnalyticalBackward.backward')
    if isinstance(v, Tensor):
        v = (v,)
    if not isinstance(v, tuple):
        raise Undecided('backward returns %r' % (v,))
    return [I.resolve(g) for g in v]


def analytic(x, key, B, dtype=F32, api='tensor', serial=None):
    S, I = x.S, x.I
    I.sg = True
    if serial is None:
        r, names, th = setup(x, key, B, dtype)
        chain, start = r.chain, None
        frames = [n.name for n in r.spec.nodes]
    else:
        end, root = serial
        r = Robot(S, key, dtype)
        chain = r.serial(end, root).val()
        start = root or r.spec.nodes[0].name
        path = r.spec.path(end)
        k = [n.name for n in path].index(start)
        frames = [n.name for n in path[k:]]
        names = [n.jname for n in path[k + 1:] if n.jt != 'fixed']
        th = S.t('th', (B, len(names)), dtype, rg=True)
    n0 = len(I.autograd)
    o = S.m(chain, 'forward_kinematics_tensor', th)
    out = x.val(o, 'forward_kinematics_tensor')
    values(x, r, chain, out, names, B, frames, start, 'pose with gradient requested')
    if 'th' not in tl.gd(I, out):
        x.holds(not names, 'output depends on the joint values', 'the returned poses are cut off from the joint values: no gradient reaches them', AT)
        return
    recs = I.autograd[n0:]
    if not recs:
        grad(x, r, chain, out, names, B, frames, start)
        return
    if len(recs) > 1:
        raise Undecided('several custom gradient functions')
    rec = recs[0]
    ro = rec['output']
    G = S.t('G', ro.shape, dtype)
    grads = call_backward(x, rec, [G])
    ins = rec['inputs']
    x.holds(len(grads) == len(ins), 'number of gradients', 'backward returns %d gradients for %d inputs' % (len(grads), len(ins)), 'chain.py:_FKAnalyticalBackward.backward')
    b = S.dim(B)
    own = []
    for t, g in zip(ins, grads):
        t = I.resolve(t)
        if not isinstance(t, Tensor):
            continue
        if t.cell == th.cell:
            own.append(g)
        elif 'th' in tl.gd(I, t) and g is not None:
            raise Undecided('gradient through a second input that depends on the joint values')
    x.holds(len(own) >= 1 and own[0] is not None, 'gradient of the joint values', 'backward gives no gradient for the joint values', 'chain.py:_FKAnalyticalBackward.backward')
    if not own or own[0] is None:
        return
    if isinstance(own[0], Tensor):
        x.holds(own[0].dtype == dtype, 'gradient dtype', 'gradient has dtype %s for joint values of %s' % (own[0].dtype, dtype), 'chain.py:_FKAnalyticalBackward.backward')
    if len(own) > 1:
        raise Undecided('joint values passed twice')
    ix = fidx_cached(x, r, chain, frames)
    q = qmap(names)

    def spec(idx):
        bb, j = idx[0], int(idx[1].args[0])
        w = T.atom('th', bb, j)
        tot = []
        for nm in frames:
            M = r.fk(nm, q(bb), start)
            for i in range(3):
                for k in range(4):
                    d = T.diff(M[i][k], w)
                    if d is not T.ZERO:
                        tot.append(T.mul(T.atom('G', ix[nm], bb, i, k), d))
        return T.add(*tot) if tot else T.ZERO
    x.eq('gradient', own[0], (b, len(names)), spec, n=3, at='chain.py:_FKAnalyticalBackward.backward', tol=1e-6)


def automatic(x, key, B, dtype=F32):
    S, I = x.S, x.I
    I.sg = True
    r, names, th = setup(x, key, B, dtype)
    n0 = len(I.autograd)
    o = S.m(r.chain, 'forward_kinematics_tensor', th, analytical_grad=False)
    out = x.val(o, 'forward_kinematics_tensor')
    values(x, r, r.chain, out, names, B, [n.name for n in r.spec.nodes], None, 'pose (automatic gradient)')
    x.holds(len(I.autograd) == n0, 'automatic gradient requested', 'a hand-written backward is attached although analytical_grad=False')
    x.holds('th' in tl.gd(I, out) or not names, 'output depends on the joint values', 'no gradient reaches the joint values')
    grad(x, r, r.chain, out, names, B, [n.name for n in r.spec.nodes])


def plain(x, key, B):
    """no gradient requested"""
    S = x.S
    r, names, th = setup(x, key, B, rg=False)
    out = x.val(S.m(r.chain, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
    values(x, r, r.chain, out, names, B, [n.name for n in r.spec.nodes], None, 'pose without gradient')


def through(x, key, B):
    """the dictionary entry points pass the gradient on"""
    S, I = x.S, x.I
    I.sg = True
    r, names, th = setup(x, key, B)
    q = qmap(names)
    d = poses(x, S.m(r.chain, 'forward_kinematics', th), 'forward_kinematics')
    for nm, v in d.items():
        M = x.val(S.m(v, 'get_matrix'), 'get_matrix')
        x.holds('th' in tl.gd(I, M) or not names, 'gradient reaches the joint values', 'the pose of %s is cut off from the joint values' % nm, 'chain.py:Chain.forward_kinematics')
        x.deriv('gradient through the dictionary of poses', M, lambda idx: [T.atom('th', idx[0], num(j)) for j in range(len(names))],
                lambda idx: entry(r.fk(nm, q(idx[0])))(idx), n=2)


def scenarios(tier):
    o = []
    for key in SPECS:
        for B in ('B', 2) if tier == 'quick' else ('B', 1, 2, 3):
            o.append(('analytic.%s.%s' % (key, B), analytic, (key, B), AT))
        o.append(('automatic.%s' % key, automatic, (key, 'B'), AT))
        o.append(('plain.%s' % key, plain, (key, 'B'), AT))
        o.append(('through.%s' % key, through, (key, 'B'), AT))
    o.append(('analytic.tree.f64', analytic, ('tree', 'B', F64), AT))
    for key, e, r in (('arm', 'ee', ''), ('tree', 'a21', 'a'), ('tree', 'b111', ''), ('pp', 'ee', '')):
        o.append(('serial.%s.%s' % (key, e), analytic, (key, 'B', F32, 'tensor', (e, r)), AT))
    return o
