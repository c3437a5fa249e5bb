"""Every batched operation is evaluated with generic batch sizes.  (1) Every value the result element of a generic row depends on must be an input of that row: either
no other row occurs in the value graph at all, or changing the other rows (to random, equal, zero, tiny, large, identity and half turn values) changes nothing in any
interpretation.  (2) The value graphs of the operation on batches of concrete sizes, and on one element alone, agree row by row with the generic one."""
from .lib import *
from .iklib import Problem, names_of, PROVIK
from .c23 import common
from .c24 import WIDE

FLOOR = 200
FAM = {
    'uq!': [(1., 0., 0., 0.), (0., 1., 0., 0.), (-1., 0., 0., 0.), (math.sqrt(1 - 1e-14), 1e-7, 0., 0.)],
    'uv!': [(1., 0., 0.), (0., 0., -1.)],
}
SCAL = [0.0, 1e-9, 1e3, math.pi, -1.0]
EYE = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]]
HT = [[1., 0., 0., 0.], [0., -1., 0., 0.], [0., 0., -1., 0.], [0., 0., 0., 1.]]
HZ = [[-1., 0., 0., 0.], [0., -1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]]
KINDS = ['seed', 'same', 0, 1, 2, 3, 4]


def corner(nm, rest, k):
    if nm.startswith(('uq!', 'uv!')):
        F_ = FAM[nm[:3]]
        return F_[k % len(F_)][rest[-1]]
    if nm.startswith(('rot!', 'rigid!')):
        return [EYE, HT, HZ][k % 3][rest[-2]][rest[-1]]
    if nm.startswith('pos!'):
        return [1.0, 1e-3, 1e3][k % 3]
    return SCAL[k % len(SCAL)]


TW = [0.6e-4, 0.5e-4, -0.7e-4]


def tiny(nm, rest, v):
    """values next to zero / the identity, inside the guarded regions of the conversions"""
    if nm.startswith('uq!'):
        return ([math.sqrt(1 - sum(w * w for w in TW))] + TW)[rest[-1]]
    if nm.startswith(('rot!', 'rigid!')):
        i, j = rest[-2], rest[-1]
        if max(i, j) == 3:
            return v
        a = math.sqrt(sum(w * w for w in TW))
        n = [w / a for w in TW]
        S_ = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
        return float(i == j) + math.sin(a) * S_[i][j] + (1 - math.cos(a)) * (n[i] * n[j] - float(i == j))
    if nm.startswith(('uv!', 'pos!')):
        return v
    return v * 1e-4


class Row:
    """an interpretation in which the rows `rv` of the inputs have the values of `base` (of kind bk) and all others those of kind `ok`"""

    def __init__(self, base, inputs, rv, bk, ok, seed, shift=None):
        self.base, self.inputs, self.rv, self.bk, self.ok, self.shift = base, inputs, rv, bk, ok, shift
        self.other = T.Env('o%s' % seed, base.scale, base.providers, None, base.where, base.norms)
        e = T.Env(base.seed, base.scale, dict(base.providers, **{n: self.val for n in inputs}), None, base.where, base.norms)
        e.sizes = dict(base.sizes)
        self.env = e

    def value(self, nm, idx, kind, src):
        nb = len(self.inputs[nm])
        if kind == 'tiny':
            return tiny(nm, idx[nb:], src.atom(nm, idx, 'R'))
        if isinstance(kind, int):
            return corner(nm, idx[nb:], kind)
        return src.atom(nm, idx, 'R')

    def val(self, e, nm, idx):
        pos = self.inputs[nm]
        nb = len(pos)
        if self.shift is not None:
            idx = self.shift(pos, idx)
        want = tuple(self.rv[p] for p in pos)
        if tuple(idx[:nb]) == want:
            return self.value(nm, idx, self.bk, self.base)
        if self.ok == 'same':
            return self.value(nm, want + tuple(idx[nb:]), self.bk, self.base)
        return self.value(nm, idx, self.ok, self.other)


def foreign(g, inputs, rterms):
    """atoms of g that are inputs of another row than rterms"""
    seen, st, out = set(), [g], []
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'atom' and t.args[0] in inputs:
            pos = inputs[t.args[0]]
            for p, a in zip(pos, t.args[1:]):
                if a is not rterms[p]:
                    out.append(t)
                    break
        for a in t.args:
            if isinstance(a, T.Term):
                st.append(a)
    return out


def num_eq(a, b):
    return close(a, b, 1e-8)


def ev(e, t):
    try:
        return e.ev(t)
    except T.Undefined:
        return None
    except (ZeroDivisionError, OverflowError, ValueError):
        return None


def independent(x, what, t, axes, inputs, at, sizes=None, prov=None):
    I = x.I
    t = I.resolve(t)
    r = tensor_el(x, t)
    c = Cmp()
    for idx in indices(t.shape):
        g = r(idx)
        c.n += 1
        rt = {p: idx[a] for p, a in axes.items()}
        f = foreign(g, inputs, rt)
        if not f:
            c.proved += 1
            continue
        bad = False
        for k, base in enumerate(envs(I, 2 if x.tier == 'quick' else 6, prov)):
            base.sizes = dict(sizes or {})
            rv = {p: int(base.ev(a)) for p, a in rt.items()}
            for bk in ['seed', 0, 1, 3, 'tiny']:
                ref = None
                for ok in KINDS:
                    e = Row(base, inputs, rv, bk, ok, k).env
                    e.fixed = {a.id: rv[p] for p, a in rt.items()}
                    v = ev(e, g)
                    if v is None:
                        continue
                    c.points += 1
                    if ref is None:
                        ref = v
                    elif not num_eq(ref, v):
                        c.bad.append(Mismatch('%s: the value of a batch element changes with the other elements (%s)' % (what, T.show(f[0])), [T.show(i) for i in idx], v, ref, e, g, g))
                        bad = True
                        break
                if bad:
                    break
            if bad:
                break
        if not bad:
            c.ri += 1
    x.cmp(c, what + ' depends on its own row only', at)


def agree(x, what, gen, con, axes, inputs, at, prov=None, sizes=None):
    """con: (tensor, I, lead sizes or None) of the operation on a concrete batch; gen: the same for the generic batch"""
    (tg, rg), (tc, rc, cs) = gen, con
    c = Cmp()
    drop = cs is None
    out = [a for a in axes.values()]
    want = tuple(d for k, d in enumerate(tg.shape) if not (drop and k in out))
    rows_ = [()] if drop else list(itertools.product(*[range(n) for n in cs]))
    if len(rows_) > 6:
        rows_ = rows_[:3] + rows_[-3:]
    es = envs(x.I, 2 if x.tier == 'quick' else 5, prov)
    for idx in indices(tg.shape):
        g = rg(idx)
        for row in rows_:
            if any(idx[a].op == 'num' and idx[a].args[0] != (0 if drop else row[p]) for p, a in axes.items()):
                continue
            ci = tuple(i for k, i in enumerate(idx) if k not in out) if drop else tuple(num(row[[p for p, a in axes.items() if a == k][0]]) if k in out else i for k, i in enumerate(idx))
            c.n += 1
            h = rc(ci)
            bad = False
            for k, base in enumerate(es):
                base.sizes = dict(sizes or {})
                for bk in ('seed', 0, 1, 3):
                    rv = {p: (row[p] if not drop else 0) for p in axes}
                    e = Row(base, inputs, rv, bk, 'seed', k).env
                    e.fixed = {idx[a].id: rv[p] for p, a in axes.items()}
                    shift = (lambda pos, ix: (0,) * len(pos) + tuple(ix)) if drop else None
                    f = Row(base, inputs, rv, bk, 'seed', k, shift).env
                    f.fixed = dict(e.fixed)
                    a, b = ev(e, g), ev(f, h)
                    if a is None or b is None:
                        continue
                    c.points += 1
                    if not num_eq(a, b):
                        c.bad.append(Mismatch('%s: element %s alone and in a batch' % (what, list(row)), [T.show(i) for i in idx], b, a, e, h, g))
                        bad = True
                        break
                if bad:
                    break
            if not bad:
                c.ri += 1
    x.cmp(c, what + (' of one element' if drop else ' of a batch of %s' % 'x'.join(map(str, cs))), at)


# ------------------------------------------------------------------ the operations: op(x, lead) -> [(name, tensor, {batch position: output axis})]
def lead_axes(lead):
    return {p: p for p in range(len(lead))}


def outs(x, v, names, lead):
    vs = v if isinstance(v, tuple) else (v,)
    o = []
    for k, t in enumerate(vs):
        t = x.I.resolve(t)
        if isinstance(t, Unknown):
            raise Undecided(t.reason)
        if not isinstance(t, Tensor):
            continue
        o.append((names if len(vs) == 1 else '%s result %d' % (names, k), t, lead_axes(lead)))
    return o


def conv(name, args, *rest, mods=(), **kw):
    """args: list of (atom name, shape after the batch dims)"""
    def op(x, lead):
        S = x.S
        return outs(x, x.val(S.call(tf(S, name, *mods), *[S.t(a, tuple(lead) + tuple(sh)) for a, sh in args], *rest, **kw), name), name, lead)
    return op, {a for a, _ in args}


def slerp_t(x, lead):
    S = x.S
    return outs(x, x.val(S.call(tf(S, 'quaternion_slerp'), S.t('uq!a', tuple(lead) + (4,)), S.t('uq!b', tuple(lead) + (4,)), S.t('ang!t', tuple(lead))), 'quaternion_slerp'), 'quaternion_slerp', lead)


def slerp_f(x, lead):
    S = x.S
    return outs(x, x.val(S.call(tf(S, 'quaternion_slerp'), S.t('uq!a', tuple(lead) + (4,)), S.t('uq!b', tuple(lead) + (4,)), S.f('t')), 'quaternion_slerp'), 'quaternion_slerp', lead)


def trm(x, nm, lead):
    if x.I.sg:      # differentiated along its entries
        return x.val(x.S.call(TF + ':Transform3d', matrix=x.S.t(nm, tuple(lead) + (4, 4))), 'Transform3d')
    m = x.I.tensor((tuple(x.S.dim(d) for d in lead) or (1,)) + (4, 4), lambda idx: num(int(idx[-1].args[0] == 3)) if idx[-2].args[0] == 3 else T.atom(nm, *(idx if lead else idx[1:])), F32, CPU)
    return x.val(x.S.call(TF + ':Transform3d', matrix=m), 'Transform3d')


def mtx(x, t, what='matrix'):
    return x.val(x.S.m(t, 'get_matrix'), what)


def o_compose(x, lead):
    a, b = trm(x, 'rigid!A', lead), trm(x, 'rigid!B', lead)
    return outs(x, mtx(x, x.val(x.S.m(a, 'compose', b), 'compose')), 'compose', lead)


def o_compose3(x, lead):
    a, b, c = trm(x, 'rigid!A', lead), trm(x, 'rigid!B', ()), trm(x, 'rigid!C', lead)
    return outs(x, mtx(x, x.val(x.S.m(a, 'compose', b, c), 'compose')), 'compose', lead)


def o_inverse(x, lead):
    return outs(x, mtx(x, x.val(x.S.m(trm(x, 'rigid!A', lead), 'inverse'), 'inverse')), 'inverse', lead)


def o_inverse2(x, lead):
    return outs(x, mtx(x, x.val(x.S.m(trm(x, 'rigid!A', lead), 'inverse', invert_composed=True), 'inverse')), 'inverse', lead)


def o_points(meth, eps=None, shared=False, eachpt=True):
    def op(x, lead):
        S = x.S
        t = trm(x, 'rigid!A', lead)
        p = S.t('p', (2, 3) if shared or not lead else tuple(lead) + (2, 3))
        if not lead:
            p = S.t('p', (2, 3))
        v = x.val(S.m(t, meth, p, **({} if eps is None else {'eps': eps})), meth)
        return outs(x, v, meth, lead)
    return op


def o_b2b(meth):
    def op(x, lead):
        S = x.S
        v = x.val(S.m(trm(x, 'rigid!A', lead), meth, S.t('p', tuple(lead) + (3,)), batch_to_batch=True), meth)
        return outs(x, v, meth + ' batch_to_batch', lead)
    return op


def o_manypts(meth):
    """one transform, many points: the batch are the points"""
    def op(x, lead):
        S = x.S
        v = x.val(S.m(trm(x, 'rigid!A', ()), meth, S.t('p', tuple(lead) + (3,))), meth)
        v = x.I.resolve(v)
        o = outs(x, v, meth, lead)
        return [(n, t, {0: len(t.shape) - 2}) for n, t, _ in o]
    return op


def o_shape(x, lead):
    S = x.S
    v = x.val(S.m(trm(x, 'rigid!A', lead), 'transform_shape_operator', S.t('h', tuple(lead) + (2, 3, 3))), 'transform_shape_operator')
    return outs(x, v, 'transform_shape_operator', lead)


def o_build(cls, args, **kw):
    def op(x, lead):
        S = x.S
        v = x.val(S.call(tf(S, cls), *[S.t(a, tuple(lead) + sh) for a, sh in args], **kw), cls)
        return outs(x, mtx(x, v), cls, lead)
    return op


def o_builder(x, lead):
    S = x.S
    t = x.val(S.m(trm(x, 'rigid!A', lead), 'translate', S.t('t', tuple(lead) + (3,))), 'translate')
    t = x.val(S.m(t, 'rotate', S.t('rot!R', tuple(lead) + (3, 3))), 'rotate')
    t = x.val(S.m(t, 'rotate_axis_angle', S.t('ang', lead), 'Y', False), 'rotate_axis_angle')
    return outs(x, mtx(x, t), 'translate/rotate/rotate_axis_angle', lead)


def o_tfargs(pos, rot):
    def op(x, lead):
        S = x.S
        kw = {}
        if pos:
            kw['pos'] = S.t('p', tuple(lead) + (3,))
        if rot:
            nm, sh = rot
            kw['rot'] = S.t(nm, tuple(lead) + sh)
        return outs(x, mtx(x, x.val(S.call(TF + ':Transform3d', **kw), 'Transform3d')), 'Transform3d', lead)
    return op


def o_fk(key, how, rg=False):
    def op(x, lead):
        S = x.S
        r = Robot(S, key)
        n = len(r.spec.joints())
        th = S.t('th', tuple(lead) + (n,), rg=rg)
        if how == 'tensor':
            v = x.val(S.m(r.chain, 'forward_kinematics_tensor', th, **({'analytical_grad': False} if rg == 2 else {})), 'forward_kinematics_tensor')
            v = x.I.resolve(v)
            return [('forward_kinematics_tensor', v, {0: 1})]
        from .c01 import poses
        d = poses(x, S.m(r.chain, 'forward_kinematics', th), 'forward_kinematics')
        return [('forward_kinematics', x.I.resolve(mtx(x, d[k])), {0: 0}) for k in sorted(d)]
    return op


def o_jac(key, end, root, form=None, pose=False):
    def op(x, lead):
        S = x.S
        r = Robot(S, key)
        c = r.serial(end, root).val()
        th = S.t('th', tuple(lead) + (len(names_of(x, c)),))
        kw = {}
        if form == 'pos':
            kw['locations'] = S.t('tp', tuple(lead) + (3,))
        elif form == 'tf':
            kw['locations'] = trm(x, 'rigid!T', lead)
        if pose:
            kw['ret_eef_pose'] = True
        return outs(x, x.val(S.m(c, 'jacobian', th, **kw), 'jacobian'), 'jacobian', lead)
    return op


def o_clamp(x, lead):
    S = x.S
    lim = {n.name: (S.f('lo!' + n.name), S.f('hi!' + n.name)) for n in ALL['tree'].joints()}
    r = Robot(S, 'tree', limits=lim)
    th = S.t('th', tuple(lead) + (len(lim),))
    return outs(x, x.val(S.m(r.chain, 'clamp', th), 'clamp'), 'clamp', lead)


def o_delta(x, lead):
    S = x.S
    B = lead[0] if lead else 1
    v = x.val(S.call(PK + '.ik:delta_pose', S.t('rigid!m', (B, 1, 4, 4)), S.t('tp', (B, 3)), S.t('uq!t', (B, 4))), 'delta_pose')
    return [(n, x.I.resolve(t), {0: 0}) for n, t in zip(('pose error', 'position error', 'rotation error'), v)]


def o_ik(key, end, root, cls, iters, kinds=None, **opts):
    def op(x, lead):
        S = x.S
        p = Problem(x, key, end, root, kinds, R=2, init='BR', B=lead[0])
        ik = p.solver(cls, max_iterations=iters, **common(x, **dict(dict(enforce_joint_limits=False, early_stopping_no_improvement=None), **opts)))
        sol = p.solve(ik)
        o = []
        for a in ('solutions', 'err_pos', 'err_rot', 'converged_pos', 'converged_rot', 'converged'):
            t = x.I.resolve(S.attr(sol, a))
            if isinstance(t, Unknown):
                raise Undecided(t.reason)
            if isinstance(t, Tensor) and t.shape and t.shape[0] is S.dim(lead[0]) or isinstance(lead[0], int):
                o.append((a, t, {0: 0}))
        return o
    return op


def do(x, op, inputs, ranks, sizes, at, prov=None, generic=('B', 'C')):
    """ranks: numbers of batch dimensions to try; sizes: concrete batch sizes to compare with (None = no batch dimension)"""
    for rank in ranks:
        x.fresh()
        lead = generic[:rank]
        inp = {k: tuple(v) for k, v in inputs.items()} if isinstance(inputs, dict) else {a: tuple(range(rank)) for a in inputs}
        sz = {'B': 3, 'C': 3}
        I0 = x.I
        gen = []
        for what, t, axes in op(x, lead):
            t = I0.resolve(t)
            if not isinstance(t, Tensor):
                raise Undecided(what)
            ok = all(a < len(t.shape) and same_dim(t.shape[a], x.S.dim(lead[p])) for p, a in axes.items())
            x.holds(ok, what + ' batch shape', 'batch dimensions %s give a result of shape %s' % (list(lead), [T.show(d) if isinstance(d, T.Term) else d for d in t.shape]), at)
            if not ok:
                return
            independent(x, what, t, axes, inp, at, sz, prov)
            gen.append((what, t, I0.reader(t), axes))
        for s in sizes:
            if s is None and rank != 1:
                continue
            cs = None if s is None else (s, 2)[:rank] if rank > 1 else (s,)
            x.fresh()
            res = op(x, () if s is None else cs)
            if len(res) != len(gen):
                x.holds(False, 'results', '%d results for a generic batch, %d for batch %s' % (len(gen), len(res), cs), at)
                return
            for (what, tg, rg, axes), (_, tc, _) in zip(gen, res):
                tc = x.I.resolve(tc)
                if not isinstance(tc, Tensor):
                    raise Undecided(what)
                o = set(axes.values())
                if s is None and len(tc.shape) == len(tg.shape):
                    # an operation that keeps a batch dimension of one
                    shape = tuple(1 if k in o else d for k, d in enumerate(tg.shape))
                    rc0 = x.I.reader(tc)
                    rc = lambda ci, rc0=rc0, o=o, n=len(tg.shape): rc0(_ins(ci, o, n))
                else:
                    shape = tuple(d for k, d in enumerate(tg.shape) if k not in o) if s is None else tuple(cs[[p for p, a in axes.items() if a == k][0]] if k in o else d for k, d in enumerate(tg.shape))
                    rc = x.I.reader(tc)
                ok = len(shape) == len(tc.shape) and all(same_dim(a, b) for a, b in zip(shape, tc.shape))
                x.holds(ok, what + ' shape for batch %s' % (cs,), 'shape %s, required %s' % ([T.show(d) if isinstance(d, T.Term) else d for d in tc.shape], shape), at)
                if ok:
                    agree(x, what, (tg, rg), (tc, rc, cs), axes, inp, at, prov, sz)


def _ins(ci, o, n):
    it = iter(ci)
    return tuple(num(0) if k in o else next(it) for k in range(n))


def scenarios(tier):
    o = []
    V3, Q, M = (3,), (4,), (3, 3)
    table = [
        ('quaternion_to_matrix', [('q', Q)]), ('matrix_to_quaternion', [('rot!R', M)]), ('standardize_quaternion', [('q', Q)]), ('quaternion_raw_multiply', [('p', Q), ('q', Q)]),
        ('quaternion_multiply', [('p', Q), ('q', Q)]), ('quaternion_invert', [('q', Q)]), ('quaternion_apply', [('uq!q', Q), ('p', V3)]), ('axis_and_d_to_pris_matrix', [('a', V3), ('d', ())]),
        ('axis_and_angle_to_matrix_44', [('uv!a', V3), ('th', ())]), ('axis_and_angle_to_matrix_33', [('uv!a', V3), ('th', ())]), ('axis_angle_to_matrix', [('v', V3)]),
        ('matrix_to_axis_angle', [('rot!R', M)]), ('axis_angle_to_quaternion', [('v', V3)]), ('quaternion_to_axis_angle', [('uq!q', Q)]), ('rotation_6d_to_matrix', [('d6', (6,))]),
        ('matrix_to_rotation_6d', [('rot!R', M)]), ('matrix44_to_se3_9d', [('rigid!M', (4, 4))]), ('se3_9d_to_matrix44', [('d9', (9,))]), ('matrix_to_pos_rot', [('rigid!M', (4, 4))]),
        ('pos_rot_to_matrix', [('p', V3), ('uq!q', Q)]), ('xyzw_to_wxyz', [('q', Q)]), ('wxyz_to_xyzw', [('q', Q)]), ('acos_linear_extrapolation', [('c', ())]),
    ]
    for nm, a in table:
        op, ins = conv(nm, a)
        mods = 'transforms/math.py' if nm.startswith('acos') else RC
        o.append((nm, do, (op, ins, (1, 2), (1, 2, 3, 4, None)), '%s:%s' % (mods, nm)))
    for cv in ('XYZ', 'ZYX', 'ZXZ', 'YXY'):
        for nm, a in (('euler_angles_to_matrix', [('e', V3)]), ('matrix_to_euler_angles', [('rot!R', M)])):
            op, ins = conv(nm, a, cv)
            o.append(('%s.%s' % (nm, cv), do, (op, ins, (1, 2), (1, 3, None)), '%s:%s' % (RC, nm)))
    for ax in ('sxyz', 'rzyx', 'szxz'):
        op, ins = conv('quaternion_from_euler', [('e', V3)], ax)
        o.append(('quaternion_from_euler.' + ax, do, (op, ins, (1, 2), (1, 3, None)), RC + ':quaternion_from_euler'))
    op, ins = conv('quaternion_angular_distance', [('uq!a', Q), ('uq!b', Q)])
    o.append(('quaternion_angular_distance', do, (op, ins, (1,), (1, 2, 3, 4)), 'transforms/math.py:quaternion_angular_distance'))
    o.append(('quaternion_slerp.tensor', do, (slerp_t, {'uq!a', 'uq!b', 'ang!t'}, (1,), (1, 2, 3, 4)), 'transforms/math.py:quaternion_slerp'))
    o.append(('quaternion_slerp.float', do, (slerp_f, {'uq!a', 'uq!b'}, (1,), (1, 2, 3, 4)), 'transforms/math.py:quaternion_slerp'))
    for nm, a, mo in (('so3_relative_angle', [('rot!A', M), ('rot!B', M)], {}), ('so3_rotation_angle', [('rot!A', M)], {}), ('so3_rotation_angle', [('rot!A', M)], {'cos_angle': True}),
                      ('so3_exp_map', [('v', V3)], {}), ('so3_log_map', [('rot!A', M)], {}), ('hat', [('v', V3)], {})):
        op, ins = conv(nm, a, **mo)
        o.append(('%s%s' % (nm, '.cos' if mo else ''), do, (op, ins, (1,), (1, 2, 3)), 'transforms/so3.py:' + nm))
    T3 = 'transforms/transform3d.py:Transform3d.'
    A = {'rigid!A'}
    o += [('compose', do, (o_compose, A | {'rigid!B'}, (1,), (1, 2, 3, None)), T3 + 'compose'),
          ('compose3', do, (o_compose3, {'rigid!A': (0,), 'rigid!C': (0,)}, (1,), (1, 2, 3)), T3 + 'compose'),
          ('inverse', do, (o_inverse, A, (1,), (1, 2, 3, 4, None)), T3 + 'inverse'), ('inverse.composed', do, (o_inverse2, A, (1,), (1, 2, 3)), T3 + 'inverse'),
          ('shape', do, (o_shape, A | {'h'}, (1,), (1, 2, 3)), T3 + 'transform_shape_operator'), ('builders', do, (o_builder, A | {'t', 'rot!R', 'ang'}, (1,), (1, 2, 3, 4)), T3 + 'compose'),
          ('Translate', do, (o_build('Translate', [('t', V3)]), {'t'}, (1,), (1, 2, 3)), 'transforms/transform3d.py:Translate'),
          ('Scale', do, (o_build('Scale', [('pos!s', V3)]), {'pos!s'}, (1,), (1, 2, 3)), 'transforms/transform3d.py:Scale'),
          ('Scale1', do, (o_build('Scale', [('pos!s', ())]), {'pos!s'}, (1,), (1, 2, 3)), 'transforms/transform3d.py:Scale'),
          ('Rotate', do, (o_build('Rotate', [('rot!R', M)]), {'rot!R'}, (1,), (1, 2, 3, None)), 'transforms/transform3d.py:Rotate'),
          ('RotateAxisAngle', do, (o_build('RotateAxisAngle', [('ang', ())], axis='Z'), {'ang'}, (1,), (1, 2, 3)), 'transforms/transform3d.py:RotateAxisAngle')]
    for meth in ('transform_points', 'transform_normals'):
        o.append((meth, do, (o_points(meth), A | {'p'}, (1,), (1, 2, 3, 4)), T3 + meth))
        o.append((meth + '.shared', do, (o_points(meth, shared=True), {'rigid!A'}, (1,), (2, 3, 4)), T3 + meth))
        o.append((meth + '.b2b', do, (o_b2b(meth), A | {'p'}, (1,), (1, 2, 3, 4)), T3 + meth))
        o.append((meth + '.points', do, (o_manypts(meth), {'p'}, (1,), (1, 2, 3, 4)), T3 + meth))
    o.append(('transform_points.eps', do, (o_points('transform_points', eps=1e-3), A | {'p'}, (1,), (1, 2, 3)), T3 + 'transform_points'))
    for pos in (0, 1):
        for rot in (None, ('rot!R', M), ('uq!q', Q), ('e', V3)):
            if pos or rot:
                # a (3, 3) rotation argument is a matrix: three Euler triples cannot be given
                eul = bool(rot) and rot[0] == 'e'
                o.append(('Transform3d.%d.%s' % (pos, rot and rot[0]), do, (o_tfargs(pos, rot), ({'p'} if pos else set()) | ({rot[0]} if rot else set()), (1,),
                                                                            (1, 2, 4, 6, None) if eul else (1, 2, 3, 4, None), T3 + '__init__', None, (5,) if eul else ('B', 'C')), T3 + '__init__'))
    for key in ALL:
        if not ALL[key].joints():
            continue
        o.append(('fk.' + key, do, (o_fk(key, 'dict'), {'th'}, (1,), (1, 2, 3, None)), 'chain.py:Chain.forward_kinematics', ))
        for rg in (False, True, 2):
            o.append(('fkt.%s.%d' % (key, rg), do, (o_fk(key, 'tensor', rg), {'th'}, (1,), (1, 2, 4)), 'chain.py:Chain.forward_kinematics_tensor'))
    for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('pp', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('seven', 'ee', '')):
        for form in (None, 'pos', 'tf'):
            for pose in (0, 1):
                o.append(('jac.%s.%s.%s.%d' % (key, e, form, pose), do, (o_jac(key, e, r, form, pose), {'th'} | ({'tp'} if form == 'pos' else {'rigid!T'} if form == 'tf' else set()), (1,), (1, 2, 3) + ((None,) if form is None else ())), 'chain.py:SerialChain.jacobian'))
    o.append(('clamp', do, (o_clamp, {'th'}, (1,), (1, 2, 3, None)), 'chain.py:Chain.clamp'))
    o.append(('delta_pose', do, (o_delta, {'rigid!m': (0,), 'tp': (0,), 'uq!t': (0,)}, (1,), (1, 2, 3)), 'ik.py:delta_pose'))
    for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('pp', 'ee', '')):
        for cls in ('PseudoInverseIK', 'PseudoInverseIKWithSVD'):
            for it in (0, 1, 2) if key == 'rr' else (0, 1):
                if it == 0:
                    o.append(('ik.enforced.%s.%s' % (key, cls), do, (o_ik(key, e, r, cls, it, ('both', 'narrow'), enforce_joint_limits=True, num_limit_refinement_iterations=0), {'q0': (0,), 'rigid!goal': (0,)}, (1,), (1, 2), 'ik.py:PseudoInverseIK.solve',
                                                                    dict(PROVIK, **WIDE)), 'ik.py:PseudoInverseIK.solve'))
                o.append(('ik.%s.%s.%d' % (key, cls, it), do, (o_ik(key, e, r, cls, it), {'q0': (0,), 'rigid!goal': (0,)}, (1,), (1, 2), 'ik.py:PseudoInverseIK.solve', PROVIK), 'ik.py:PseudoInverseIK.solve'))
    return [(s[0], s[1], s[2] if len(s[2]) > 4 else s[2] + (s[3],), s[3]) for s in o]
