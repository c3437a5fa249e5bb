"""Every operation is evaluated with gradient cuts (detach, no_grad, item, numpy, tensor(tensor)) marked in the value graph.  For every output element and every tensor
input it is computed from: the input has to be among the tensors the gradient reaches, and the derivative of the marked graph (as automatic differentiation would
form it) has to equal the derivative of the same graph without cuts.  At inputs that select a guarded formula every derivative has to be finite (including the
0 * inf of an unselected torch.where branch) and continue the derivative next to the guarded region."""
from .lib import *
from .iklib import names_of
from . import c10
from .c01 import poses

FLOOR = 150


def strip(t, memo={}):
    """t without the gradient cuts"""
    r = memo.get(t.id)
    if r is not None:
        return r[1]
    if t.op == 'fn' and t.args[0] == 'sg':
        r = strip(t.args[1])
    else:
        a = tuple(strip(y) if isinstance(y, T.Term) else y for y in t.args)
        r = t if all(p is q for p, q in zip(a, t.args)) else T.rebuild(t, a)
    memo[t.id] = (t, r)
    return r


def atoms_in(g, names, limit=64):
    seen, st, out = set(), [g], {}
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'atom' and t.args[0] in names:
            out[t.id] = t
        for a in t.args:
            if isinstance(a, T.Term):
                st.append(a)
    return list(out.values())


def mark(x):
    """inputs made from now on require gradients"""
    x.I.sg = True
    S = x.S
    orig = S.t

    def t(name, shape, dtype=F32, device=CPU, rg=False, kind='torch', **k):
        return orig(name, shape, dtype, device, rg or (kind == 'torch' and dtype in (F32, F64)), kind, **k)
    S.t = t


def near(e, v):
    return v == v and not math.isinf(v)


def dual(e, g, w):
    try:
        return e.dual(g, w)[1]
    except T.Undefined:
        return None
    except (ZeroDivisionError, OverflowError, ValueError):
        return None


def flows(x, what, t, inputs, at, es, tol=1e-6):
    """no cut between the inputs and the output"""
    I = x.I
    t = I.resolve(t)
    if not isinstance(t, Tensor):
        raise Undecided(what)
    if t.dtype not in (F32, F64):
        return
    r = tensor_el(x, t)
    used = set()
    c = Cmp()
    n = 0
    for idx in indices(t.shape):
        g = r(idx)
        ws = atoms_in(g, inputs)
        used |= {w.args[0] for w in ws}
        n += 1
        if n > 80:
            continue
        s = strip(g)
        for w in ws[:10]:
            c.n += 1
            if s is g:
                c.proved += 1
                continue
            bad = False
            for e in es:
                a, b = dual(e, g, w), dual(e, s, w)
                if a is None or b is None:
                    continue
                c.points += 1
                if not close(a, b, tol):
                    c.bad.append(Mismatch('%s: derivative of element' % what, [T.show(i) for i in idx] + ['along ' + T.show(w)], a, b, e, g, s))
                    bad = True
                    break
            if not bad:
                c.ri += 1
    gd = tl.gd(I, t)
    for nm in sorted(used):
        x.holds(nm in gd, '%s: gradient reaches %s' % (what, nm), 'the result is computed from %s but no gradient reaches it' % nm, at)
    x.cmp(c, what + ': derivatives', at)


def op(x, f, inputs, lead, at, prov=None):
    mark(x)
    I = x.I
    names = set(inputs)
    for what, t, axes in f(x, lead):
        es = envs(I, 2 if x.tier == 'quick' else 5, prov)
        flows(x, what, t, names, at, es)


def special(x, f, inputs, pts, at, lim=None, tol=2e-2, skip=()):
    """derivatives at special points: finite, and close to those at a nearby point"""
    mark(x)
    I = x.I
    c = Cmp()
    for what, t, axes in f(x, ()):
        t = I.resolve(t)
        r = tensor_el(x, t)
        for idx in indices(t.shape):
            g = r(idx)
            for w in atoms_in(g, set(inputs)):
                for k, (p, q) in enumerate(pts):
                    c.n += 1
                    e = envs(I, 1, {nm: p_const(v) for nm, v in p.items()}, k)[0]
                    a = dual(e, g, w)
                    if a is None:
                        c.unknown.append('%s: derivative undefined' % what)
                        continue
                    c.points += 1
                    if not near(e, a):
                        c.bad.append(Mismatch('%s: derivative along %s at %s of element' % (what, T.show(w), p), [T.show(i) for i in idx], a, 'a finite value', e, g, g))
                        continue
                    if q is not None:
                        e2 = envs(I, 1, {nm: p_const(v) for nm, v in q.items()}, k)[0]
                        b = dual(e2, g, w)
                        if b is not None and near(e2, b) and not close(a, b, tol):
                            c.bad.append(Mismatch('%s: derivative along %s at %s of element' % (what, T.show(w), p), [T.show(i) for i in idx], a, b, e, g, g))
                            continue
                    c.ri += 1
    x.cmp(c, 'finite derivatives', at)


def fk_zero(x, key, how, end=None, root=''):
    """joint values of exactly zero, half turns, and identity offsets"""
    mark(x)
    S, I = x.S, x.I
    r = Robot(S, key)
    if end:
        c = r.serial(end, root).val()
        n = len(names_of(x, c))
    else:
        c, n = r.chain, len(r.spec.joints())
    th = S.t('th', (1, n))
    if how == 'tensor':
        v = x.val(S.m(c, 'forward_kinematics_tensor', th, analytical_grad=False), 'forward_kinematics_tensor')
    else:
        v = x.val(S.m(c, how, th), how)
    rr = tensor_el(x, v)
    cm = Cmp()
    es = envs(I, 2, dict(CORNER, th=p_const([[0.0] * n]))) + envs(I, 2, dict(CORNER, th=p_const([[math.pi] * n])), 7)
    for idx in indices(I.resolve(v).shape):
        g = rr(idx)
        for w in atoms_in(g, {'th'}):
            cm.n += 1
            bad = False
            for e in es:
                a, b = dual(e, g, w), dual(e, strip(g), w)
                if a is None:
                    continue
                cm.points += 1
                if not near(e, a) or (b is not None and near(e, b) and not close(a, b, 1e-6)):
                    cm.bad.append(Mismatch('derivative along %s of element' % T.show(w), [T.show(i) for i in idx], a, b, e, g, g))
                    bad = True
                    break
            if not bad:
                cm.ri += 1
    x.cmp(cm, 'finite derivatives', 'chain.py:Chain.forward_kinematics_tensor')


def params(x, key):
    """differentiating forward kinematics along the geometry of the robot (analytical_grad=False)"""
    mark(x)
    S, I = x.S, x.I
    orig = Robot.mat
    Robot.mat = lambda self, name: self.S.t(name, (1, 4, 4), self.dtype, self.device, rg=True)
    try:
        r = Robot(S, key)
    finally:
        Robot.mat = orig
    n = len(r.spec.joints())
    th = S.t('th', ('B', n))
    v = x.val(S.m(r.chain, 'forward_kinematics_tensor', th, analytical_grad=False), 'forward_kinematics_tensor')
    # (a joint keeps a detached copy of the axis it is given, by design: the axes given are no chain parameters)
    names = {'th'} | {'rigid!%s.%s' % (m.name, s) for m in r.spec.nodes for s in ('jo', 'lo')}
    flows(x, 'forward_kinematics_tensor', v, names, 'chain.py:Chain.forward_kinematics_tensor', envs(I, 1))


def analytic(x, key, end, root, what, B):
    """with the hand-written backward in place the outputs stay connected to the joint values and to the tool"""
    mark(x)
    S, I = x.S, x.I
    r = Robot(S, key)
    at = 'chain.py:Chain.forward_kinematics'
    if what == 'chain':
        th = S.t('th', (B, len(r.spec.joints())))
        d = poses(x, S.m(r.chain, 'forward_kinematics', th), 'forward_kinematics')
        for n in r.spec.nodes:
            M = x.val(S.m(d[n.name], 'get_matrix'), 'get_matrix')
            x.holds('th' in tl.gd(I, M) or not r.ancestors(n.name), 'pose of a frame', 'no gradient reaches the joint values from %s' % n.name, at)
        return
    c = r.serial(end, root).val()
    th = S.t('th', (B, len(names_of(x, c))))
    if what == 'serial':
        M = x.val(S.m(x.val(S.m(c, 'forward_kinematics', th), 'fk'), 'get_matrix'), 'get_matrix')
        x.holds('th' in tl.gd(I, M), 'pose of the end', 'no gradient reaches the joint values', at)
        return
    kw = {'tool': dict(locations=S.t('tp', (B, 3)), ret_eef_pose=True), 'pos': dict(locations=S.t('tp', (3,)), ret_eef_pose=True), 'plain': {}, 'pose': dict(ret_eef_pose=True)}[what]
    v = x.val(S.m(c, 'jacobian', th, **kw), 'jacobian')
    vs = v if isinstance(v, tuple) else (v,)
    for k, t in enumerate(vs):
        g = tl.gd(I, I.resolve(t))
        # the Jacobian of translations alone is constant
        x.holds('th' in g, 'jacobian result %d' % k, 'no gradient reaches the joint values', 'chain.py:SerialChain.jacobian')
        if 'locations' in kw:
            x.holds('tp' in g, 'jacobian result %d along the tool' % k, 'no gradient reaches the tool position', 'chain.py:SerialChain.jacobian')
        flows(x, 'jacobian result %d' % k, t, {'th', 'tp'}, 'chain.py:SerialChain.jacobian', envs(I, 2 if x.tier == 'quick' else 4))


def scenarios(tier):
    o = []
    for nm, fn, args, at in c10.scenarios(tier):
        f, inp, ranks, sizes = args[:4]
        if nm.startswith(('ik.', 'clamp', 'fk.', 'fkt.', 'delta', 'jac.')):
            continue
        gen = args[6] if len(args) > 6 else ('B', 'C')
        names = sorted(set(inp) | {'rigid!A', 'rigid!B', 'rigid!C', 'p'} if nm[0].islower() and ('rigid!A' in inp or 'shared' in nm or 'points' in nm) else set(inp))
        o.append((nm, op, (f, names, gen[:1], at), at))
        if 2 in ranks:
            o.append((nm + '.2', op, (f, names, gen[:2], at), at))
        if None in sizes:
            o.append((nm + '.one', op, (f, names, (), at), at))
    K = 'chain.py:Chain.forward_kinematics_tensor'
    for key in ('tree', 'arm', 'rr', 'pp', 'rootmove', 'star'):
        o.append(('fk.%s' % key, op, (c10.o_fk(key, 'tensor', 2), ['th'], ('B',), K), K))
        o.append(('params.%s' % key, params, (key,), K))
        o.append(('zero.%s' % key, fk_zero, (key, 'tensor'), K))
        for B in ('B', 1):
            o.append(('analytic.%s.%s' % (key, B), analytic, (key, '', '', 'chain', B), 'chain.py:Chain.forward_kinematics'))
    for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a')):
        for what in ('serial', 'plain', 'tool', 'pos', 'pose'):
            for B in ('B', 1):
                o.append(('serial.%s.%s.%s.%s' % (key, e, what, B), analytic, (key, e, r, what, B), 'chain.py:SerialChain.jacobian'))
    # special points
    Z3, Z33 = [0., 0., 0.], [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    s = 1e-3
    u = [s * 0.6, s * 0.48, s * 0.64]
    from ..api import qmat_num
    qn = [math.cos(s / 2)] + [math.sin(s / 2) * c / s for c in u]
    Rn = qmat_num(qn)

    def sp(nm, a, pts, mods, **kw):
        f, ins = c10.conv(nm, a, **kw)
        o.append(('special.' + nm + ('.cos' if kw else ''), special, (f, sorted(ins), pts, mods + ':' + nm), mods + ':' + nm))
    V = [('v', (3,))]
    for nm in ('axis_angle_to_quaternion', 'axis_angle_to_matrix'):
        sp(nm, V, [({'v': Z3}, {'v': u})], RC)
    sp('quaternion_to_axis_angle', [('q', (4,))], [({'q': [1., 0., 0., 0.]}, {'q': qn}), ({'q': [1., 1e-9, 0., 0.]}, {'q': qn})], RC)
    sp('matrix_to_quaternion', [('R', (3, 3))], [({'R': Z33}, None)], RC)
    sp('matrix_to_axis_angle', [('R', (3, 3))], [({'R': Z33}, None)], RC)
    sp('standardize_quaternion', [('q', (4,))], [({'q': [0., 1., 0., 0.]}, None), ({'q': [1., 0., 0., 0.]}, None)], RC)
    sp('axis_and_angle_to_matrix_33', [('a', (3,)), ('th', ())], [({'a': [0., 0., 1.], 'th': 0.0}, {'a': [0., 0., 1.], 'th': 1e-3})], RC)
    sp('axis_and_angle_to_matrix_44', [('a', (3,)), ('th', ())], [({'a': [0., 0., 1.], 'th': 0.0}, {'a': [0., 0., 1.], 'th': 1e-3})], RC)
    sp('acos_linear_extrapolation', [('c', ())], [({'c': v}, None) for v in (1.0, -1.0, 1.0 - 1e-4, 1.5, -2.0, 0.0)], 'transforms/math.py')
    L3 = lambda v: [v]
    o.append(('special.so3_exp_map', special, (lambda x, lead: c10.outs(x, x.val(x.S.call(tf(x.S, 'so3_exp_map'), x.S.t('v', (1, 3))), 'so3_exp_map'), 'so3_exp_map', ()), ['v'],
                                               [({'v': [Z3]}, {'v': [u]}), ({'v': [[1e-6, 0., 0.]]}, None)], 'transforms/so3.py:so3_exp_map'), 'transforms/so3.py:so3_exp_map'))
    o.append(('special.so3_log_map', special, (lambda x, lead: c10.outs(x, x.val(x.S.call(tf(x.S, 'so3_log_map'), x.S.t('R', (1, 3, 3))), 'so3_log_map'), 'so3_log_map', ()), ['R'],
                                               [({'R': [Z33]}, None), ({'R': [Rn]}, None)], 'transforms/so3.py:so3_log_map'), 'transforms/so3.py:so3_log_map'))
    o.append(('special.so3_rotation_angle', special, (lambda x, lead: c10.outs(x, x.val(x.S.call(tf(x.S, 'so3_rotation_angle'), x.S.t('R', (1, 3, 3))), 'so3_rotation_angle'), 'so3_rotation_angle', ()), ['R'],
                                                      [({'R': [Z33]}, None)], 'transforms/so3.py:so3_rotation_angle'), 'transforms/so3.py:so3_rotation_angle'))
    q = [0.5, 0.5, 0.5, 0.5]
    sp('quaternion_angular_distance', [('a', (4,)), ('b', (4,))], [({'a': q, 'b': q}, None), ({'a': q, 'b': [-c for c in q]}, None), ({'a': q, 'b': [0.5, -0.5, 0.5, -0.5]}, None)], 'transforms/math.py')
    o.append(('special.quaternion_slerp', special, (lambda x, lead: c10.outs(x, x.val(x.S.call(tf(x.S, 'quaternion_slerp'), x.S.t('a', (4,)), x.S.t('b', (4,)), x.S.f('t')), 'quaternion_slerp'), 'quaternion_slerp', ()), ['a', 'b'],
                                                    [({'a': q, 'b': q}, None), ({'a': q, 'b': [-c for c in q]}, None)], 'transforms/math.py:quaternion_slerp'), 'transforms/math.py:quaternion_slerp'))
    return o
