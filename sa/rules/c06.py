"""Robots whose joints carry symbolic, pairwise distinct limits are evaluated; the order of the joint names is taken from the code and every other
per-joint quantity (joint values in tensors and dictionaries, axes, limits, Jacobian columns, solution columns) is compared with that order."""
from .lib import *
from .c01 import poses, qmap
from .c04 import Ser

FLOOR = 80
AT = 'chain.py:Chain.get_joint_parameter_names'
KINDS = [('limits', 'get_joint_limits'), ('velocity_limits', 'get_joint_velocity_limits'), ('effort_limits', 'get_joint_effort_limits')]
SER = [('arm', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('pp', 'ee', ''), ('star', 'b1', ''), ('rootmove', 'l2', '')]


def build(x, key, pattern=0):
    """pattern selects which joints have which limits"""
    S = x.S
    je = {}
    have = {}
    for k, n in enumerate(x_ for x_ in ALL[key].nodes if x_.jt != 'fixed'):
        d = {}
        for j, (attr, _) in enumerate(KINDS):
            if (k + j + pattern) % 4 != 3:
                lo, hi = ('%s!lo!%s' % (attr, n.name), '%s!hi!%s' % (attr, n.name))
                d[attr] = (S.f(lo), S.f(hi)) if pattern % 2 == 0 else S.lst([S.f(lo), S.f(hi)])
                have[attr, n.name] = (T.atom(lo), T.atom(hi))
        je[n.name] = d
    return Robot(S, key, jextra=je), have


def names_of(x, chain, **kw):
    v = x.val(x.S.m(chain, 'get_joint_parameter_names', **kw), 'get_joint_parameter_names')
    return strings(x, v)


def strings(x, v):
    I = x.I
    if isinstance(v, ListV):
        segs = I.segs(v)
        if any(s.kind != 'item' or s.cond is not T.TRUE for s in segs):
            raise Undecided('list with symbolic length')
        v = tuple(I.resolve(s.v) for s in segs)
    if not isinstance(v, tuple) or any(not isinstance(s, str) for s in v):
        raise Undecided('names %r' % (v,))
    return list(v)


def items(x, v):
    v = x.I.resolve(v)
    if isinstance(v, ListV):
        segs = x.I.segs(v)
        if any(s.kind != 'item' or s.cond is not T.TRUE for s in segs):
            raise Undecided('list with symbolic length')
        return [x.I.resolve(s.v) for s in segs]
    if isinstance(v, tuple):
        return list(v)
    raise Undecided('not a list: %r' % (v,))


def same_nodes(x, names, nodes, what, at=AT):
    want = [n.jname for n in nodes]
    x.holds(len(set(names)) == len(names), what + ': one entry per joint', 'duplicates in %s' % names, at)
    x.holds(sorted(names) == sorted(want), what + ': exactly the moving joints', 'lists %s, the robot moves by %s' % (names, want), at)
    by = {n.jname: n for n in nodes}
    return [by.get(n) for n in names]


def listing(x, key, pattern, serial):
    S, I = x.S, x.I
    r, have = build(x, key, pattern)
    if serial is None:
        chain = r.chain
        nodes = r.spec.joints()
    else:
        end, root = serial
        chain = r.serial(end, root).val()
        start = root or r.spec.nodes[0].name
        path = r.spec.path(end)
        k = [n.name for n in path].index(start)
        nodes = [n for n in path[k + 1:] if n.jt != 'fixed']
    names = names_of(x, chain)
    order = same_nodes(x, names, nodes, 'joint names')
    if None in order:
        return
    # limits
    for attr, m in KINDS:
        v = x.val(S.m(chain, m), m)
        lo, hi = [items(x, w) for w in items(x, v)]
        x.holds(len(lo) == len(order) == len(hi), m + ': one per joint', '%d / %d entries for %d joints' % (len(lo), len(hi), len(order)), 'chain.py:Chain.' + m)
        pairs = []
        for got, n, side in [(g, n, 0) for g, n in zip(lo, order)] + [(g, n, 1) for g, n in zip(hi, order)]:
            w = have.get((attr, n.name))
            want = w[side] if w else T.INF if side else T.neg(T.INF)
            pairs.append((nterm(got), want))
        x.terms(m, pairs, at='chain.py:Chain._get_joint_limits')
    for attr, side in (('low', 0), ('high', 1)):
        t = S.attr(chain, attr)

        def spec(idx, side=side):
            n = order[int(idx[0].args[0])]
            w = have.get(('limits', n.name))
            return w[side] if w else T.INF if side else T.neg(T.INF)
        x.eq('chain.' + attr, t, (len(order),), spec, at='chain.py:Chain.__init__')
    x.eq('axes', S.attr(chain, 'axes'), (len(order), 3), lambda i: r.axis(order[int(i[0].args[0])])[int(i[1].args[0])], at='chain.py:Chain.__init__')
    # joint objects, frames of the joints
    js = items(x, x.val(S.m(chain, 'get_joints'), 'get_joints'))
    jn = [I.resolve(S.attr(j, 'name')) for j in js]
    x.holds(jn == names, 'get_joints in the order of the names', 'get_joints gives %s, the names are %s' % (jn, names), 'chain.py:Chain.get_joints')
    fn = strings(x, x.val(S.m(chain, 'get_joint_parent_frame_names'), 'get_joint_parent_frame_names'))
    x.holds(fn == [n.name for n in order], 'frames of the joints in the order of the names', '%s for joints %s' % (fn, names), 'chain.py:Chain.get_joint_parent_frame_names')
    # columns of the joint tensor
    th = S.t('th', ('B', len(order)))
    q = qmap(names)
    start = None if serial is None else (serial[1] or r.spec.nodes[0].name)
    out = x.val(S.m(chain, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
    ends = [n.name for n in (r.spec.nodes if serial is None else nodes)]
    for nm in ends:
        i = x.val(S.m(chain, 'get_frame_indices', nm), 'get_frame_indices')
        M = I.getitem(out, I.getitem(i, 0))
        x.eq('columns of the joint tensor', M, (S.dim('B'), 4, 4), lambda idx: entry(r.fk(nm, q(idx[0]), start))(idx), n=2, at='chain.py:Chain.forward_kinematics_tensor')
    # dictionary entries, in another order
    d = S.dct({nm: S.t('q!' + nm, ('B',)) for nm in names[::-1]})
    t = x.val(S.m(chain, 'ensure_tensor', d), 'ensure_tensor')
    if names:
        x.eq('dictionary input', t, (S.dim('B'), len(order)), lambda idx: T.atom('q!' + names[int(idx[1].args[0])], idx[0]), at='chain.py:Chain.ensure_tensor')
    # clamp
    c = x.val(S.m(chain, 'clamp', th), 'clamp')

    def spec(idx):
        n = order[int(idx[1].args[0])]
        v = T.atom('th', idx[0], idx[1])
        w = have.get(('limits', n.name))
        return tmin(tmax(v, w[0]), w[1]) if w else v
    x.eq('clamp', c, (S.dim('B'), len(order)), spec, at='chain.py:Chain.clamp')
    # fixed joints included on request
    allj = [I.resolve(S.attr(j, 'name')) for j in items(x, x.val(S.m(chain, 'get_joints', exclude_fixed=False), 'get_joints'))]
    x.holds([n for n in allj if n in names] == names, 'moving joints keep their order among all joints', '%s against %s' % (allj, names), 'chain.py:Chain.get_joints')


def tmin(a, b):
    return T.ite(T.lt(a, b), a, b)


def tmax(a, b):
    return T.ite(T.lt(a, b), b, a)


def columns(x, key, end, root):
    """Jacobian columns in the order of the names"""
    S = x.S
    s = Ser(x, key, end, root)
    names = names_of(x, s.chain)
    order = same_nodes(x, names, s.nodes, 'joint names of the serial chain')
    if None in order:
        return
    th = S.t('th', ('B', len(names)))
    v = x.val(S.m(s.chain, 'jacobian', th), 'jacobian')
    base = [n.jname for n in s.nodes]

    def spec(idx):
        J = s.jac(qmap(names)(idx[0]))
        return J[int(idx[1].args[0])][base.index(names[int(idx[2].args[0])])]
    x.eq('Jacobian columns', v, (S.dim('B'), 6, len(names)), spec, n=3, at='chain.py:SerialChain.jacobian_tensor')


def solution(x, key, end, root, pattern):
    """columns of the inverse kinematics solution: with no iterations it is the initial configuration brought into the limits"""
    S, I = x.S, x.I
    r, have = build(x, key, pattern)
    chain = r.serial(end, root).val()
    names = names_of(x, chain)
    by = {n.jname: n for n in r.spec.nodes}
    order = [by[n] for n in names]
    q0 = S.t('q0', (2, len(names)))
    ik = x.val(S.call(PK + '.ik:PseudoInverseIK', chain, retry_configs=q0, max_iterations=0, num_limit_refinement_iterations=0), 'PseudoInverseIK')
    m = I.tensor((S.dim('B'), 4, 4), lambda idx: num(int(idx[2].args[0] == 3)) if idx[1].args[0] == 3 else T.atom('rigid!goal', *idx), F32, CPU)
    goal = x.val(S.call(TF + ':Transform3d', matrix=m), 'Transform3d')
    sol = x.val(S.m(ik, 'solve', goal), 'solve')
    t = S.attr(sol, 'solutions')
    TWO = T.mul(num(2), T.PI)

    def spec(idx):
        n = order[int(idx[2].args[0])]
        v = T.atom('q0', idx[1], idx[2])
        w = have.get(('limits', n.name))
        if w is None:
            return v
        if n.jt == 'revolute':
            c = T.div(T.add(*w), num(2))
            v = T.add(v, T.mul(T.fn('round', T.div(T.sub(c, v), TWO)), TWO))
        return tmin(tmax(v, w[0]), w[1])
    prov = {'limits!lo!*': p_range(-4.0, -0.5), 'limits!hi!*': p_range(0.5, 4.0), 'q0': p_range(-12.0, 12.0)}
    x.eq('columns of the solution', t, (S.dim('B'), 2, len(names)), spec, prov, n=4, at='ik.py:InverseKinematics.__init__')


def scenarios(tier):
    o = []
    for key in SPECS:
        for p in range(2 if tier == 'quick' else 4):
            o.append(('listing.%s.%d' % (key, p), listing, (key, p, None), AT))
    for key, e, r in SER:
        for p in range(2 if tier == 'quick' else 4):
            o.append(('listing.%s.%s.%s.%d' % (key, r, e, p), listing, (key, p, (e, r)), AT))
            o.append(('solution.%s.%s.%s.%d' % (key, r, e, p), solution, (key, e, r, p), 'ik.py:PseudoInverseIK.solve'))
        o.append(('columns.%s.%s.%s' % (key, r, e), columns, (key, e, r), 'chain.py:SerialChain.jacobian_tensor'))
    return o
