"""URDF documents of concrete structure whose numbers are all symbolic are read by the package's own parser and builder inside the analyser (lxml's elements are
stand-ins that hand out the document); names, tree, axes, limits, visuals and the pose of every link are compared with what the document states."""
from .docs import *

FLOOR = 200
AT = 'urdf.py:build_chain_from_urdf'
ALLLIM = 'lower upper effort velocity'


def L(*ns):
    return [Lk(n) for n in ns]


DOCS = {
    # a tree whose joints are listed child first, with every joint type, origin form and limit form
    'tree': lambda: Urdf([Lk('b1'), Lk('base'), Lk('a2'), Lk('a'), Lk('a1'), Lk('b')],
                         [Jt('j_b1', 'prismatic', 'b', 'b1', 'both', True, ALLLIM), Jt('j_a2', 'continuous', 'a', 'a2', 'rpy', True, None), Jt('j_a', 'revolute', 'base', 'a', 'both', True, ALLLIM),
                          Jt('j_a1', 'fixed', 'a', 'a1', 'both', False, None), Jt('j_b', 'continuous', 'base', 'b', 'xyz', True, 'effort velocity')]),
    'arm': lambda: Urdf(L('base', 'l1', 'l2', 'm', 'l3', 'ee'),
                        [Jt('q1', 'revolute', 'base', 'l1', 'both', True, ALLLIM), Jt('q2', 'revolute', 'l1', 'l2', 'both', True, 'effort velocity'), Jt('f1', 'fixed', 'l2', 'm', 'rpy'),
                         Jt('q3', 'prismatic', 'm', 'l3', 'both', True, 'upper effort velocity'), Jt('f2', 'fixed', 'l3', 'ee', 'both')]),
    'single': lambda: Urdf(L('base'), []),
    'fixed': lambda: Urdf(L('base', 'a', 'b'), [Jt('f1', 'fixed', 'base', 'a', 'both'), Jt('f2', 'fixed', 'a', 'b', 'both')]),
    'noaxis': lambda: Urdf(L('base', 'a', 'b'), [Jt('j1', 'revolute', 'base', 'a', 'both', False, None), Jt('j2', 'prismatic', 'a', 'b', None, False, 'lower effort velocity')]),
    'deep': lambda: Urdf(L('e', 'd', 'c', 'b', 'a'), [Jt('j_e', 'revolute', 'd', 'e', 'both', True, ALLLIM), Jt('j_d', 'continuous', 'c', 'd', None, True, ALLLIM), Jt('j_c', 'prismatic', 'b', 'c', 'xyz', True, None),
                                                      Jt('j_b', 'revolute', 'a', 'b', 'rpy', True, None)]),
    'star': lambda: Urdf(L('hub', 'x', 'y', 'z', 'w'), [Jt('j_%s' % n, t, 'hub', n, o, True, l) for n, t, o, l in
                                                        (('x', 'revolute', 'both', ALLLIM), ('y', 'continuous', 'both', None), ('z', 'prismatic', 'empty', ALLLIM), ('w', 'fixed', 'both', None))]),
    'visuals': lambda: Urdf([Lk('base', None, [Vs('box', 'both')]), Lk('a', None, [Vs('sphere', None), Vs('cylinder', 'rpy'), Vs('mesh', 'xyz')]), Lk('b', None, [Vs('capsule', 'both'), Vs('mesh', 'both', True)]), Lk('c')],
                            [Jt('j1', 'revolute', 'base', 'a', 'both'), Jt('j2', 'fixed', 'a', 'b', 'both'), Jt('j3', 'prismatic', 'a', 'c', 'xyz')]),
}


def loaded(x, key):
    doc = DOCS[key]()
    check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_urdf'))


def ordered(x, key, perm):
    """the order of the joints in the document does not matter"""
    if key == 'chain':
        doc = Urdf(L('c', 'a', 'd', 'b'), [Jt('j_%s' % c, t, p, c, 'both', True, ALLLIM) for p, c, t in (('a', 'b', 'revolute'), ('b', 'c', 'prismatic'), ('c', 'd', 'continuous'))])
    else:
        doc = Urdf(L('e', 'd', 'c', 'b', 'a'), [Jt('j_%s' % c, t, p, c, 'both', True, ALLLIM) for p, c, t in (('a', 'b', 'revolute'), ('b', 'c', 'prismatic'), ('b', 'd', 'fixed'), ('a', 'e', 'continuous'))])
    doc.joints = [doc.joints[i] for i in perm]
    check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_urdf'))


def extras(x):
    """elements that say nothing about the geometry of the tree"""
    doc = DOCS['visuals']()
    n = doc.node()
    N, num_, vec = X.Node, X.number, X.vector
    org = lambda nm: N('origin', {'xyz': vec('oxyz!' + nm, 3), 'rpy': vec('orpy!' + nm, 3)})
    for c in n.c:
        if c.tag == 'link':
            nm = c.a['name']
            c.c.insert(0, N('inertial', {}, [org('i' + nm), N('mass', {'value': num_('m' + nm)}), N('inertia', {k: num_(k + nm) for k in ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')})]))
            c.c.append(N('collision', {'name': 'x'}, [org('c' + nm), N('geometry', {}, [N('box', {'size': vec('cs' + nm, 3)})])]))
        if c.tag == 'joint':
            c.c.append(N('dynamics', {'damping': num_('damp' + c.a['name'])}))
            c.c.append(N('safety_controller', {'k_velocity': num_('kv' + c.a['name']), 'soft_lower_limit': num_('sl' + c.a['name']), 'soft_upper_limit': num_('su' + c.a['name'])}))
            c.c.append(N('calibration', {'rising': num_('ris' + c.a['name'])}))
    n.c += [N('material', {'name': 'blue'}, [N('color', {'rgba': vec('rgba', 4)})]), N('gazebo', {'reference': 'a'}, [N('selfCollide', text='1')]),
            N('transmission', {'name': 't'}, [N('type', text='x'), N('joint', {'name': 'j1'}, [N('hardwareInterface', text='y')]), N('actuator', {'name': 'm'}, [N('mechanicalReduction', text='1')])]),
            N('unheard_of', {'a': 'b'})]
    n.a['version'] = '1.0'
    check_tree(x, doc, x.val(build(x, doc, node=n), 'build_chain_from_urdf'))


def one_joint(x, t, origin, axis, limit):
    doc = Urdf(L('p', 'c'), [Jt('j', t, 'p', 'c', origin, axis, limit)])
    check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_urdf'))


def one_visual(x, kind, origin, scale):
    doc = Urdf([Lk('p', None, [Vs(kind, origin, scale)]), Lk('c', None, [Vs('sphere', 'both'), Vs(kind, origin, scale)])], [Jt('j', 'revolute', 'p', 'c', 'xyz')])
    check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_urdf'))


def refused_type(x, t):
    doc = Urdf(L('p', 'c'), [Jt('j', t, 'p', 'c', 'xyz')])
    x.refused(build(x, doc), 'a joint of type %s' % t, at=AT)


def serial(x, key, end, root, B='B'):
    """the serial chain loaded directly: poses as stated, same joints as the one cut from the loaded robot"""
    cut_serial(x, DOCS[key](), end, root, B)


def cut_serial(x, doc, end, root, B='B'):
    S, I = x.S, x.I
    at = doc.at.replace('build_', 'build_serial_')
    chain = x.val(build(x, doc), 'chain')
    cut = x.val(S.call(CH + ':SerialChain', chain, end, root), 'SerialChain')
    sc = x.val(build(x, doc, (end, root) if root else (end,)), 'serial chain')
    n1, n2 = names_of(x, sc), names_of(x, cut)
    x.holds(n1 == n2, 'joints of the serial chain', 'loaded directly %s, cut from the robot %s' % (n1, n2), at)
    start = root or doc.root
    path = doc.path(end)
    if root and root != doc.root:
        path = path[[j.child for j in path].index(root) + 1:]
    want = [j.name for j in path if doc.moving(j)]
    x.holds(n1 == want, 'joints of the serial chain', 'has %s, the path has %s' % (n1, want), at)
    if n1 != want:
        return
    on = [start] + [j.child for j in path]
    fk(x, doc, sc, want, B, at, start=None if not root and doc.kind == 'x' else start, only=on)
    th = S.t('th', (B, len(want)))
    M = x.val(S.m(x.val(S.m(sc, 'forward_kinematics', th), 'forward_kinematics'), 'get_matrix'), 'get_matrix')
    W = x.val(S.m(x.val(S.m(cut, 'forward_kinematics', th), 'forward_kinematics'), 'get_matrix'), 'get_matrix')
    g = I.reader(W)
    x.eq('end pose', M, (S.dim(B), 4, 4), lambda idx: g(idx), n=3, tol=1e-6, at=at)
    for fn in ('get_joint_limits', 'get_joint_velocity_limits', 'get_joint_effort_limits'):
        a, b = (S.m(c, fn) for c in (sc, cut))
        for u, v in zip(items(x, x.val(a, fn)), items(x, x.val(b, fn))):
            u, v = items(x, u), items(x, v)
            x.holds(len(u) == len(v), fn, '%d and %d' % (len(u), len(v)), at)
            if len(u) == len(v):
                numeric(x, fn + ' of the serial chain', [nterm(I.resolve(y)) for y in u], lambda e: [e.ev(nterm(I.resolve(y))) for y in v], doc_envs(I, None, 2), 1e-9, at)


def scenarios(tier):
    out = [('tree.%s' % k, loaded, (k,), AT) for k in DOCS]
    for k, n in (('chain', 3), ('branched', 4)):
        for p in itertools.permutations(range(n)):
            out.append(('order.%s.%s' % (k, ''.join(map(str, p))), ordered, (k, p), AT))
    out.append(('extras', extras, (), AT))
    for t in ('revolute', 'continuous', 'prismatic', 'fixed'):
        for o in (None, 'empty', 'xyz', 'rpy', 'both'):
            out.append(('joint.%s.origin.%s' % (t, o), one_joint, (t, o, True, None), AT))
        if t != 'fixed':
            for lim in ('effort velocity', 'lower effort velocity', 'upper effort velocity', ALLLIM):
                out.append(('joint.%s.limit.%s' % (t, lim.replace(' ', '_')), one_joint, (t, 'both', True, lim), AT))
            out.append(('joint.%s.noaxis' % t, one_joint, (t, 'both', False, None), AT))
    for k in Urdf.GEO:
        for o in (None, 'empty', 'xyz', 'rpy', 'both'):
            out.append(('visual.%s.%s' % (k, o), one_visual, (k, o, False), AT))
    out.append(('visual.mesh.scaled', one_visual, ('mesh', 'both', True), AT))
    for t in ('floating', 'planar', 'unknown', 'hinge', ''):
        out.append(('refused.%s' % t, refused_type, (t,), AT))
    for key, end, root in (('tree', 'b1', ''), ('tree', 'a2', 'a'), ('tree', 'a1', 'base'), ('arm', 'ee', ''), ('arm', 'l3', 'l1'), ('deep', 'e', ''), ('deep', 'e', 'c'), ('fixed', 'b', ''), ('visuals', 'b', ''), ('star', 'z', 'hub')):
        out.append(('serial.%s.%s.%s' % (key, root or 'root', end), serial, (key, end, root), AT))
    return out
