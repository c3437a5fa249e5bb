"""SDF documents of concrete structure whose numbers are all symbolic are read by the package's own parser and builder inside the analyser (lxml's elements are
stand-ins that hand out the document); names, tree, axes, limits, visuals and the pose of every link are compared with what the document states."""
from .docs import *
from .c19 import cut_serial

FLOOR = 200
AT = 'sdf.py:build_chain_from_sdf'


def K(*rows):
    return [Lk(*r) for r in rows]


def J(*rows):
    return [Jt(*r) for r in rows]


BO = 'both'
DOCS = {
    'tree': lambda: Sdf(K(('b1', BO), ('base', BO), ('a2', 'rpy'), ('a', BO), ('a1', BO), ('b', 'xyz')),
                        J(('j_b1', 'prismatic', 'b', 'b1', None, True, 'lower upper'), ('j_a2', 'revolute', 'a', 'a2'), ('j_a', 'revolute', 'base', 'a', None, True, 'lower upper'),
                          ('j_a1', 'fixed', 'a', 'a1'), ('j_b', 'revolute', 'base', 'b', None, True, ''))),
    'arm': lambda: Sdf(K(('base',), ('l1', BO), ('l2', BO), ('m', 'rpy'), ('l3', BO), ('ee', BO)),
                       J(('q1', 'revolute', 'base', 'l1', None, True, 'lower upper'), ('q2', 'revolute', 'l1', 'l2', None, True, 'lower'), ('f1', 'fixed', 'l2', 'm'),
                         ('q3', 'prismatic', 'm', 'l3', None, True, 'upper'), ('f2', 'fixed', 'l3', 'ee'))),
    'single': lambda: Sdf(K(('base', BO)), []),
    'fixed': lambda: Sdf(K(('base', 'xyz'), ('a', BO), ('b', 'rpy')), J(('f1', 'fixed', 'base', 'a'), ('f2', 'fixed', 'a', 'b'))),
    'deep': lambda: Sdf(K(('e', BO), ('d',), ('c', BO), ('b', 'rpy'), ('a', 'rpy')),
                        J(('j_e', 'revolute', 'd', 'e', None, True, 'lower upper'), ('j_d', 'revolute', 'c', 'd'), ('j_c', 'prismatic', 'b', 'c'), ('j_b', 'revolute', 'a', 'b'))),
    'star': lambda: Sdf(K(('hub', BO), ('x', BO), ('y', BO), ('w', 'xyz')), J(('j_x', 'revolute', 'hub', 'x', None, True, 'lower upper'), ('j_y', 'prismatic', 'hub', 'y'), ('j_w', 'fixed', 'hub', 'w'))),
    'visuals': lambda: Sdf([Lk('base', BO, [Vs('box', BO)]), Lk('a', BO, [Vs('sphere', None), Vs('cylinder', 'rpy'), Vs('mesh', 'xyz')]), Lk('b', 'rpy', [Vs('cylinder', BO)]), Lk('c')],
                           J(('j1', 'revolute', 'base', 'a'), ('j2', 'fixed', 'a', 'b'), ('j3', 'prismatic', 'a', 'c'))),
}


def loaded(x, key):
    doc = DOCS[key]()
    check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_sdf'))


def ordered(x, key, perm):
    if key == 'chain':
        doc = Sdf(K(('c', BO), ('a',), ('d', BO), ('b', BO)), J(*[('j_%s' % c, t, p, c, None, True, 'lower upper') for p, c, t in (('a', 'b', 'revolute'), ('b', 'c', 'prismatic'), ('c', 'd', 'revolute'))]))
    else:
        doc = Sdf(K(('e', BO), ('d', BO), ('c', BO), ('b', BO), ('a', BO)), J(*[('j_%s' % c, t, p, c, None, True, 'lower upper') for p, c, t in
                                                                    (('a', 'b', 'revolute'), ('b', 'c', 'prismatic'), ('b', 'd', 'fixed'), ('a', 'e', 'revolute'))]))
    doc.joints = [doc.joints[i] for i in perm]
    check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_sdf'))


def one_joint(x, t, pp, pc, axis, limit, jpose=None):
    doc = Sdf(K(('p', pp), ('c', pc), ('g', BO)), J(('j', t, 'p', 'c', jpose, axis, limit), ('k', 'fixed', 'c', 'g')))
    if jpose is None:
        check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_sdf'))
        return
    # the joint frame lies at P in the child's frame: the child moves about that frame
    P = doc.mat(jpose, 'joint.j')
    base = doc.motion
    doc.motion = lambda j, q: mmul(P, mmul(base(j, q), inv(P))) if j.name == 'j' else base(j, q)
    S = x.S
    chain = x.val(build(x, doc), 'build_chain_from_sdf')
    fk(x, doc, chain, names_of(x, chain), 'B', AT)


def one_visual(x, kind, origin, scale):
    doc = Sdf([Lk('p', BO, [Vs(kind, origin, scale)]), Lk('c', None, [Vs('sphere', BO), Vs(kind, origin, scale)])], J(('j', 'revolute', 'p', 'c')))
    check_tree(x, doc, x.val(build(x, doc), 'build_chain_from_sdf'))


def refused_type(x, t):
    doc = Sdf(K(('p',), ('c', 'xyz')), J(('j', t, 'p', 'c')))
    x.refused(build(x, doc), 'a joint of type %s' % t, at=AT)


def extras(x):
    doc = DOCS['visuals']()
    n = doc.node()
    N, num_, vec = X.Node, X.number, X.vector
    m = n.c[0]
    for c in m.c:
        if c.tag == 'link':
            nm = c.a['name']
            c.c.insert(0, N('inertial', {}, [N('pose', text=vec('ip' + nm, 6)), N('mass', text=num_('m' + nm)), N('inertia', {}, [N(k, text=num_(k + nm)) for k in ('ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz')])]))
            c.c.append(N('collision', {'name': 'x'}, [N('pose', text=vec('cp' + nm, 6)), N('geometry', {}, [N('box', {}, [N('size', text=vec('cs' + nm, 3))])])]))
            c.c.append(N('self_collide', text='0'))
            for v in c.c:
                if v.tag == 'visual':
                    v.c.append(N('material', {}, [N('script', {}, [N('uri', text='u'), N('name', text='n')])]))
        if c.tag == 'joint':
            for a in c.c:
                if a.tag == 'axis':
                    a.c.append(N('dynamics', {}, [N('damping', text=num_('damp' + c.a['name'])), N('friction', text=num_('fric' + c.a['name']))]))
    m.c.insert(0, N('static', text='0'))
    check_tree(x, doc, x.val(build(x, doc, node=n), 'build_chain_from_sdf'))


def serial(x, key, end, root):
    doc = DOCS[key]()
    cut_serial(x, doc, end, root)


def scenarios(tier):
    out = [('tree.%s' % k, loaded, (k,), AT) for k in DOCS]
    for k, n in (('chain', 3), ('branched', 4)):
        for p in itertools.permutations(range(n)):
            out.append(('order.%s.%s' % (k, ''.join(map(str, p))), ordered, (k, p), AT))
    out.append(('extras', extras, (), AT))
    for t in ('revolute', 'prismatic', 'fixed'):
        for p in (None, 'xyz', 'rpy', BO):
            for c in (None, 'xyz', 'rpy', BO):
                out.append(('joint.%s.poses.%s.%s' % (t, p, c), one_joint, (t, p, c, True, None), AT))
        if t != 'fixed':
            for lim in ('', 'lower', 'upper', 'lower upper'):
                out.append(('joint.%s.limit.%s' % (t, lim.replace(' ', '_')), one_joint, (t, BO, BO, True, lim), AT))
            out.append(('joint.%s.noaxis' % t, one_joint, (t, BO, BO, False, None), AT))
            out.append(('joint.%s.with_pose' % t, one_joint, (t, BO, BO, True, None, 'xyz'), AT))
    for k in Sdf.GEO:
        for o in (None, 'xyz', 'rpy', BO):
            out.append(('visual.%s.%s' % (k, o), one_visual, (k, o, False), AT))
    out.append(('visual.mesh.scaled', one_visual, ('mesh', BO, True), AT))
    for t in ('revolute2', 'ball', 'screw', 'universal', 'gearbox', 'unknown', ''):
        out.append(('refused.%s' % t, refused_type, (t,), AT))
    for key, end, root in (('tree', 'b1', ''), ('tree', 'a2', 'a'), ('tree', 'a1', 'base'), ('arm', 'ee', ''), ('arm', 'l3', 'l1'), ('deep', 'e', ''), ('deep', 'e', 'c'), ('fixed', 'b', ''), ('visuals', 'b', ''), ('star', 'y', 'hub')):
        out.append(('serial.%s.%s.%s' % (key, root or 'root', end), serial, (key, end, root), AT))
    return out
