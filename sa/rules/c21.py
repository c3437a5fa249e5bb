"""The MJCF builder is evaluated on models of concrete structure whose numbers are symbolic (MuJoCo's model is a stand-in that hands out the tables); tree, names,
axes, limits and the pose of every body and site are compared with MuJoCo's own kinematics of the model."""
from .docs import *
from .. import mjmodel as M

FLOOR = 150
AT = 'mjcf.py:build_chain_from_mjcf'
BUILD, SERIAL = PK + '.mjcf:build_chain_from_mjcf', PK + '.mjcf:build_serial_chain_from_mjcf'
TEXT = '<mjcf document>'
PROV = {'quat!*': p_unitquat, 'sq!*': p_unitquat}


class B:
    """body: joints is a list of (name, type, limited, anchor)"""

    def __init__(self, name, parent, joints=(), rot=True, sites=()):
        self.name, self.parent, self.joints, self.rot, self.sites = name, parent, list(joints), rot, sites


def J(name, type='hinge', limited=False, anchor=False):
    return (name, type, limited, anchor)


TYPES = {'hinge': M.HINGE, 'slide': M.SLIDE, 'ball': M.BALL, 'free': M.FREE}


class Doc:
    at = AT

    def __init__(self, bodies):
        self.bodies = [B('world', None, (), False)] + bodies
        self.by = {b.name: b for b in self.bodies}
        self.joint = {j[0]: j for b in self.bodies for j in b.joints}

    def model(self, S):
        ids = {b.name: k for k, b in enumerate(self.bodies)}
        body, joint, geom, site = [], [], [], []
        n = lambda base, k: [Num(T.atom(base, i), 'f') for i in range(k)]
        for b in self.bodies:
            w = b.parent is None
            body.append(dict(name=b.name, parentid=0 if w else ids[b.parent], jntnum=len(b.joints), jntadr=len(joint) if b.joints else -1,
                             pos=[0.0] * 3 if w else n('bp!' + b.name, 3), quat=[1.0, 0.0, 0.0, 0.0] if w or not b.rot else n('quat!' + b.name, 4), weldid=0, rootid=0))
            for nm, t, lim, anchor in b.joints:
                joint.append(dict(name=nm, type=TYPES[t], bodyid=ids[b.name], qposadr=len(joint), axis=n('ax!' + nm, 3), pos=n('jp!' + nm, 3) if anchor else [0.0] * 3,
                                  limited=int(lim), range=n('rg!' + nm, 2) if lim else [0.0, 0.0]))
            geom.append(dict(name=b.name + '_geom', bodyid=ids[b.name], type=2, size=n('gs!' + b.name, 3), pos=n('gp!' + b.name, 3), quat=n('sq!g' + b.name, 4)))
            for s in b.sites:
                site.append(dict(name=s, bodyid=ids[b.name], pos=n('sp!' + s, 3), quat=n('sq!' + s, 4), type=2, size=n('ss!' + s, 3)))
        return M.Model(S, dict(body=body, joint=joint, geom=geom, site=site))

    def place(self, b):
        return hom(quat_mat([T.atom('quat!' + b.name, k) for k in range(4)]) if b.rot else eye(3), [T.atom('bp!' + b.name, k) for k in range(3)])

    def motion(self, j, q):
        nm, t, _, anchor = j
        ax = normd([T.atom('ax!' + nm, k) for k in range(3)])
        if t == 'slide':
            return hom(eye(3), [T.mul(q, a) for a in ax])
        R = hom(rodrigues(ax, q), [T.ZERO] * 3)
        if not anchor:
            return R
        p = [T.atom('jp!' + nm, k) for k in range(3)]
        return mmul(hom(eye(3), p), mmul(R, hom(eye(3), [T.neg(c) for c in p])))

    def path(self, name):
        out = []
        while name is not None:
            out.append(self.by[name])
            name = self.by[name].parent
        return out[::-1]

    def fk(self, name, q, root='world', place_root=True):
        P = self.path(name)
        P = P[[b.name for b in P].index(root):]
        X_ = None
        for k, b in enumerate(P):
            L = None
            if b.name != 'world' and (k or place_root):
                L = self.place(b)
            if k and b.joints:
                L = mmul(L, self.motion(b.joints[0], q[b.joints[0][0]]))
            if L is not None:
                X_ = L if X_ is None else mmul(X_, L)
        return X_ if X_ is not None else eye(4)

    def below(self, root):
        return [b for b in self.bodies if root in [a.name for a in self.path(b.name)]]


DOCS = {
    'tree': lambda: Doc([B('a', 'world', [J('j_a', 'hinge', True)]), B('a1', 'a', [J('j_a1', 'slide')]), B('a2', 'a', []), B('a21', 'a2', [J('j_a21', 'hinge')], sites=('s1', 's2')),
                         B('b', 'world', [J('j_b', 'slide', True)], False), B('b1', 'b', [J('j_b1', 'hinge', True)])]),
    'arm': lambda: Doc([B('base', 'world', []), B('l1', 'base', [J('q1', 'hinge', True)]), B('l2', 'l1', [J('q2', 'hinge')], False), B('l3', 'l2', [J('q3', 'slide', True)]), B('ee', 'l3', [], sites=('tip',))]),
    'fixed': lambda: Doc([B('a', 'world'), B('b', 'a'), B('c', 'b', [], False)]),
    'single': lambda: Doc([]),
    'star': lambda: Doc([B('hub', 'world', [J('h', 'slide', True)]), B('x', 'hub', [J('jx')]), B('y', 'hub', [J('jy', 'hinge', True)]), B('z', 'hub', [J('jz', 'slide')], sites=('sz',)), B('w', 'hub')]),
    'deep': lambda: Doc([B('a', 'world', [J('ja', 'hinge', True)]), B('b', 'a', [J('jb', 'hinge')]), B('c', 'b', [J('jc', 'hinge', True)]), B('d', 'c', [J('jd', 'slide')]), B('e', 'd', [J('je', 'hinge')])]),
}


def load(x, doc, *a, **k):
    M.install(x.S.I, {TEXT: doc.model(x.S)})
    return x.S.call(BUILD, TEXT, *a, **k)


def visuals_of(x, b, link, es):
    """every body has one geom in these models: its visual keeps the geom's type, size and pose"""
    S, I = x.S, x.I
    vs = [I.resolve(v) for v in items(x, I.getattr(link, 'visuals'))]
    x.holds(len(vs) == 1, 'geoms of a body', '%s has 1 geom and is loaded with %d' % (b.name, len(vs)), AT)
    for v in vs[:1]:
        par = I.resolve(I.getattr(v, 'geom_param'))
        g = I.reader(par) if isinstance(par, Tensor) else None
        ps = [g((num(k),)) for k in range(3)] if g else [nterm(I.resolve(y)) for y in items(x, par)]
        numeric(x, 'size of a geom', ps, lambda e: [e.ev(T.atom('gs!' + b.name, k)) for k in range(3)], es, 1e-9, AT)
        M_ = hom(quat_mat([T.atom('sq!g' + b.name, k) for k in range(4)]), [T.atom('gp!' + b.name, k) for k in range(3)])
        G = x.val(S.m(I.getattr(v, 'offset'), 'get_matrix'), 'get_matrix')
        x.eq('pose of a geom', G, (1, 4, 4), lambda idx: entry(M_)(idx), es=doc_envs(x.I, PROV), tol=1e-5, at=AT)


def loaded(x, doc, root=None, how=None, B_='B'):
    S, I = x.S, x.I
    doc = DOCS[doc]() if isinstance(doc, str) else doc
    arg = {None: {}, 'name': dict(body=root), 'id': dict(body=[b.name for b in doc.bodies].index(root or 'world')), 'assets': dict(assets=S.dct({}))}[how]
    chain = x.val(load(x, doc, **arg), 'build_chain_from_mjcf')
    root = root or 'world'
    bodies = doc.below(root)
    moving = [b for b in bodies if b.joints and b.name != root]
    sites = {s: b.name for b in bodies for s in b.sites}
    es = doc_envs(I, PROV)
    got = items(x, x.val(S.m(chain, 'get_frame_names', exclude_fixed=False), 'get_frame_names'))
    want = [b.name for b in bodies]
    x.holds(sorted(g for g in got if g not in sites) == sorted(want), 'bodies', 'loads %s, the model has %s' % (sorted(got), sorted(want)), AT)
    names = names_of(x, chain)
    wantj = [b.joints[0][0] for b in moving]
    x.holds(sorted(names) == sorted(wantj), 'moving joints', 'loads %s, the model has %s' % (sorted(names), sorted(wantj)), AT)
    for b in bodies:
        f = frame_parts(x, chain, b.name)
        if f is None:
            x.holds(False, 'bodies', 'body %s is not in the tree' % b.name, AT)
            continue
        kids = [k for k in (I.getattr(c, 'name') for c in items(x, I.getattr(f, 'children'))) if k not in sites]
        wk = [c.name for c in bodies if c.parent == b.name]
        x.holds(sorted(kids) == sorted(wk), 'children of a body', '%s has the children %s, the model says %s' % (b.name, kids, wk), AT)
        visuals_of(x, b, I.resolve(I.getattr(f, 'link')), es)
        jo = I.resolve(I.getattr(f, 'joint'))
        if b.name == root or not b.joints:
            x.holds(I.getattr(jo, 'joint_type') == 'fixed', 'connection of a body without joints', 'of %s is %s' % (b.name, I.getattr(jo, 'joint_type')), AT)
            continue
        nm, t, lim, _ = b.joints[0]
        x.holds(I.getattr(jo, 'name') == nm, 'name of a joint', 'is %r for %s' % (I.getattr(jo, 'name'), nm), AT)
        x.holds(I.getattr(jo, 'joint_type') == {'hinge': 'revolute', 'slide': 'prismatic'}[t], 'type of a joint', 'a %s joint is loaded as %s' % (t, I.getattr(jo, 'joint_type')), AT)
        g = I.reader(I.resolve(I.getattr(jo, 'axis')))
        numeric(x, 'unit axis of a joint', [g((num(k),)) for k in range(3)], lambda e: [e.ev(c) for c in normd([T.atom('ax!' + nm, k) for k in range(3)])], es, 1e-6, AT)
        for lv in [at_env(I, I.getattr(jo, 'limits'), e) for e in es]:
            x.holds((lv is not None) == lim, 'limits of a %s joint' % ('limited' if lim else 'free'), '%s: %s' % (nm, 'has none' if lv is None else 'has limits'), AT)
    if sorted(names) != sorted(wantj):
        return
    o = items(x, x.val(S.m(chain, 'get_joint_limits'), 'get_joint_limits'))
    for side in (0, 1):
        vs = [nterm(I.resolve(y)) if not isinstance(I.resolve(y), Tensor) else nterm(I.elem(I.resolve(y))) for y in items(x, o[side])]
        if len(vs) == len(names):
            numeric(x, 'get_joint_limits', vs, lambda e: [e.ev(T.atom('rg!' + n, side)) if doc.joint[n][2] else (-math.inf, math.inf)[side] for n in names], es, 1e-6, AT)
    poses_of(x, doc, chain, names, want, sites, root, B_)


def poses_of(x, doc, chain, names, want, sites, root, B_, at=AT, place_root=True, **kw):
    S = x.S
    b = S.dim(B_)
    th = S.t('th', (B_, len(names)))
    d = poses(x, S.m(chain, 'forward_kinematics', th, **kw), 'forward_kinematics')
    q = qmap(names)
    for nm in want:
        if nm not in d:
            x.holds(False, 'pose of a body', 'none for %s' % nm, at)
            continue
        G = x.val(S.m(d[nm], 'get_matrix'), 'get_matrix')
        x.eq('pose of a body', G, (b, 4, 4), lambda idx: entry(doc.fk(nm, q(idx[0]), root, place_root))(idx), es=doc_envs(x.I, PROV), tol=1e-5, at=at)
    for s, bn in sites.items():
        if s in d:
            G = x.val(S.m(d[s], 'get_matrix'), 'get_matrix')
            Ls = hom(quat_mat([T.atom('sq!' + s, k) for k in range(4)]), [T.atom('sp!' + s, k) for k in range(3)])
            x.eq('pose of a site', G, (b, 4, 4), lambda idx: entry(mmul(doc.fk(bn, q(idx[0]), root, place_root), Ls))(idx), es=doc_envs(x.I, PROV), tol=1e-5, at=at)


def anchored(x):
    doc = Doc([B('a', 'world', [J('j_a', 'hinge', False, True)]), B('b', 'a', [J('j_b', 'hinge')])])
    chain = x.val(load(x, doc), 'build_chain_from_mjcf')
    poses_of(x, doc, chain, names_of(x, chain), ['a', 'b'], {}, 'world', 'B')


def slide_anchored(x):
    """the anchor of a slide joint has no effect"""
    doc = Doc([B('a', 'world', [J('j_a', 'slide', False, True)]), B('b', 'a', [J('j_b', 'hinge')])])
    chain = x.val(load(x, doc), 'build_chain_from_mjcf')
    poses_of(x, doc, chain, names_of(x, chain), ['a', 'b'], {}, 'world', 'B')


def refused(x, what, bodies):
    x.refused(load(x, Doc(bodies)), what, at=AT)


def one(x, t, lim, rot, parent_rot):
    loaded(x, Doc([B('p', 'world', [], parent_rot), B('c', 'p', [J('j', t, lim)], rot)]))


def serial(x, key, end, root):
    S, I = x.S, x.I
    doc = DOCS[key]()
    at = 'mjcf.py:build_serial_chain_from_mjcf'
    chain = x.val(load(x, doc), 'build_chain_from_mjcf')
    cut = x.val(S.call(CH + ':SerialChain', chain, end, root), 'SerialChain')
    sc = x.val(S.call(SERIAL, TEXT, end, *([root] if root else [])), 'build_serial_chain_from_mjcf')
    n1, n2 = names_of(x, sc), names_of(x, cut)
    site = {s: b.name for b in doc.bodies for s in b.sites}
    P = [b for b in doc.path(site.get(end, end))]
    start = root or 'world'
    P = P[[b.name for b in P].index(start):]
    want = [b.joints[0][0] for b in P[1:] if b.joints]
    x.holds(n1 == want, 'joints of the serial chain', 'has %s, the path has %s' % (n1, want), at)
    x.holds(n1 == n2, 'joints of the serial chain', 'loaded directly %s, cut from the robot %s' % (n1, n2), at)
    if n1 != want:
        return
    poses_of(x, doc, sc, want, [b.name for b in P], {end: site[end]} if end in site else {}, start, 'B', at, False, end_only=False)
    for fn in ('get_joint_limits',):
        for u, v in zip(*(items(x, x.val(S.m(c, fn), fn)) for c in (sc, cut))):
            tt = lambda l: [nterm(I.resolve(y)) if not isinstance(I.resolve(y), Tensor) else nterm(I.elem(I.resolve(y))) for y in items(x, l)]
            numeric(x, fn + ' of the serial chain', tt(u), lambda e: [e.ev(c) for c in tt(v)], doc_envs(I, PROV, 2), 1e-9, at)


def scenarios(tier):
    out = [('tree.%s' % k, loaded, (k,), AT) for k in DOCS]
    out += [('tree.assets', loaded, ('tree', None, 'assets'), AT)]
    for key, root in (('tree', 'a'), ('tree', 'a2'), ('tree', 'b1'), ('arm', 'l1'), ('star', 'hub'), ('deep', 'c'), ('tree', 'world')):
        for how in ('name', 'id'):
            out.append(('body.%s.%s.%s' % (key, root, how), loaded, (key, root, how), AT))
    for t in ('hinge', 'slide'):
        for lim in (True, False):
            for r in (True, False):
                for p in (True, False):
                    out.append(('joint.%s.%s.%s.%s' % (t, lim, r, p), one, (t, lim, r, p), AT))
    out.append(('anchor.hinge', anchored, (), AT))
    out.append(('anchor.slide', slide_anchored, (), AT))
    two = [J('j1'), J('j2', 'slide')]
    for nm, bs in (('two_joints', [B('a', 'world', two)]), ('three_joints', [B('a', 'world', [J('j1', 'slide'), J('j2', 'slide'), J('j3')])]), ('two_joints_deep', [B('a', 'world', [J('j0')]), B('b', 'a'), B('c', 'b', two)]),
                   ('two_joints_second', [B('a', 'world', [J('j0')]), B('b', 'world', two)]), ('ball', [B('a', 'world', [J('j', 'ball')])]), ('free', [B('a', 'world', [J('j', 'free')])]),
                   ('ball_deep', [B('a', 'world', [J('j0')]), B('b', 'a', [J('j', 'ball')]), B('c', 'b', [J('j2')])]), ('free_with_subtree', [B('a', 'world', [J('j', 'free')]), B('b', 'a', [J('j2')])])):
        out.append(('refused.%s' % nm, refused, (nm.replace('_', ' '), bs), AT))
    for key, end, root in (('tree', 'a1', ''), ('tree', 'a21', 'a'), ('tree', 'b1', ''), ('arm', 'ee', ''), ('arm', 'l3', 'l1'), ('arm', 'tip', ''), ('deep', 'e', ''), ('deep', 'd', 'b'), ('fixed', 'c', ''), ('star', 'sz', 'hub')):
        out.append(('serial.%s.%s.%s' % (key, root or 'world', end), serial, (key, end, root), AT))
    return out
