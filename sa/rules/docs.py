"""Robot descriptions (URDF, SDF) with concrete structure and symbolic numbers, and what they mean."""
from .lib import *
from .iklib import numeric
from .c01 import poses, qmap
from .c06 import items, names_of
from .. import xmldoc as X

NEG, POS = T.neg(T.INF), T.INF


def _pick(vs):
    return lambda e, name, idx: vs[int(e.h('pick', name, idx) * len(vs)) % len(vs)]


def _axis(e, name, idx):
    """an axis along a coordinate direction, of any length and sign"""
    if not idx:
        name, k = name.rsplit('!', 1)
    else:
        k = idx[-1]
    k = int(k)
    a = int(e.h('axis', name) * 6) % 6
    return (0.0 if a // 2 != k else 1.0 if a % 2 else -2.0)


def _quat(e, name, idx):
    """identity, half and quarter turns about coordinate axes"""
    a = int(e.h('quat', name) * 7) % 7
    h = math.sqrt(0.5)
    q = [1.0, 0, 0, 0] if a == 0 else [0.0] + [1.0 if k == a - 1 else 0.0 for k in range(3)] if a < 4 else [h] + [-h if k == a - 4 else 0.0 for k in range(3)]
    return q[int(idx[-1])]


# the values real documents are full of: zeros, ones, right angles, axis-aligned joints
CORNER = {'xyz!*': _pick([0.0, 0.0, 1.0, -0.5]), 'rpy!*': _pick([0.0, 0.0, math.pi / 2, -math.pi / 2, math.pi]), 'ax!*': _axis,
          'lower!*': _pick([0.0, -1.0, -math.pi]), 'upper!*': _pick([0.0, 1.0, math.pi]), 'velocity!*': _pick([0.0, 1.0, 10.0]), 'effort!*': _pick([0.0, 1.0, 10.0]),
          'rg!*': lambda e, name, idx: (0.0, 1.0)[int(idx[-1])] if e.h('rg', name) < .5 else (-math.pi, 0.0)[int(idx[-1])],
          'quat!*': _quat, 'sq!*': _quat, 'bp!*': _pick([0.0, 0.0, 1.0, -0.5]), 'jp!*': _pick([0.0, 0.0, 1.0, -0.5]), 'gp!*': _pick([0.0, 0.0, 1.0]),
          'sp!*': _pick([0.0, 0.0, 1.0])}


def doc_envs(I, prov=None, n=3):
    return envs(I, n, prov) + envs(I, n, CORNER, seed0=900)


class Vs:
    """visual: kind, origin form, name of its numbers"""

    def __init__(self, kind, origin=None, scale=False):
        self.kind, self.origin, self.scale = kind, origin, scale


class Lk:
    def __init__(self, name, pose=None, visuals=()):
        self.name, self.pose, self.visuals = name, pose, list(visuals)


class Jt:
    """limit: None (no element) or the set of its values given, e.g. 'lower upper effort velocity'"""

    def __init__(self, name, type, parent, child, origin=None, axis=True, limit=None):
        self.name, self.type, self.parent, self.child = name, type, parent, child
        self.origin, self.axis, self.limit = origin, axis, limit


def v3(nm):
    return [T.atom('%s!%d' % (nm, k)) for k in range(3)]


def rpy_mat(a):
    r, p, y = a
    return mmul(rotz(y), mmul(roty(p), rotx(r)))


def inv(M):
    R = [[M[j][i] for j in range(3)] for i in range(3)]
    p = mvec(R, [M[i][3] for i in range(3)])
    return hom(R, [T.neg(c) for c in p])


class Doc:
    def __init__(self, links, joints):
        self.links, self.joints = links, joints
        self.by = {l.name: l for l in links}
        self.up = {j.child: j for j in joints}
        self.root = [l.name for l in links if l.name not in self.up][0]

    def path(self, name):
        out = []
        while name in self.up:
            out.append(self.up[name])
            name = self.up[name].parent
        return out[::-1]

    def moving(self, j):
        return j.type != 'fixed'

    def axis(self, j):
        return normd(v3('ax!' + j.name)) if j.axis else [T.ZERO, T.ZERO, T.ONE]

    def motion(self, j, q):
        if j.type in ('revolute', 'continuous'):
            return hom(rodrigues(self.axis(j), q), [T.ZERO] * 3)
        if j.type == 'prismatic':
            return hom(eye(3), [T.mul(q, a) for a in self.axis(j)])
        return eye(4)

    def fk(self, name, q, start=None):
        M = None if start is not None else self.base()
        path = self.path(name)
        if start is not None and start != self.root:
            k = [j.child for j in path].index(start)
            path = path[k + 1:]
        for j in path:
            L = self.offset(j)
            if self.moving(j):
                m = self.motion(j, q[j.name])
                L = m if L is None else mmul(L, m)
            if L is not None:
                M = L if M is None else mmul(M, L)
        return M if M is not None else eye(4)

    def kids(self, name):
        return [j.child for j in self.joints if j.parent == name]


class Urdf(Doc):
    kind = 'urdf'
    builder, sbuilder = PK + '.urdf:build_chain_from_urdf', PK + '.urdf:build_serial_chain_from_urdf'
    at = 'urdf.py:build_chain_from_urdf'

    def origin(self, form, nm):
        if form is None:
            return []
        a = {}
        if form in ('xyz', 'both'):
            a['xyz'] = X.vector('xyz!' + nm, 3)
        if form in ('rpy', 'both'):
            a['rpy'] = X.vector('rpy!' + nm, 3)
        return [X.Node('origin', a)]

    def mat(self, form, nm):
        if form is None or form == 'empty':
            return None
        return hom(rpy_mat(v3('rpy!' + nm)) if form in ('rpy', 'both') else eye(3), v3('xyz!' + nm) if form in ('xyz', 'both') else [T.ZERO] * 3)

    def base(self):
        return None

    def offset(self, j):
        return self.mat(j.origin, j.name)

    def limits(self, j):
        """lower, upper, velocity, effort (terms)"""
        if j.limit is None or j.type == 'fixed':
            return None, None, None, None
        g = lambda k: T.atom('%s!%s' % (k, j.name)) if k in j.limit else T.ZERO
        lo, hi = (g('lower'), g('upper')) if j.type != 'continuous' else (None, None)
        return lo, hi, g('velocity'), g('effort')

    def node(self):
        out = []
        for l in self.links:
            out.append(X.Node('link', {'name': l.name}, [self.visual(v, '%s.%d' % (l.name, k)) for k, v in enumerate(l.visuals)]))
        for j in self.joints:
            c = self.origin(j.origin, j.name)
            if j.axis and j.type != 'fixed':
                c.append(X.Node('axis', {'xyz': X.vector('ax!' + j.name, 3)}))
            c += [X.Node('parent', {'link': j.parent}), X.Node('child', {'link': j.child})]
            if j.limit is not None:
                c.append(X.Node('limit', {k: X.number('%s!%s' % (k, j.name)) for k in j.limit.split()}))
            out.append(X.Node('joint', {'name': j.name, 'type': j.type}, c))
        # document order is the caller's: joints and links alternate, with a comment between them
        return X.Node('robot', {'name': 'robot'}, [X.Node('', comment=True)] + out)

    GEO = {'box': {'size': 3}, 'cylinder': {'radius': 1, 'length': 1}, 'sphere': {'radius': 1}, 'capsule': {'radius': 1, 'length': 1}, 'mesh': {'filename': 0}}

    def visual(self, v, nm):
        a = {}
        for k, n in self.GEO[v.kind].items():
            a[k] = '%s.stl' % nm if n == 0 else X.vector('%s!%s' % (k, nm), n) if n > 1 else X.number('%s!%s' % (k, nm))
        if v.scale:
            a['scale'] = X.vector('scale!' + nm, 3)
        return X.Node('visual', {}, self.origin(v.origin, nm) + [X.Node('geometry', {}, [X.Node(v.kind, a)])])

    def shape(self, v, nm):
        """type and size of a visual: list of terms and strings"""
        out = []
        for k, n in self.GEO[v.kind].items():
            out += ['%s.stl' % nm] if n == 0 else v3('%s!%s' % (k, nm)) if n > 1 else [T.atom('%s!%s' % (k, nm))]
        if v.scale:
            out += v3('scale!' + nm)
        return out


class Sdf(Doc):
    kind = 'sdf'
    builder, sbuilder = PK + '.sdf:build_chain_from_sdf', PK + '.sdf:build_serial_chain_from_sdf'
    at = 'sdf.py:build_chain_from_sdf'

    def pose(self, form, nm):
        if form is None:
            return []
        w = []
        for k, f in (('xyz', ('xyz', 'both')), ('rpy', ('rpy', 'both'))):
            w += [X.number('%s!%s!%d' % (k, nm, i)) if form in f else '0' for i in range(3)]
        return [X.Node('pose', {}, text=X.words(w))]

    def mat(self, form, nm):
        return Urdf.mat(self, form, nm)

    def base(self):
        return self.mat(self.by[self.root].pose, self.root)

    def offset(self, j):
        P, C = (self.mat(self.by[n].pose, n) for n in (j.parent, j.child))
        M = None
        if P is not None:
            M = inv(P)
        if C is not None:
            M = C if M is None else mmul(M, C)
        return M

    def limits(self, j):
        if j.limit is None or j.type == 'fixed':
            return None, None, None, None
        g = lambda k, d: T.atom('%s!%s' % (k, j.name)) if k in j.limit else d
        if not j.limit:
            return None, None, None, None
        return g('lower', NEG), g('upper', POS), None, None

    def node(self):
        out = []
        for l in self.links:
            out.append(X.Node('link', {'name': l.name}, self.pose(l.pose, l.name) + [self.visual(v, '%s.%d' % (l.name, k)) for k, v in enumerate(l.visuals)]))
        for j in self.joints:
            c = [X.Node('parent', text=j.parent), X.Node('child', text=j.child)]
            if j.type != 'fixed' and (j.axis or j.limit is not None):
                c.append(X.Node('axis', {}, ([X.Node('xyz', text=X.vector('ax!' + j.name, 3))]) +
                                ([X.Node('limit', {}, [X.Node(k, text=X.number('%s!%s' % (k, j.name))) for k in j.limit.split()])] if j.limit is not None else [])))
            if j.origin is not None:
                c += self.pose(j.origin, 'joint.' + j.name)
            out.append(X.Node('joint', {'name': j.name, 'type': j.type}, c))
        return X.Node('sdf', {'version': '1.6'}, [X.Node('model', {'name': 'robot'}, out + [X.Node('', comment=True)])])

    GEO = {'box': {'size': 3}, 'cylinder': {'radius': 1, 'length': 1}, 'sphere': {'radius': 1}, 'mesh': {'filename': 0}}

    def visual(self, v, nm):
        a = []
        for k, n in self.GEO[v.kind].items():
            a.append(X.Node(k, text='%s.stl' % nm if n == 0 else X.vector('%s!%s' % (k, nm), n) if n > 1 else X.number('%s!%s' % (k, nm))))
        if v.scale:
            a.append(X.Node('scale', text=X.vector('scale!' + nm, 3)))
        return X.Node('visual', {'name': nm}, self.pose(v.origin, nm) + [X.Node('geometry', {}, [X.Node(v.kind, {}, a)])])

    shape = Urdf.shape


def build(x, doc, serial=None, node=None, **kw):
    S = x.S
    text = '<%s document>' % doc.kind
    X.install(S.I, {text: node or doc.node()})
    if serial:
        return S.call(doc.sbuilder, text, *serial, **kw)
    return S.call(doc.builder, text, **kw)


def frame_parts(x, chain, name):
    S, I = x.S, x.I
    f = I.resolve(x.val(S.m(chain, 'find_frame', name), 'find_frame'))
    return f


def opt(x, v, e):
    """optional pair of limits in one environment: None or two terms"""
    I = x.I
    v = at_env(I, v, e)
    if v is None:
        return None
    vs = [at_env(I, y, e) for y in items(x, v)]
    if len(vs) != 2 or any(y is None for y in vs):
        return 'bad'
    return [nterm(y) for y in vs]


def at_env(I, v, e):
    """the alternative a value takes in one environment"""
    v = I.resolve(v)
    while isinstance(v, Gamma):
        v = I.resolve(v.a if e.ev(v.c) else v.b)
    return v


def check_tree(x, doc, chain, B='B'):
    """names, kinds, axes, limits, visuals and poses of a loaded chain"""
    S, I, at = x.S, x.I, doc.at
    es = doc_envs(I)
    d0 = items(x, x.val(S.m(chain, 'get_frame_names', exclude_fixed=False), 'get_frame_names'))
    x.holds(sorted(d0) == sorted(l.name for l in doc.links), 'links', 'loads %s, the document has %s' % (sorted(d0), sorted(l.name for l in doc.links)), at)
    names = names_of(x, chain)
    want = [j.name for j in doc.joints if doc.moving(j)]
    x.holds(sorted(names) == sorted(want), 'moving joints', 'loads %s, the document has %s' % (sorted(names), sorted(want)), at)
    JT = {'revolute': 'revolute', 'continuous': 'revolute', 'prismatic': 'prismatic', 'fixed': 'fixed'}
    for l in doc.links:
        f = frame_parts(x, chain, l.name)
        if f is None:
            x.holds(False, 'links', 'link %s is not in the tree' % l.name, at)
            continue
        kids = [I.getattr(c, 'name') for c in items(x, I.getattr(f, 'children'))]
        x.holds(sorted(kids) == sorted(doc.kids(l.name)), 'children of a link', 'link %s has the children %s, the document says %s' % (l.name, kids, doc.kids(l.name)), at)
        link = I.resolve(I.getattr(f, 'link'))
        x.holds(I.getattr(link, 'name') == l.name, 'name of a link', 'is %r for %s' % (I.getattr(link, 'name'), l.name), at)
        check_visuals(x, doc, l, link)
        j = doc.up.get(l.name)
        if j is None:
            continue
        jo = I.resolve(I.getattr(f, 'joint'))
        x.holds(I.getattr(jo, 'name') == j.name, 'name of a joint', 'is %r for %s' % (I.getattr(jo, 'name'), j.name), at)
        x.holds(I.getattr(jo, 'joint_type') == JT[j.type], 'type of a joint', 'a %s joint is loaded as %s' % (j.type, I.getattr(jo, 'joint_type')), at)
        if not doc.moving(j):
            continue
        ax = I.resolve(I.getattr(jo, 'axis'))
        g = I.reader(ax)
        numeric(x, 'unit axis of a joint', [g((num(k),)) for k in range(3)], lambda e: [e.ev(c) for c in doc.axis(j)], es, 1e-6, at)
        lo, hi, vel, eff = doc.limits(j)
        for attr, w in (('limits', None if lo is None else [lo, hi]), ('velocity_limits', None if vel is None else [T.neg(vel), vel]),
                        ('effort_limits', None if eff is None else [T.neg(eff), eff])):
            val = I.getattr(jo, attr)
            what = '%s of a %s joint' % (attr.replace('_', ' '), j.type)
            for e in es:
                got = opt(x, val, e)
                x.holds(got != 'bad' and (got is None) == (w is None), what, '%s: %s, the document gives %s' % (j.name, 'has none' if got is None else 'are given' if got != 'bad' else 'one side is missing',
                        'none' if w is None else 'some'), at)
                if got and got != 'bad' and w:
                    numeric(x, what, got, lambda e: [e.ev(c) for c in w], [e], 1e-9, at)
    if names and sorted(names) == sorted(want):
        for attr, fn, sel in (('limits', 'get_joint_limits', 0), ('velocity', 'get_joint_velocity_limits', 2), ('effort', 'get_joint_effort_limits', 3)):
            o = x.val(S.m(chain, fn), fn)
            lo, hi = o if isinstance(o, tuple) else I.concrete_list(o)

            def bound(n, side):
                L = doc.limits([j for j in doc.joints if j.name == n][0])
                if sel == 0:
                    return (NEG, POS)[side] if L[0] is None else L[side]
                return (NEG, POS)[side] if L[sel] is None else (T.neg(L[sel]), L[sel])[side]
            for side, v in ((0, lo), (1, hi)):
                vs = [nterm(I.resolve(y)) for y in items(x, v)]
                if len(vs) == len(names):
                    numeric(x, fn, vs, lambda e: [e.ev(bound(n, side)) for n in names], es, 1e-6, at)
    if sorted(names) == sorted(want):
        fk(x, doc, chain, names, B, at)


def fk(x, doc, chain, names, B, at, start=None, only=None):
    S = x.S
    b = S.dim(B)
    th = S.t('th', (B, len(names)))
    kw = {} if only is None else {'end_only': False}
    d = poses(x, S.m(chain, 'forward_kinematics', th, **kw), 'forward_kinematics')
    q = qmap(names)
    for l in doc.links:
        if only is not None and l.name not in only:
            continue
        if l.name not in d:
            x.holds(False, 'pose of a link', 'no pose is reported for %s' % l.name, at)
            continue
        M = x.val(S.m(d[l.name], 'get_matrix'), 'get_matrix')
        x.eq('pose of a link', M, (b, 4, 4), lambda idx: entry(doc.fk(l.name, q(idx[0]), start))(idx), es=doc_envs(x.I), tol=1e-5, at=at)


def check_visuals(x, doc, l, link):
    S, I, at = x.S, x.I, doc.at
    vs = [I.resolve(v) for v in items(x, I.getattr(link, 'visuals'))]
    real = [v for v in vs if I.resolve(I.getattr(v, 'geom_type')) is not None]
    x.holds(len(real) == len(l.visuals), 'visuals of a link', 'link %s has %d visual shapes, the document has %d' % (l.name, len(real), len(l.visuals)), at)
    if len(real) != len(l.visuals):
        return
    es = doc_envs(I)
    for k, (v, o) in enumerate(zip(l.visuals, real)):
        nm = '%s.%d' % (l.name, k)
        x.holds(I.getattr(o, 'geom_type') == v.kind, 'type of a visual', 'a %s is loaded as %s' % (v.kind, I.getattr(o, 'geom_type')), at)
        par = I.resolve(I.getattr(o, 'geom_param'))
        flat = []

        def go(p):
            p = I.resolve(p)
            if isinstance(p, (tuple, ListV)):
                for y in items(x, p):
                    go(y)
            elif p is not None:
                flat.append(p)
        go(par)
        want = doc.shape(v, nm)
        x.holds(len(flat) == len(want), 'size of a %s%s' % (v.kind, ' with scale' if v.scale else ''), 'has %d values, the document gives %d' % (len(flat), len(want)), at)
        if len(flat) == len(want):
            for p, w in zip(flat, want):
                if isinstance(w, str):
                    x.holds(p == w, 'file of a mesh', 'is %r for %r' % (p, w), at)
                else:
                    numeric(x, 'size of a %s' % v.kind, [nterm(p)], lambda e: [e.ev(w)], es, 1e-9, at)
        off = I.resolve(I.getattr(o, 'offset'))
        M = doc.mat(v.origin, nm) or eye(4)
        if off is None:
            x.holds(v.origin in (None, 'empty'), 'pose of a visual', 'is dropped', at)
            continue
        G = x.val(S.m(off, 'get_matrix'), 'get_matrix')
        x.eq('pose of a visual', G, (1, 4, 4), lambda idx: entry(M)(idx), es=es, tol=1e-5, at=at)
