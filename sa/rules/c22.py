"""Every attribute and element of the URDF and SDF vocabularies is parsed inside a complete document (read through a stand-in for lxml whose numbers are symbolic):
each value must arrive, with its type, in the like-named field and nowhere else; documents that lack a required part or carry a vector of the wrong length are refused."""
from .lib import *
from .c06 import items
from .. import xmldoc as X

FLOOR = 900
MOD = {'urdf': PK + '.urdf_parser_py.urdf:URDF', 'sdf': PK + '.urdf_parser_py.sdf:SDF'}
TEXT = '<document>'


class P:
    """name of the attribute or element, how it is given ('a' attribute, 'e' element), its type, whether it is required, its default(s), field and multiplicity.
    types: f, s, b, v3/v4/v6; ('at', name, type): the value is the given attribute of the element; ('o', class); 'geom'; 'raw'; ('duck', classes)"""

    def __init__(self, name, how, type, req=True, default=(None,), var=None, agg=False):
        self.name, self.how, self.type, self.req, self.default = name, how, type, req and not agg, default
        self.agg, self.var = agg, var or (name + 's' if agg else name)


def A(name, type, req=True, *default):
    return P(name, 'a', type, req, default or (None,))


def E(name, type, req=True, *default, **k):
    return P(name, 'e', type, req, default or (None,), **k)


def G(name, type):
    return P(name, 'e', type, agg=True)


Z3 = [0, 0, 0]
INERTIA = ['ixx', 'ixy', 'ixz', 'iyy', 'iyz', 'izz']
ORIGIN = E('origin', ('o', 'Pose'), False)
URDF = {
    'Pose': [A('xyz', 'v3', False, Z3), A('rpy', 'v3', False, Z3)],
    'Color': [A('rgba', 'v4')],
    'JointDynamics': [A('damping', 'f', False, None, 0), A('friction', 'f', False, None, 0)],
    'Box': [A('size', 'v3')], 'Sphere': [A('radius', 'f')],
    'Cylinder': [A('radius', 'f'), A('length', 'f')], 'Capsule': [A('radius', 'f'), A('length', 'f')],
    'Mesh': [A('filename', 's'), A('scale', 'v3', False, None, [1, 1, 1])],
    'Collision': [ORIGIN, E('geometry', 'geom')],
    'Texture': [A('filename', 's')],
    'Material': [A('name', 's'), E('color', ('o', 'Color'), False), E('texture', ('o', 'Texture'), False)],
    'Visual': [ORIGIN, E('geometry', 'geom'), E('material', ('o', 'Material'), False)],
    'Inertia': [A(k, 'f') for k in INERTIA],
    'Inertial': [ORIGIN, E('mass', ('at', 'value', 'f')), E('inertia', ('o', 'Inertia'), False)],
    'JointCalibration': [A('rising', 'f', False, 0, None), A('falling', 'f', False, 0, None)],
    'JointLimit': [A('effort', 'f'), A('lower', 'f', False, 0), A('upper', 'f', False, 0), A('velocity', 'f')],
    'JointMimic': [A('joint', 's'), A('multiplier', 'f', False, None, 1), A('offset', 'f', False, None, 0)],
    'SafetyController': [A('k_velocity', 'f'), A('k_position', 'f', False, 0), A('soft_lower_limit', 'f', False, 0), A('soft_upper_limit', 'f', False, 0)],
    'Joint': [A('name', 's'), A('type', 'jt'), ORIGIN, E('axis', ('at', 'xyz', 'v3'), False), E('parent', ('at', 'link', 's')), E('child', ('at', 'link', 's')), E('limit', ('o', 'JointLimit'), False),
              E('dynamics', ('o', 'JointDynamics'), False), E('safety_controller', ('o', 'SafetyController'), False), E('calibration', ('o', 'JointCalibration'), False), E('mimic', ('o', 'JointMimic'), False)],
    'Link': [A('name', 's'), ORIGIN, G('visual', ('o', 'Visual')), G('collision', ('o', 'Collision')), E('inertial', ('o', 'Inertial'), False)],
    'PR2Transmission': [A('name', 's'), A('type', 's'), E('joint', ('at', 'name', 's')), E('actuator', ('at', 'name', 's')), E('mechanicalReduction', 'f')],
    'Actuator': [A('name', 's'), E('mechanicalReduction', 'f', False, None, 1)],
    'TransmissionJoint': [A('name', 's'), G('hardwareInterface', 's')],
    'Transmission': [A('name', 's'), E('type', 's'), G('joint', ('o', 'TransmissionJoint')), G('actuator', ('o', 'Actuator'))],
    'ROOT': [A('name', 's', False), G('link', ('o', 'Link')), G('joint', ('o', 'Joint')), G('gazebo', 'raw'), G('transmission', ('duck', ('Transmission', 'PR2Transmission'))), G('material', ('o', 'Material'))],
}
POSE = E('pose', 'v6', False)
NAME = A('name', 's', False)
SDF = {
    'Inertia': [E(k, 'f') for k in INERTIA],
    'Inertial': [E('mass', 'f'), E('inertia', ('o', 'Inertia')), POSE],
    'Box': [E('size', 'v3')], 'Sphere': [E('radius', 'f')], 'Cylinder': [E('radius', 'f'), E('length', 'f')],
    'Mesh': [E('filename', 's'), E('scale', 'v3', False, None, [1, 1, 1])],
    'Script': [E('name', 's', False), E('uri', 's', False)],
    'Material': [NAME, E('script', ('o', 'Script'), False)],
    'Visual': [NAME, E('geometry', 'geom'), E('material', ('o', 'Material'), False), POSE],
    'Collision': [NAME, E('geometry', 'geom'), POSE],
    'Dynamics': [E('damping', 'f', False, None, 0), E('friction', 'f', False, None, 0)],
    'Limit': [E('lower', 'f', False), E('upper', 'f', False)],
    'Axis': [E('xyz', 'v3'), E('limit', ('o', 'Limit'), False), E('dynamics', ('o', 'Dynamics'), False), E('use_parent_model_frame', 'b', False, None, False)],
    'Joint': [NAME, A('type', 's', False), E('axis', ('o', 'Axis'), False), E('parent', 's'), E('child', 's'), POSE],
    'Link': [NAME, E('inertial', ('o', 'Inertial'), False), A('kinematic', 'b', False, None, False), G('visual', ('o', 'Visual')), G('collision', ('o', 'Collision')), POSE],
    'Model': [NAME, G('link', ('o', 'Link')), G('joint', ('o', 'Joint')), POSE],
    'ROOT': [A('version', 's', False), E('model', ('o', 'Model'), False)],
}
LANG = {'urdf': URDF, 'sdf': SDF}
GEOM = {'urdf': {'box': 'Box', 'cylinder': 'Cylinder', 'sphere': 'Sphere', 'mesh': 'Mesh', 'capsule': 'Capsule'}, 'sdf': {'box': 'Box', 'cylinder': 'Cylinder', 'sphere': 'Sphere', 'mesh': 'Mesh'}}
ROOT = {'urdf': 'robot', 'sdf': 'sdf'}
# further requirements of a class beside its required parts: at least one of each
NEEDS = {'TransmissionJoint': ('hardwareInterface',), 'Transmission': ('joint', 'actuator')}
AT = {'urdf': 'urdf_parser_py/urdf.py:Robot', 'sdf': 'urdf_parser_py/sdf.py:SDF'}


def needed(cls, p):
    return p.req or p.name in NEEDS.get(cls, ())


class Plan:
    """which parts are given: path (tuple of part names from the root, with '#k' for the k-th of a repeated one) -> set of parts; others get what is required"""

    def __init__(self, lang, given=None, drop=(), override=None, extra=(), count=None, kind=None, duck=None):
        self.lang, self.given, self.drop, self.override, self.extra = lang, given or {}, set(drop), override or {}, set(extra)
        self.count, self.kind, self.duck = count or {}, kind or {}, duck or {}

    def parts(self, cls, path):
        ps = LANG[self.lang][cls]
        g = self.given.get(path)
        return [p for p in ps if (needed(cls, p) or g == 'all' or g is not None and p.name in g) and path + (p.name,) not in self.drop]

    def n(self, p, path):
        return self.count.get(path + (p.name,), 1)

    def cls(self, p, path):
        """class of an object-valued part"""
        if p.type == 'geom':
            return GEOM[self.lang][self.kind.get(path + (p.name,), 'box')]
        if p.type[0] == 'duck':
            return p.type[1][self.duck.get(path, 0)]
        return p.type[1]

    # --- the document ---
    def value(self, t, key):
        if key in self.override:
            return self.override[key]
        nm = '.'.join(key)
        if t == 'f':
            return X.number(nm)
        if t == 's':
            return 'Text of ' + nm
        if t == 'jt':
            return 'revolute'
        if t == 'b':
            return 'true'
        return X.vector(nm, int(t[1:]))

    def node(self, tag, cls, path):
        a, c = {}, [X.Node('', comment=True)]
        for p in self.parts(cls, path):
            for k in range(self.n(p, path) if p.agg else 1):
                q = path + ((p.name + '#%d' % k) if p.agg else p.name,)
                if p.how == 'a':
                    a[p.name] = self.value(p.type, q)
                else:
                    c.append(self.element(p, q, path))
        if path in self.extra:
            a['not_a_declared_attribute'] = 'x'
            c.insert(1, X.Node('not_a_declared_element', {'name': 'x', 'type': 'y'}, [X.Node('name', {}, [], 'z')], 'text'))
        return X.Node(tag, a, c)

    def element(self, p, q, path):
        t = p.type
        if q in self.override and isinstance(self.override[q], X.Node):
            return self.override[q]
        if t == 'raw':
            return X.Node(p.name, {'reference': '.'.join(q)}, [X.Node('kp', {}, [], '1')])
        if t == 'geom':
            kind = self.kind.get(path + (p.name,), 'box')
            return X.Node(p.name, {}, [X.Node('', comment=True), self.node(kind, GEOM[self.lang][kind], q)])
        if t[0] in ('o', 'duck'):
            return self.node(p.name, self.cls(p, path), q)
        if t[0] == 'at':
            return X.Node(p.name, {t[1]: self.value(t[2], q)} if q not in self.drop_attr else {'other_' + t[1]: 'x'}, [])
        v = self.value(t, q)
        return X.Node(p.name, {}, [], v)

    drop_attr = frozenset()

    def doc(self):
        return self.node(ROOT[self.lang], 'ROOT', ())


POINTS = [0.0, 1.0, -1.5, 0.30000000000000004, 1234.5678901234567, 0.1, -2e-5, 9.87654321e6, -3.3e9, 7.7e12]


def same(x, v, nm):
    """v is the number of that name"""
    v = x.I.resolve(v)
    if not isinstance(v, Num):
        return False
    a = T.atom(nm)
    if v.t == a:
        return True
    if v.t.unk:
        return None
    for k, y in enumerate(POINTS):
        e = envs(x.I, 1, {nm: lambda *_: y}, k)[0]
        if e.ev(v.t) != e.ev(a):
            return False
    return True


def allof(oks):
    oks = list(oks)
    return False if any(o is False for o in oks) else None if any(o is None for o in oks) else True


def unclear(v):
    return isinstance(v, (Unknown, Sym)) or isinstance(v, SStr) and v.t.unk


def plain(x, what, v, t, key, at):
    I = x.I
    v = I.resolve(v)
    nm = '.'.join(key)
    if unclear(v):
        return x.holds(None, what, 'not understood: %s' % show(v), at)
    if t in ('s', 'jt'):
        want = 'revolute' if t == 'jt' else 'Text of ' + nm
        x.holds(v == want and isinstance(v, str), what, 'is %s for the text %r' % (show(v), want), at)
    elif t == 'b':
        x.holds(v is True, what, "is %s for 'true'" % show(v), at)
    elif t == 'f':
        x.holds(allof([same(x, v, nm), isinstance(v, Num) and v.kind == 'f']), what, 'is %s instead of the number given' % show(v), at)
    else:
        vs = items(x, v) if isinstance(v, (ListV, tuple)) else None
        ok = vs is not None and len(vs) == int(t[1:]) and allof(same(x, y, '%s!%d' % (nm, k)) for k, y in enumerate(vs))
        x.holds(ok, what, 'is %s instead of the %s numbers given, in order' % (show(v) if vs is None else [show(I.resolve(y)) for y in vs], t[1:]), at)


def show(v):
    if isinstance(v, Num):
        return 'number %s' % v.t
    return repr(v)[:80]


def is_default(x, v, ds):
    I = x.I
    v = I.resolve(v)
    for d in ds:
        if d is None or isinstance(d, bool):
            ok = v is d
        elif isinstance(d, list):
            ok = isinstance(v, (ListV, tuple)) and [cval(I, y) for y in items(x, v)] == d
        else:
            ok = not isinstance(v, bool) and cval(I, v) == d
        if ok:
            return True
    return False


def cval(I, v):
    v = I.resolve(v)
    if isinstance(v, Num) and v.t.op == 'num':
        return v.t.args[0]
    return v if isinstance(v, (int, float)) else None


def check(x, plan, cls, obj, path, absent=()):
    """obj has exactly what the plan gives; absent: further values that stand for 'not given'"""
    I = x.I
    at = AT[plan.lang]
    given = {p.name for p in plan.parts(cls, path)}
    for p in LANG[plan.lang][cls]:
        v = I.resolve(I.getattr(obj, p.var))
        what = '%s of %s' % (p.var, cls)
        if unclear(v):
            x.holds(None, what, 'not understood', at)
        elif p.agg:
            want = plan.n(p, path) if p.name in given else 0
            vs = items(x, v)
            x.holds(len(vs) == want, what, 'has %d entries, the document has %d' % (len(vs), want), at)
            for k, y in enumerate(vs[:want]):
                one(x, plan, p, I.resolve(y), path + (p.name + '#%d' % k,), path, what, absent)
        elif p.name not in given:
            x.holds(None if unclear(v) else is_default(x, v, tuple(p.default) + tuple(absent)), what + ' when absent', 'is %s instead of %s' % (show(v), p.default[0]), at)
        else:
            one(x, plan, p, v, path + (p.name,), path, what, absent)


def one(x, plan, p, v, q, path, what, absent=()):
    at = AT[plan.lang]
    t = p.type
    if t == 'raw':
        x.holds(isinstance(v, X.Node) and raw_is(x, v, q), what, 'is not the element of the document', at)
    elif t == 'geom' or t[0] in ('o', 'duck'):
        cls = plan.cls(p, path)
        ok = isinstance(v, Obj) and x.I.get(v.id) is not None
        x.holds(ok, what, 'is %s instead of an object' % show(v), at)
        if ok:
            got = v.cls.name
            okc = got == cls or (cls == 'Material' and got in ('Material', 'LinkMaterial')) or t == 'geom' and got == cls
            if t == 'geom' or t[0] == 'duck':
                x.holds(okc, what, 'is a %s, the document has a %s' % (got, cls), at)
            if okc or t[0] == 'o':
                check(x, plan, cls, v, q, absent)
    elif t[0] == 'at':
        plain(x, what, v, t[2], q, at)
    else:
        plain(x, what, v, t, q, at)


def raw_is(x, v, q):
    f = v.frozen(x.I)
    return f.tag == 'gazebo' and f.a == {'reference': '.'.join(q)} and [(c.tag, c.text) for c in f.c] == [('kp', '1')]


def parse(x, plan, node=None):
    X.install(x.I, {TEXT: node or plan.doc()})
    return x.S.m(x.S.get(MOD[plan.lang]), 'from_xml_string', TEXT)


def accepted(x, plan):
    obj = x.val(parse(x, plan), 'from_xml_string')
    check(x, plan, 'ROOT', obj, ())
    return obj


def rejected(x, plan, what, at=None):
    x.refused(parse(x, plan), what, at=at or AT[plan.lang])


def sites(lang):
    """(class, path, given-along-the-path, kinds, ducks) of every place an object can stand"""
    out, seen = [], set()

    def go(cls, path, given, kinds, ducks, via):
        out.append((cls, path, given, kinds, ducks, via))
        for p in LANG[lang][cls]:
            q = path + ((p.name + '#0') if p.agg else p.name,)
            g = dict(given)
            g[path] = frozenset([p.name])
            v = via + (p.name,)
            if p.type == 'geom':
                for kind, c in GEOM[lang].items():
                    go(c, q, g, dict(kinds, **{'/'.join(path + (p.name,)): kind}), ducks, v + (kind,))
            elif p.type[0] == 'o':
                go(p.type[1], q, g, kinds, ducks, v)
            elif p.type[0] == 'duck':
                for k, c in enumerate(p.type[1]):
                    go(c, q, g, kinds, dict(ducks, **{'/'.join(path): k}), v + (c,))
    go('ROOT', (), {}, {}, {}, ())
    return out


def make(lang, site, here=None, **k):
    cls, path, given, kinds, ducks, via = site
    g = dict(given)
    if here is not None:
        g[path] = here
    return Plan(lang, g, kind={tuple(a.split('/')): b for a, b in kinds.items()}, duck={tuple(a.split('/')) if a else (): b for a, b in ducks.items()}, **k)


def s_full(x, lang, k):
    accepted(x, make(lang, sites(lang)[k], 'all'))


def s_required(x, lang, k):
    accepted(x, make(lang, sites(lang)[k], frozenset()))


def s_each(x, lang, k):
    """one optional part at a time"""
    site = sites(lang)[k]
    cls, path = site[:2]
    for p in LANG[lang][cls]:
        if not needed(cls, p):
            accepted(x, make(lang, site, frozenset([p.name])))


def s_missing(x, lang, k):
    site = sites(lang)[k]
    cls, path = site[:2]
    for p in LANG[lang][cls]:
        if needed(cls, p):
            rejected(x, make(lang, site, 'all', drop=[path + (p.name,)]), '%s without %s' % (cls, p.name))
            if not p.agg and p.type[0] == 'at':
                pl = make(lang, site, 'all')
                pl.drop_attr = {path + (p.name,)}
                rejected(x, pl, '%s whose %s has no %s' % (cls, p.name, p.type[1]))


def s_lengths(x, lang, k):
    site = sites(lang)[k]
    cls, path = site[:2]
    for p in LANG[lang][cls]:
        t = p.type[2] if p.type[0] == 'at' else p.type
        if isinstance(t, str) and t[0] == 'v':
            n = int(t[1:])
            for m in sorted({0, 1, n - 1, n + 1, 2 * n}):
                rejected(x, make(lang, site, 'all', override={path + (p.name,): X.vector('w', m)}), '%s of %s with %d numbers' % (p.name, cls, m))


def s_words(x, lang, k):
    """numbers that are none, booleans in each notation"""
    site = sites(lang)[k]
    cls, path = site[:2]
    for p in LANG[lang][cls]:
        t = p.type[2] if p.type[0] == 'at' else p.type
        q = path + (p.name,)
        if t == 'f':
            for w in ('', 'abc', '1,5'):
                rejected(x, make(lang, site, 'all', override={q: w}), '%s of %s given as %r' % (p.name, cls, w))
            for w, v in (('0.25', 0.25), ('-3', -3), ('1e2', 100), ('  2 ', 2)):
                obj = reach(x, x.val(parse(x, make(lang, site, 'all', override={q: w})), 'from_xml_string'), site)
                if obj is not None:
                    got = cval(x.I, x.I.getattr(obj, p.var))
                    x.holds(got == v, '%s of %s' % (p.var, cls), 'is %s for %r' % (got, w), AT[lang])
        if isinstance(t, str) and t[0] == 'v':
            n = int(t[1:])
            for sep in (' ', '  ', '\n\t'):
                w = sep.join(str(0.5 * i - 1) for i in range(n))
                obj = reach(x, x.val(parse(x, make(lang, site, 'all', override={q: w})), 'from_xml_string'), site)
                if obj is not None:
                    v = x.I.resolve(x.I.getattr(obj, p.var))
                    got = [cval(x.I, y) for y in items(x, v)]
                    x.holds(got == [0.5 * i - 1 for i in range(n)], '%s of %s' % (p.var, cls), 'is %s for %r' % (got, w), AT[lang])
            rejected(x, make(lang, site, 'all', override={q: ' '.join(['1.0'] * (n - 1) + ['x'])}), '%s of %s with a word that is no number' % (p.name, cls))
        if t == 'b':
            for w, v in (('true', True), ('1', True), ('false', False), ('0', False)):
                obj = reach(x, x.val(parse(x, make(lang, site, 'all', override={q: w})), 'from_xml_string'), site)
                if obj is not None:
                    got = x.I.resolve(x.I.getattr(obj, p.var))
                    x.holds(got is v, '%s of %s' % (p.var, cls), 'is %s for %r' % (show(got), w), AT[lang])
        if t == 's' and not p.agg:
            for w in ('a b', 'UPPER_lower-1', '  padded'):
                obj = reach(x, x.val(parse(x, make(lang, site, 'all', override={q: w})), 'from_xml_string'), site)
                if obj is not None:
                    got = x.I.resolve(x.I.getattr(obj, p.var))
                    x.holds(got == w or w != w.strip() and got == w.strip(), '%s of %s' % (p.var, cls), 'is %s for %r' % (show(got), w), AT[lang])


def reach(x, obj, site):
    """the object at a site of the parsed document"""
    cls, path = site[:2]
    c = 'ROOT'
    for step in path:
        nm, _, k = step.partition('#')
        v = x.I.resolve(x.I.getattr(obj, nm + 's' if k else nm))
        if k:
            vs = items(x, v)
            if len(vs) <= int(k):
                x.holds(False, nm + 's', 'has %d entries' % len(vs))
                return None
            v = x.I.resolve(vs[int(k)])
        if not isinstance(v, Obj):
            x.holds(False, nm, 'is %s instead of an object' % show(v))
            return None
        obj = v
    return obj


def s_many(x, lang, k):
    """three of every repeated part, in order; unknown attributes and elements beside them"""
    site = sites(lang)[k]
    cls, path = site[:2]
    aggs = [p.name for p in LANG[lang][cls] if p.agg]
    accepted(x, make(lang, site, 'all', count={path + (a,): 3 for a in aggs}))
    accepted(x, make(lang, site, 'all', extra=[path]))
    accepted(x, make(lang, site, frozenset(), extra=[path]))


def root_type(x, lang, tag):
    d = Plan(lang, {(): 'all'}).doc()
    x.refused(parse(x, Plan(lang), X.Node(tag, d.a, d.c)), 'document of type %s' % tag, at=AT[lang])


def geometry(x, lang, where, kinds):
    """a geometry with several shapes, none, or an unknown one"""
    site = [s for s in sites(lang) if s[0] == where][0]
    q = site[1] + ('geometry',)
    pl = make(lang, site, 'all')
    nodes = [pl.node(k, GEOM[lang].get(k, 'Box'), q) for k in kinds]
    rejected(x, make(lang, site, 'all', override={q: X.Node('geometry', {}, [X.Node('', comment=True)] + nodes)}), 'geometry of %s' % (' and '.join(kinds) or 'nothing'))


TYPES = ('revolute', 'continuous', 'prismatic', 'fixed', 'floating', 'planar')


def joint_type(x, t, ok):
    site = [s for s in sites('urdf') if s[0] == 'Joint'][0]
    pl = make('urdf', site, 'all', override={site[1] + ('type',): t})
    if not ok:
        return rejected(x, pl, 'joint of type %r' % t)
    obj = reach(x, x.val(parse(x, pl), 'from_xml_string'), site)
    for f in ('type', 'joint_type'):
        x.holds(x.I.resolve(x.I.getattr(obj, f)) == t, f + ' of Joint', 'is %s for %r' % (show(x.I.resolve(x.I.getattr(obj, f))), t), AT['urdf'])


def maps(x, lang, edges, order):
    """joint_map, link_map, parent_map and child_map describe the joints and links of the document, whatever their order"""
    I = x.I
    links = sorted({a for a, b in edges} | {b for a, b in edges})
    L = [X.Node('link', {'name': l}) for l in links]
    if lang == 'urdf':
        J = [X.Node('joint', {'name': a + '_' + b, 'type': 'fixed'}, [X.Node('parent', {'link': a}), X.Node('child', {'link': b})]) for a, b in edges]
    else:
        J = [X.Node('joint', {'name': a + '_' + b, 'type': 'fixed'}, [X.Node('parent', {}, [], a), X.Node('child', {}, [], b)]) for a, b in edges]
    c = {'links': L + J, 'joints': J + L, 'mixed': [y for z in zip(L, J) for y in z] + L[len(J):] + J[len(L):]}[order]
    d = X.Node('robot', {'name': 'r'}, c) if lang == 'urdf' else X.Node('sdf', {}, [X.Node('model', {'name': 'r'}, c)])
    obj = x.val(parse(x, Plan(lang), d), 'from_xml_string')
    if lang == 'sdf':
        obj = I.resolve(I.getattr(obj, 'model'))
    at = AT[lang]

    def py(v):
        v = I.resolve(v)
        if isinstance(v, DictV):
            return {py(it[1]): py(it[2]) for it in I.get(v.id)[1]}
        if isinstance(v, tuple):
            return tuple(py(y) for y in v)
        if isinstance(v, ListV):
            return [py(y) for y in items(x, v)] if v.kind != 'tuple' else tuple(py(y) for y in items(x, v))
        if isinstance(v, Obj):
            return ('object', py(I.getattr(v, 'name')))
        return v
    x.holds(py(I.getattr(obj, 'joint_map')) == {a + '_' + b: ('object', a + '_' + b) for a, b in edges}, 'joint_map', 'is %s' % (py(I.getattr(obj, 'joint_map')),), at)
    x.holds(py(I.getattr(obj, 'link_map')) == {l: ('object', l) for l in links}, 'link_map', 'is %s' % (py(I.getattr(obj, 'link_map')),), at)
    want = {b: (a + '_' + b, a) for a, b in edges}
    x.holds(py(I.getattr(obj, 'parent_map')) == want, 'parent_map', 'is %s' % (py(I.getattr(obj, 'parent_map')),), at)
    ch = {}
    for a, b in edges:
        ch.setdefault(a, []).append((a + '_' + b, b))
    x.holds(py(I.getattr(obj, 'child_map')) == ch, 'child_map', 'is %s' % (py(I.getattr(obj, 'child_map')),), at)
    if lang == 'urdf':
        root = [l for l in links if l not in want]
        x.holds(py(x.val(x.S.m(obj, 'get_root'), 'get_root')) == root[0], 'get_root', 'is not %s' % root[0], at)
        for tip in links:
            up = [tip]
            while up[0] in want:
                up = [want[up[0]][1], want[up[0]][0]] + up
            for k in range(0, len(up), 2):
                for js, ls in ((True, True), (True, False), (False, True)):
                    got = py(x.val(x.S.m(obj, 'get_chain', up[k], tip, joints=js, links=ls), 'get_chain'))
                    w = [n for i, n in enumerate(up[k:]) if (i % 2 == 0 and ls) or (i % 2 == 1 and js)]
                    x.holds(got == w, 'get_chain', 'from %s to %s is %s' % (up[k], tip, got), at)


def twice(x, lang):
    """two documents parsed in one run do not share state"""
    st = sites(lang)
    accepted(x, make(lang, st[0], 'all', count={('link',): 2, ('joint',): 2}))
    accepted(x, make(lang, st[0], frozenset()))
    accepted(x, make(lang, st[0], 'all'))


TREE = [('a', 'b'), ('a', 'c'), ('b', 'd'), ('d', 'e'), ('b', 'f')]


def scenarios(tier):
    out = []
    for lang in LANG:
        at = AT[lang]
        for k, s in enumerate(sites(lang)):
            nm = '%s.%s' % (lang, '.'.join(s[5]) or 'document')
            ps = LANG[lang][s[0]]
            ts = [p.type[2] if p.type[0] == 'at' else p.type for p in ps]
            out.append((nm + '.full', s_full, (lang, k), at))
            out.append((nm + '.required', s_required, (lang, k), at))
            if any(not needed(s[0], p) for p in ps):
                out.append((nm + '.each', s_each, (lang, k), at))
            if any(needed(s[0], p) for p in ps):
                out.append((nm + '.missing', s_missing, (lang, k), at))
            if any(isinstance(t, str) and t[0] == 'v' for t in ts):
                out.append((nm + '.lengths', s_lengths, (lang, k), at))
            out.append((nm + '.words', s_words, (lang, k), at))
            out.append((nm + '.many', s_many, (lang, k), at))
        for tag in ('model', 'sdf', 'robot', 'html', 'link', 'world'):
            if tag != ROOT[lang]:
                out.append(('%s.root.%s' % (lang, tag), root_type, (lang, tag), at))
        for where in ('Visual', 'Collision'):
            for kinds in ((), ('box', 'sphere'), ('box', 'box'), ('torus',), ('Box',)):
                out.append(('%s.geometry.%s.%s' % (lang, where, '_'.join(kinds) or 'none'), geometry, (lang, where, kinds), at))
        for order in ('links', 'joints', 'mixed'):
            for k, e in enumerate((TREE, TREE[::-1], [('a', 'b')], [('c', 'b'), ('b', 'a')])):
                out.append(('%s.maps.%s.%d' % (lang, order, k), maps, (lang, e, order), at))
        out.append(('%s.twice' % lang, twice, (lang,), at))
    for t in TYPES:
        out.append(('joint_type.' + t, joint_type, (t, True), at))
    for t in ('revolut', 'Revolute', 'hinge', '', 'ball'):
        out.append(('joint_type.bad.' + (t or 'empty'), joint_type, (t, False), at))
    return out
