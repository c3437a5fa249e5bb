"""Description objects are parsed from documents or built with their constructors (numbers symbolic), written with to_xml / to_xml_string through a stand-in for lxml,
and the written document is parsed again: every field of the second object must be the one of the first, and writing must leave the first as it was. Objects that lack a required
part must not be writable."""
from .lib import *
from .c06 import items
from . import c22
from .c22 import LANG, GEOM, AT, MOD, Plan, sites, make, check, show, needed, reach, TEXT
from .. import xmldoc as X

FLOOR = 300
WRITE = 'urdf_parser_py/xml_reflection/core.py:Object.to_xml'
YAML = 'urdf_parser_py/xml_reflection/basics.py:YamlReflection.to_yaml'
CLS = {'urdf': PK + '.urdf_parser_py.urdf:', 'sdf': PK + '.urdf_parser_py.sdf:'}
INERTIA = c22.INERTIA
# constructor parameters in order: field, or (parameter, field)
CTOR = {
    'urdf': {
        'Pose': ['xyz', 'rpy'], 'JointDynamics': ['damping', 'friction'], 'Box': ['size'], 'Cylinder': ['radius', 'length'], 'Capsule': ['radius', 'length'], 'Sphere': ['radius'],
        'Mesh': ['filename', 'scale'], 'Collision': ['geometry', 'origin'], 'Texture': ['filename'], 'Material': ['name', 'color', 'texture'], 'Visual': ['geometry', 'material', 'origin'],
        'Inertia': INERTIA, 'Inertial': ['mass', 'inertia', 'origin'], 'JointCalibration': ['rising', 'falling'], 'JointLimit': ['effort', 'velocity', 'lower', 'upper'],
        'JointMimic': [('joint_name', 'joint'), 'multiplier', 'offset'],
        'SafetyController': [('velocity', 'k_velocity'), ('position', 'k_position'), ('lower', 'soft_lower_limit'), ('upper', 'soft_upper_limit')],
        'Joint': ['name', 'parent', 'child', ('joint_type', 'type'), 'axis', 'origin', 'limit', 'dynamics', 'safety_controller', 'calibration', 'mimic'],
        'Link': ['name', 'visual', 'inertial', 'collision', 'origin'], 'PR2Transmission': ['name', 'joint', 'actuator', 'type', 'mechanicalReduction'],
        'Actuator': ['name', 'mechanicalReduction'], 'TransmissionJoint': ['name'], 'Transmission': ['name'], 'ROOT': ['name'], 'Color': []},
    'sdf': {
        'Inertia': INERTIA, 'Inertial': ['mass', 'inertia', 'pose'], 'Box': ['size'], 'Sphere': ['radius'], 'Cylinder': ['radius', 'length'], 'Mesh': ['filename', 'scale'],
        'Script': ['uri', 'name'], 'Material': ['name', 'script'], 'Visual': ['name', 'geometry', 'pose'], 'Collision': ['name', 'geometry', 'pose'], 'Dynamics': ['damping', 'friction'],
        'Limit': ['lower', 'upper'], 'Axis': ['xyz', 'limit', 'dynamics', 'use_parent_model_frame'], 'Joint': ['name', 'parent', 'child', ('joint_type', 'type'), 'axis', 'pose'],
        'Link': ['name', 'pose', 'inertial', 'kinematic'], 'Model': ['name', 'pose'], 'ROOT': ['version']},
}


def written(x, obj, how):
    """text of the object"""
    if how == 'string':
        return x.val(x.S.m(obj, 'to_xml_string'), 'to_xml_string', WRITE)
    if how == 'bare':
        return x.val(x.S.m(obj, 'to_xml_string', False), 'to_xml_string', WRITE)
    n = x.val(x.S.m(obj, 'to_xml'), 'to_xml', WRITE)
    x.holds(isinstance(n, X.Node), 'to_xml', 'gives %s' % show(n), WRITE)
    return X.XmlText(n.frozen(x.I)) if isinstance(n, X.Node) else n


def again(x, plan, obj, how):
    """parse what is written"""
    t = written(x, obj, how)
    if not isinstance(t, X.XmlText):
        raise Undecided('written text')
    x.holds(t.root.tag == c22.ROOT[plan.lang], 'tag of the document written', 'is %r' % (t.root.tag,), WRITE)
    return x.val(x.S.m(x.S.get(MOD[plan.lang]), 'from_xml_string', t), 'from_xml_string of the document written', WRITE)


def back(x, plan, how='string'):
    obj = x.val(c22.parse(x, plan), 'from_xml_string')
    o2 = again(x, plan, obj, how)
    check(x, plan, 'ROOT', o2, ())
    check(x, plan, 'ROOT', obj, ())             # writing leaves it as it was
    if how == 'string':
        check(x, plan, 'ROOT', again(x, plan, obj, how), ())        # and it can be written again


def s_full(x, lang, k, how):
    back(x, make(lang, sites(lang)[k], 'all'), how)


def s_required(x, lang, k):
    back(x, make(lang, sites(lang)[k], frozenset()))


def s_each(x, lang, k):
    site = sites(lang)[k]
    for p in LANG[lang][site[0]]:
        if not needed(site[0], p):
            back(x, make(lang, site, frozenset([p.name])), 'bare')


def s_many(x, lang, k):
    site = sites(lang)[k]
    aggs = [p.name for p in LANG[lang][site[0]] if p.agg]
    back(x, make(lang, site, 'all', count={site[1] + (a,): 3 for a in aggs}))


def s_unset(x, lang, k):
    """without a required part there is nothing to write"""
    site = sites(lang)[k]
    for p in LANG[lang][site[0]]:
        if p.req and not p.agg:
            plan = make(lang, site, 'all')
            obj = x.val(c22.parse(x, plan), 'from_xml_string')
            o = reach(x, obj, site)
            if o is None:
                continue
            x.I.setattr(o, p.var, None, None)
            x.refused(x.S.m(obj, 'to_xml'), 'writing %s without %s' % (site[0], p.name), at=WRITE)


def s_changed(x, lang, k):
    """a field assigned after parsing is the one that is written"""
    site = sites(lang)[k]
    cls = site[0]
    plan = make(lang, site, 'all')
    obj = x.val(c22.parse(x, plan), 'from_xml_string')
    o = reach(x, obj, site)
    if o is None:
        return
    new = {}
    for p in LANG[lang][cls]:
        t = p.type[2] if p.type[0] == 'at' else p.type
        if p.agg or not isinstance(t, str) or t in ('geom', 'raw', 'jt'):
            continue
        new[p] = value(x, t, ('new', p.name))
        x.I.setattr(o, p.var, new[p] if t != 'b' else False, None)
    o2 = reach(x, again(x, plan, obj, 'string'), site)
    if o2 is None:
        return
    for p in new:
        t = p.type[2] if p.type[0] == 'at' else p.type
        v = x.I.resolve(x.I.getattr(o2, p.var))
        if t == 'b':
            x.holds(v is False, '%s of %s' % (p.var, cls), 'assigned False, written and read as %s' % show(v), WRITE)
        else:
            c22.plain(x, '%s of %s' % (p.var, cls), v, t, ('new', p.name), WRITE)


def value(x, t, key):
    nm = '.'.join(key)
    if t == 'f':
        return Num(T.atom(nm), 'f')
    if t == 's':
        return 'Text of ' + nm
    if t == 'jt':
        return 'revolute'
    if t == 'b':
        return True
    return x.I.list_of([Num(T.atom('%s!%d' % (nm, i)), 'f') for i in range(int(t[1:]))])


def construct(x, plan, cls, path, positional):
    """the object the plan describes, built by hand"""
    lang, I = plan.lang, x.I
    parts = {p.name: p for p in plan.parts(cls, path)}
    vals, more = {}, []
    for p in parts.values():
        vs = []
        for k in range(plan.n(p, path) if p.agg else 1):
            q = path + ((p.name + '#%d' % k) if p.agg else p.name,)
            if p.type == 'raw':
                v = X.Node(p.name, {'reference': '.'.join(q)}, [X.Node('kp', {}, [], '1')]).adopt()
            elif p.type == 'geom' or p.type[0] in ('o', 'duck'):
                v = construct(x, plan, plan.cls(p, path), q, positional)
            else:
                v = value(x, p.type[2] if p.type[0] == 'at' else p.type, q)
            vs.append(v)
        if p.agg:
            more += [(p, v) for v in vs]
        else:
            vals[p.name] = vs[0]
    args, kw = [], {}
    params = [(c, c) if isinstance(c, str) else c for c in CTOR[lang][cls]]
    for prm, f in params:
        if f not in vals and f in parts and parts[f].agg and positional != 'add':       # Link(visual=..., collision=...)
            first = [m for m in more if m[0].name == f][:1]
            more = [m for m in more if not any(m is z for z in first)]
            vals[f] = first[0][1]
        if f in vals:
            kw[prm] = vals.pop(f)
            args.append(kw[prm])
        elif positional == 'args':
            args.append({'mechanicalReduction': 1, 'kinematic': False}.get(prm))
    if cls == 'Color':
        v = vals.pop('rgba')
        args, kw = ([v], {}) if positional == 'kw' else (list(I.concrete_list(v)), {})
    c = x.S.get(MOD[lang] if cls == 'ROOT' else CLS[lang] + cls)
    o = x.val(x.S.call(c, *args) if positional == 'args' or cls == 'Color' else x.S.call(c, **kw), 'constructor of ' + cls, AT[lang])
    for f, v in vals.items():           # no parameter of the constructor
        I.setattr(o, parts[f].var, v, None)
    for p, v in more:
        m = 'add_' + p.name
        if cls in ('ROOT', 'Model') and p.name in ('link', 'joint'):
            x.val(x.S.m(o, m, v), m, AT[lang])
        else:
            x.val(x.S.m(o, 'add_aggregate', p.name, v), 'add_aggregate', AT[lang])
    return o


def s_built(x, lang, k, positional, amount):
    site = sites(lang)[k]
    aggs = [p.name for p in LANG[lang][site[0]] if p.agg]
    for here in [frozenset([p.name]) for p in LANG[lang][site[0]] if not needed(site[0], p)] if amount == 'each' else ['all'] if amount != 'required' else [frozenset()]:
        plan = make(lang, site, here, count={site[1] + (a,): 2 for a in aggs} if amount == 'two' else {})
        X.install(x.I, {})
        obj = construct(x, plan, 'ROOT', (), positional)
        check(x, plan, 'ROOT', obj, (), (None,))
        check(x, plan, 'ROOT', again(x, plan, obj, 'string'), ())


def as_plain(x, lang, k, amount):
    """to_yaml gives nested dictionaries and lists with one entry per field"""
    site = sites(lang)[k]
    aggs = [p.name for p in LANG[lang][site[0]] if p.agg]
    plan = make(lang, site, 'all' if amount != 'required' else frozenset(), count={site[1] + (a,): 2 for a in aggs} if amount == 'two' else {})
    obj = x.val(c22.parse(x, plan), 'from_xml_string')
    y = x.val(x.S.m(obj, 'to_yaml'), 'to_yaml', YAML)
    plain_of(x, plan, 'ROOT', obj, x.I.resolve(y), ())


def entries(x, d):
    return {x.I.resolve(it[1]): x.I.resolve(it[2]) for it in x.I.get(d.id)[1]} if isinstance(d, DictV) else None


def plain_of(x, plan, cls, obj, y, path):
    I = x.I
    d = entries(x, y)
    if d is None:
        x.holds(None if isinstance(y, Unknown) else False, 'plain form of ' + cls, 'is %s' % show(y), YAML)
        return
    want = [p.var for p in LANG[plan.lang][cls]]
    x.holds(set(d) == set(want), 'entries of the plain form of ' + cls, 'are %s, the fields are %s' % (sorted(map(str, d)), sorted(want)), YAML)
    given = {p.name for p in plan.parts(cls, path)}
    for p in LANG[plan.lang][cls]:
        if p.var not in d:
            continue
        v = d[p.var]
        if c22.unclear(v):
            x.holds(None, p.var, 'not understood', YAML)
            continue
        what = '%s in the plain form of %s' % (p.var, cls)
        if p.agg:
            vs = items(x, v) if isinstance(v, (ListV, tuple)) else None
            n = plan.n(p, path) if p.name in given else 0
            x.holds(vs is not None and len(vs) == n, what, 'is %s instead of a list of %d' % (show(v), n), YAML)
            vals = [(path + (p.name + '#%d' % k,), I.resolve(w)) for k, w in enumerate((vs or [])[:n])]
        elif p.name not in given:
            dflt = I.resolve(I.getattr(obj, p.var))
            ok = v == 'None' if dflt is None else c22.is_default(x, v, p.default)
            x.holds(ok, what + ' when absent', 'is %s' % show(v), YAML)
            continue
        else:
            vals = [(path + (p.name,), v)]
        for k, (q, w) in enumerate(vals):
            t = p.type
            o = I.resolve(I.getattr(obj, p.var))
            if p.agg:
                o = I.resolve(items(x, o)[k])
            if t == 'raw':
                continue
            if t == 'geom' or t[0] in ('o', 'duck'):
                plain_of(x, plan, plan.cls(p, path), o, w, q)
            else:
                c22.plain(x, what, w, t[2] if t[0] == 'at' else t, q, YAML)


def names(x, o, var):
    return [x.I.resolve(x.I.getattr(y, 'name')) for y in items(x, x.I.resolve(x.I.getattr(o, var)))]


def order(x, lang, op):
    """elements are written in the order in which they were added; removed ones are not"""
    X.install(x.I, {})
    S, I = x.S, x.I
    top = x.val(S.call(S.get(MOD[lang])), 'constructor')
    o = top
    if lang == 'sdf':
        o = x.val(S.call(S.get(CLS[lang] + 'Model'), name='m'), 'constructor')
        I.setattr(top, 'model', o, None)
    L = {n: x.val(S.call(S.get(CLS[lang] + 'Link'), name=n), 'constructor') for n in 'abc'}
    J = {n: x.val(S.call(S.get(CLS[lang] + 'Joint'), name=n, parent=n[0], child=n[1], joint_type='fixed'), 'constructor') for n in ('ab', 'bc')}
    for n in ('b', 'bc', 'a', 'ab', 'c'):
        x.val(S.m(o, 'add_link' if n in L else 'add_joint', L[n] if n in L else J[n]), 'add')
    links, joints, seq = ['b', 'a', 'c'], ['bc', 'ab'], ['b', 'bc', 'a', 'ab', 'c']
    if op == 'remove':
        x.val(S.m(o, 'remove_aggregate', L['a']), 'remove_aggregate')
        x.val(S.m(o, 'remove_aggregate', J['bc']), 'remove_aggregate')
        links, joints, seq = ['b', 'c'], ['ab'], ['b', 'ab', 'c']
    if op == 'lump':
        x.val(S.m(o, 'lump_aggregates'), 'lump_aggregates')
        seq = ['b', 'a', 'c', 'bc', 'ab']
    if op == 'remove_lump':
        x.val(S.m(o, 'remove_aggregate', L['b']), 'remove_aggregate')
        x.val(S.m(o, 'lump_aggregates'), 'lump_aggregates')
        links, seq = ['a', 'c'], ['a', 'c', 'bc', 'ab']
    x.holds(names(x, o, 'links') == links, 'links after ' + op, 'are %s' % names(x, o, 'links'), WRITE)
    x.holds(names(x, o, 'joints') == joints, 'joints after ' + op, 'are %s' % names(x, o, 'joints'), WRITE)
    t = written(x, top, 'string')
    r = t.root if lang == 'urdf' else t.root.c[0]
    got = [c.a.get('name') for c in r.c]
    x.holds(got == seq, 'order of the elements written after ' + op, 'is %s instead of %s' % (got, seq), WRITE)
    o2 = x.val(S.m(S.get(MOD[lang]), 'from_xml_string', t), 'from_xml_string of the document written', WRITE)
    if lang == 'sdf':
        o2 = I.resolve(I.getattr(o2, 'model'))
    x.holds(names(x, o2, 'links') == links, 'links read back after ' + op, 'are %s' % names(x, o2, 'links'), WRITE)
    x.holds(names(x, o2, 'joints') == joints, 'joints read back after ' + op, 'are %s' % names(x, o2, 'joints'), WRITE)


def first(x, prop, ops):
    """link.visual / link.collision: the first one"""
    X.install(x.I, {})
    S, I = x.S, x.I
    cls = prop.capitalize()
    mk = lambda r: x.val(S.call(S.get(CLS['urdf'] + cls), geometry=x.val(S.call(S.get(CLS['urdf'] + 'Sphere'), radius=Num(T.atom(r), 'f')), 'constructor')), 'constructor')
    o = x.val(S.call(S.get(CLS['urdf'] + 'Link'), name='l'), 'constructor')
    cur = []

    def rad(l):
        out = []
        for y in items(x, I.resolve(I.getattr(l, prop + 's'))):
            r = I.resolve(I.getattr(I.resolve(I.getattr(I.resolve(y), 'geometry')), 'radius'))
            out.append(str(r.t) if isinstance(r, Num) else repr(r))
        return out
    want = lambda: [str(T.atom(c)) for c in cur]
    for k, op in enumerate(ops):
        nm = 'r%d' % k
        if op == 'set':
            I.setattr(o, prop, mk(nm), None)
            cur[:1] = [nm]
        elif op == 'add':
            x.val(S.m(o, 'add_aggregate', prop, mk(nm)), 'add_aggregate')
            cur.append(nm)
        x.holds(rad(o) == want(), prop + 's', 'are %s instead of %s' % (rad(o), want()), AT['urdf'])
        f = I.resolve(I.getattr(o, prop))
        fr = I.resolve(I.getattr(I.resolve(I.getattr(f, 'geometry')), 'radius')) if isinstance(f, Obj) else None
        x.holds(isinstance(fr, Num) and fr.t == T.atom(cur[0]), prop, 'is not the first one', AT['urdf'])
    top = x.val(S.call(S.get(MOD['urdf']), name='r'), 'constructor')
    x.val(S.m(top, 'add_link', o), 'add_link')
    o2 = x.val(S.m(S.get(MOD['urdf']), 'from_xml_string', written(x, top, 'string')), 'from_xml_string of the document written', WRITE)
    l2 = I.resolve(items(x, I.resolve(I.getattr(o2, 'links')))[0])
    x.holds(rad(l2) == want(), prop + 's read back', 'are %s instead of %s' % (rad(l2), want()), WRITE)


def none_first(x):
    X.install(x.I, {})
    o = x.val(x.S.call(x.S.get(CLS['urdf'] + 'Link'), name='l'), 'constructor')
    for prop in ('visual', 'collision'):
        x.holds(x.I.resolve(x.I.getattr(o, prop)) is None, prop + ' of a link without any', 'is %s' % show(x.I.resolve(x.I.getattr(o, prop))), AT['urdf'])


def color(x, form):
    S, I = x.S, x.I
    v = [Num(T.atom('c%d' % i), 'f') for i in range(4 if '4' in form else 3)]
    lst = I.list_of(list(v))
    o = x.val(S.call(S.get(CLS['urdf'] + 'Color'), *([lst] if 'list' in form else v)), 'constructor of Color', AT['urdf'])
    got = I.concrete_list(I.resolve(I.getattr(o, 'rgba')))
    if got is None:
        raise Undecided('rgba of Color')
    got = [I.resolve(y) for y in got]
    ok = len(got) == 4 and all(isinstance(g, Num) and g.t == w.t for g, w in zip(got, v)) and ('4' in form or c22.cval(I, got[3]) == 1)
    x.holds(ok, 'rgba of Color', 'is %s' % [show(g) for g in got], AT['urdf'])
    x.holds(len(I.concrete_list(lst)) == len(v), 'list given to Color', 'has %d entries after the call' % len(I.concrete_list(lst)), AT['urdf'])


def unshared(x):
    """values that stand for 'not given' belong to one object"""
    I = x.I
    site = [s for s in sites('urdf') if s[0] == 'Pose'][0]
    obj = x.val(c22.parse(x, make('urdf', site, frozenset())), 'from_xml_string')
    o = reach(x, obj, site)
    for f in ('xyz', 'rpy'):
        v = I.resolve(I.getattr(o, f))
        if isinstance(v, ListV):
            I.setitem(v, 0, Num(T.atom('mine'), 'f'), None)
    c22.accepted(x, make('urdf', site, frozenset()))


ALIAS = {'urdf': (('Pose', 'position', 'xyz'), ('Pose', 'rotation', 'rpy'), ('Joint', 'joint_type', 'type')), 'sdf': (('Joint', 'joint_type', 'type'),)}


def alias(x, lang, cls, old, new):
    """the older name of a field reads and sets that field and no other"""
    S, I = x.S, x.I
    flds = [n[1] if isinstance(n, tuple) else n for n in CTOR[lang][cls]]
    o = x.val(S.call(S.get(CLS[lang] + cls)), 'constructor of ' + cls)
    for f in flds:
        I.setattr(o, f, 'value of ' + f, None)
    x.holds(I.resolve(I.getattr(o, old)) == 'value of ' + new, '%s of %s' % (old, cls), 'is %s, the %s is set' % (show(I.resolve(I.getattr(o, old))), new), AT[lang])
    I.setattr(o, old, 'other', None)
    for f in flds:
        got = I.resolve(I.getattr(o, f))
        x.holds(got == ('other' if f == new else 'value of ' + f), '%s of %s after its %s is set' % (f, cls, old), 'is %s' % show(got), AT[lang])


def inertia_matrix(x, lang):
    """the symmetric matrix of the six moments"""
    S, I = x.S, x.I
    v = {k: Num(T.atom(k), 'f') for k in INERTIA}
    for how in ('kw', 'set'):
        o = x.val(S.call(S.get(CLS[lang] + 'Inertia'), **(v if how == 'kw' else {})), 'constructor of Inertia')
        if how == 'set':
            for k in INERTIA:
                I.setattr(o, k, v[k], None)
        m = x.val(S.m(o, 'to_matrix'), 'to_matrix', AT[lang])
        rows_ = [[I.resolve(e) for e in I.concrete_list(I.resolve(r))] for r in I.concrete_list(m)]
        want = [[T.atom('i' + ''.join(sorted(a + b))) for b in 'xyz'] for a in 'xyz']
        x.holds(len(rows_) == 3 and all(len(r) == 3 and all(isinstance(g, Num) and g.t == w for g, w in zip(r, u)) for r, u in zip(rows_, want)), 'to_matrix of Inertia (%s)' % how,
                'is %s' % [[show(g) for g in r] for r in rows_], AT[lang])


def parse_method(x, lang):
    plan = Plan(lang, {(): 'all'})
    X.install(x.I, {TEXT: plan.doc()})
    o = x.val(x.S.call(x.S.get(MOD[lang])), 'constructor')
    r = x.val(x.S.m(o, 'parse', TEXT), 'parse', WRITE)
    check(x, plan, 'ROOT', r, ())
    check(x, plan, 'ROOT', o, ())


def scenarios(tier):
    out = []
    for lang in LANG:
        for k, s in enumerate(sites(lang)):
            nm = '%s.%s' % (lang, '.'.join(s[5]) or 'document')
            ps = LANG[lang][s[0]]
            out.append((nm + '.full', s_full, (lang, k, 'string'), WRITE))
            out.append((nm + '.required', s_required, (lang, k), WRITE))
            if any(not needed(s[0], p) for p in ps):
                out.append((nm + '.each', s_each, (lang, k), WRITE))
            if any(p.agg for p in ps):
                out.append((nm + '.many', s_many, (lang, k), WRITE))
            if any(p.req and not p.agg for p in ps):
                out.append((nm + '.unset', s_unset, (lang, k), WRITE))
            for amount in ('all', 'required') + (('two',) if any(p.agg for p in ps) else ()):
                out.append(('%s.plain.%s' % (nm, amount), as_plain, (lang, k, amount), YAML))
            out.append((nm + '.changed', s_changed, (lang, k), WRITE))
            for pos in ('kw', 'args', 'add'):
                if pos == 'add' and s[0] != 'Link':
                    continue
                for amount in ('all', 'required') + (('two',) if any(p.agg for p in ps) else ()) + (('each',) if any(not needed(s[0], p) for p in ps) else ()):
                    out.append(('%s.built.%s.%s' % (nm, pos, amount), s_built, (lang, k, pos, amount), AT[lang]))
        out.append((lang + '.element', s_full, (lang, 0, 'element'), WRITE))
        out.append((lang + '.parse', parse_method, (lang,), WRITE))
        for op in ('add', 'remove', 'lump', 'remove_lump'):
            out.append(('%s.order.%s' % (lang, op), order, (lang, op), WRITE))
    for prop in ('visual', 'collision'):
        for ops in (('set',), ('set', 'set'), ('add', 'set'), ('set', 'add'), ('add', 'add', 'set', 'add')):
            out.append(('first.%s.%s' % (prop, '_'.join(ops)), first, (prop, ops), AT['urdf']))
    for lang in LANG:
        for a in ALIAS[lang]:
            out.append(('alias.%s.%s.%s' % (lang, a[0], a[1]), alias, (lang,) + a, AT[lang]))
        out.append(('matrix.' + lang, inertia_matrix, (lang,), AT[lang]))
    out.append(('first.none', none_first, (), AT['urdf']))
    for form in ('list4', 'list3', 'args4', 'args3'):
        out.append(('color.' + form, color, (form,), AT['urdf']))
    out.append(('unshared', unshared, (), AT['urdf']))
    return out
