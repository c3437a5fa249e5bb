"""Robots and joints with every mixture of limits (both sides, one side, none, zero, equal, integers, lists, tensors) are built; the value graphs of the reported limits
are compared with the limits given, joint by joint, and those of clamped configurations with the nearest value between the joint's own limits."""
from .lib import *
from .iklib import numeric
from .c06 import items, names_of, SER
from .c08 import joint_input

FLOOR = 150
KINDS = [('limits', 'get_joint_limits'), ('velocity_limits', 'get_joint_velocity_limits'), ('effort_limits', 'get_joint_effort_limits')]
PROV = {'lo!*': p_range(-2.0, -0.2), 'hi!*': p_range(0.2, 2.0), 'th': p_range(-3.0, 3.0), 'q!*': p_range(-3.0, 3.0), 'pt!*': p_range(-1.0, 1.0)}
FORMS = ('both', 'upper', 'none', 'zero', 'lower', 'lozero', 'list', 'unset', 'hizero', 'int', 'inf', 'point', 'tensor', 'positive', 'negative')
NEG, POS = T.neg(T.INF), T.INF


def limit(x, form, nm):
    """value given, lower and upper bound meant"""
    S = x.S
    lo, hi = T.atom('lo!' + nm), T.atom('hi!' + nm)
    L, H = Num(lo, 'f'), Num(hi, 'f')
    z = T.ZERO
    if form == 'both':
        return (L, H), lo, hi
    if form == 'list':
        return S.lst([L, H]), lo, hi
    if form == 'upper':
        return (-math.inf, H), NEG, hi
    if form == 'lower':
        return (L, math.inf), lo, POS
    if form == 'inf':
        return (-math.inf, math.inf), NEG, POS
    if form == 'zero':
        return (0.0, 0.0), z, z
    if form == 'lozero':
        return (0.0, H), z, hi
    if form == 'hizero':
        return (L, 0), lo, z
    if form == 'int':
        return (-1, 2), num(-1), num(2)
    if form == 'positive':
        return (0.5, 1.5), T.div(num(1), num(2)), T.div(num(3), num(2))
    if form == 'negative':
        return (-1.5, -0.5), T.div(num(-3), num(2)), T.div(num(-1), num(2))
    if form == 'point':
        p = T.atom('pt!' + nm)
        return (Num(p, 'f'), Num(p, 'f')), p, p
    if form == 'tensor':
        return x.I.tensor((2,), lambda i: T.ite(T.eq(i[0], T.ZERO), lo, hi), F32, CPU), lo, hi
    return None, NEG, POS


def robot(x, key, shift, forms, dtype=F32):
    """every joint and kind of limit gets another form"""
    je, want = {}, {}
    for k, n in enumerate(m for m in ALL[key].nodes if m.jt != 'fixed'):
        d = {}
        for j, (attr, _) in enumerate(KINDS):
            form = forms[(k + shift + 4 * j) % len(forms)]
            if j and form == 'tensor':
                form = 'both'
            v, lo, hi = limit(x, form, attr + '!' + n.name)
            want[attr, n.jname] = (lo, hi)
            if form != 'unset':
                d[attr] = v
        je[n.name] = d
    return Robot(x.S, key, dtype, jextra=je), want


def es_of(x, n):
    out = envs(x.I, n, PROV)
    return out


def term(x, y):
    y = x.I.resolve(y)
    try:
        return nterm(x.I.elem(y)) if isinstance(y, Tensor) else nterm(y)
    except (TypeError, AttributeError, Giveup):
        raise Undecided('limit %r' % (y,))


def nearest(e, v, lo, hi):
    l, h, q = e.ev(lo), e.ev(hi), e.ev(v)
    return min(max(q, l), h)


def reported(x, key, end, root, shift, forms, dtype=F32):
    S, I = x.S, x.I
    r, want = robot(x, key, shift, forms, dtype)
    chains = [(r.chain, '')]
    if end:
        chains.append((x.val(r.serial(end, root), 'SerialChain'), ' of a serial chain'))
    for c, tag in chains:
        names = names_of(x, c)
        for attr, fn in KINDS:
            o = x.val(S.m(c, fn), fn)
            lo, hi = o if isinstance(o, tuple) else I.concrete_list(o)
            at = 'chain.py:Chain.' + fn
            for side, v in ((0, lo), (1, hi)):
                vs = items(x, v) if not isinstance(I.resolve(v), tuple) else [I.resolve(y) for y in I.resolve(v)]
                x.holds(len(vs) == len(names), '%s%s: one %s limit per joint' % (fn, tag, ('lower', 'upper')[side]), '%d for %d joints' % (len(vs), len(names)), at)
                ts = [term(x, y) for y in vs]
                numeric(x, '%s limits from %s%s' % (('lower', 'upper')[side], fn, tag), ts, lambda e: [e.ev(want[attr, nm][side]) for nm in names], es_of(x, 3), 1e-9, at)
        for side, nm in ((0, 'low'), (1, 'high')):
            t = I.resolve(S.attr(c, nm))
            x.holds(t.dtype is dtype and tuple(t.shape) == (len(names),), 'shape and dtype of %s%s' % (nm, tag), '%s %s' % (t.shape, t.dtype.name), 'chain.py:Chain.__init__')
            g = I.reader(t)
            numeric(x, '%s%s' % (nm, tag), [g((num(k),)) for k in range(len(names))], lambda e: [e.ev(want['limits', n_][side]) for n_ in names], es_of(x, 3), 1e-6, 'chain.py:Chain.__init__')


def clamped(x, key, end, root, shift, forms, form):
    """every value at the nearest point of its own interval"""
    S, I = x.S, x.I
    r, want = robot(x, key, shift, forms)
    c = x.val(r.serial(end, root), 'SerialChain') if end else r.chain
    names = names_of(x, c)
    v, val, B = joint_input(x, form, names)
    o = x.val(S.m(c, 'clamp', v), 'clamp')
    at = 'chain.py:Chain.clamp'
    b = [] if B is None else list(rows((B,)))
    bb = b[0] if b else num(0)
    shape = tuple(S.dim(d) for d in ((B,) if B is not None else ())) + (len(names),)
    ok = len(o.shape) == len(shape) and all(same_dim(p, q) for p, q in zip(o.shape, shape))
    x.holds(ok, 'clamp: shape', 'has shape %s for %s' % (o.shape, shape), at)
    if not ok:
        return
    g = I.reader(o)
    nm2 = sorted(names)
    numeric(x, 'clamp', [g(tuple(b) + (num(k),)) for k in range(len(names))], lambda e: [nearest(e, val(bb, n), *want['limits', n]) for n in names], es_of(x, 16 if x.tier == 'quick' else 60), 1e-6, at)


def joint(x, form, shape, jt):
    S, I = x.S, x.I
    v, lo, hi = limit(x, form, 'j')
    kw = {} if form == 'unset' else dict(limits=v)
    other = dict(velocity_limits=(Num(T.atom('lo!v'), 'f'), Num(T.atom('hi!v'), 'f')), effort_limits=(Num(T.atom('lo!e'), 'f'), Num(T.atom('hi!e'), 'f')))
    j = x.val(S.call(FR + ':Joint', 'j', joint_type=jt, axis=S.t('ax!j', (3,)), **kw, **other), 'Joint')
    th = S.t('th', shape)
    o = x.val(S.m(j, 'clamp', th), 'clamp')
    at = 'frame.py:Joint.clamp'
    idx = rows(shape)
    x.holds(len(o.shape) == len(shape), 'shape', 'has shape %s' % (o.shape,), at)
    numeric(x, 'clamp of a joint', [I.reader(o)(idx)], lambda e: [nearest(e, T.atom('th', *idx), lo, hi)], es_of(x, 16 if x.tier == 'quick' else 60), 1e-6, at)
    for attr, w in (('limits', (lo, hi)), ('velocity_limits', (T.atom('lo!v'), T.atom('hi!v'))), ('effort_limits', (T.atom('lo!e'), T.atom('hi!e')))):
        g = I.resolve(S.attr(j, attr))
        if g is None:
            x.holds(form in ('none', 'unset') and attr == 'limits', 'stored ' + attr, 'are None', 'frame.py:Joint.__init__')
            continue
        gs = [I.elem(g, num(k)) for k in range(2)] if isinstance(g, Tensor) else list(g) if isinstance(g, tuple) else items(x, g)
        numeric(x, 'stored ' + attr, [nterm(y) for y in gs], lambda e: [e.ev(t) for t in w], es_of(x, 3), 1e-6, 'frame.py:Joint.__init__')


def scenarios(tier):
    o = []
    SE = dict((k, (e, r)) for k, e, r in SER)
    L = 'chain.py:Chain.get_joint_limits'
    for key in ALL:
        e, r = SE.get(key, (None, ''))
        for shift in range(0, 15, 1 if tier == 'thorough' else 2):
            o.append(('reported.%s.%d' % (key, shift), reported, (key, e, r, shift, FORMS), L))
        for f in ('none', 'both', 'unset'):
            o.append(('reported.%s.%s' % (key, f), reported, (key, e, r, 0, (f,)), L))
    o.append(('reported.f64', reported, ('tree', 'b111', '', 1, FORMS, F64), L))
    forms = ('tensor', 'tensor1', 'list', 'list_int', 'array', 'array1', 'dict_scalar', 'dict_t0', 'dict_np0', 'dict_t1', 'dict_tensor')
    k = 0
    for key in ALL:
        if not [n for n in ALL[key].nodes if n.jt != 'fixed']:
            continue
        e, r = SE.get(key, (None, ''))
        for f in forms:
            if f != 'tensor' and key not in ('tree', 'star', 'arm') and tier == 'quick':
                continue
            for end in (None, e):
                if end is None or end:
                    o.append(('clamp.%s.%s.%s' % (key, f, end), clamped, (key, end, r if end else '', k, FORMS, f), 'chain.py:Chain.clamp'))
                    k += 1
        o.append(('clamp.%s.none' % key, clamped, (key, None, '', 0, ('none',), 'tensor'), 'chain.py:Chain.clamp'))
        o.append(('clamp.%s.both' % key, clamped, (key, None, '', 0, ('both',), 'tensor'), 'chain.py:Chain.clamp'))
        for s in range(0, 15, 3):
            o.append(('clamp.%s.shift%d' % (key, s), clamped, (key, None, '', s, FORMS, 'tensor'), 'chain.py:Chain.clamp'))
    for f in FORMS:
        for shape in ((), ('B',), ('B', 'C'), (1,), (3,)):
            if f == 'tensor' and shape == (3,):
                pass
            o.append(('joint.%s.%s' % (f, '_'.join(map(str, shape))), joint, (f, shape, 'prismatic' if len(f) % 2 else 'revolute'), 'frame.py:Joint.clamp'))
    return o
