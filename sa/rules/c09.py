"""Robots, frames, links, joints and transforms are built and moved (alone, through the model, in one or several steps, after having been used) in the abstract
interpreter, which knows the dtype and device of every tensor. Everything held by the moved object and everything its methods return afterwards has to be on the
requested device with the requested dtype, no operation may combine tensors of different devices, and the values held before and after have to be the same value graphs;
in a float64 history nothing may pass through a narrower dtype."""
from .lib import *
from . import c11
from .c08 import joint_input
from .c01 import poses
from .iklib import Problem, limited, names_of

FLOOR = 300



def tensors(x, v, path='', seen=None, skip=()):
    """every tensor reachable from a value"""
    I = x.I
    seen = set() if seen is None else seen
    v = I.resolve(v)
    out = []
    if isinstance(v, Tensor):
        return [(path, v)]
    if isinstance(v, tuple):
        for k, y in enumerate(v):
            out += tensors(x, y, '%s[%d]' % (path, k), seen, skip)
        return out
    if not isinstance(v, (Obj, ListV, DictV)) or v.id in seen:
        return out
    seen.add(v.id)
    if isinstance(v, ListV):
        for k, y in enumerate(I.concrete_list(v) or []):
            out += tensors(x, y, '%s[%d]' % (path, k), seen, skip)
    elif isinstance(v, DictV):
        for it in I.get(v.id)[1]:
            if it[0] == 'item' and not isinstance(it[2], Maybe):
                out += tensors(x, it[2], '%s[%s]' % (path, I.resolve(it[1])), seen, skip)
    else:
        d = I.get(v.id)[1]
        for k in sorted(d):
            if k not in skip and not isinstance(d[k], Maybe):
                out += tensors(x, d[k], path + '.' + k, seen, skip)
    return out


def dev(x, v):
    v = x.I.resolve(v)
    return tl.to_dev(v) if isinstance(v, str) else v


def placed(x, v, what, dt, dv, at, skip=(), least=1):
    """every tensor in v is on the device with the dtype; recorded dtypes and devices agree"""
    I = x.I
    ts = tensors(x, v, '', None, skip)
    if len(ts) < least:
        raise Undecided('%s: only %d tensors seen' % (what, len(ts)))
    bad = []
    for p, t in ts:
        if t.kind != 'torch':
            continue
        if t.device is not dv:
            bad.append('%s is on %s instead of %s' % (p, t.device.name, dv.name))
        elif t.dtype.cat == 2 and t.dtype is not dt:
            bad.append('%s has dtype %s instead of %s' % (p, t.dtype.name, dt.name))
    x.holds(not bad, what + ': tensors are where they were asked for', '; '.join(bad[:4]), at)
    bad = []

    def rec(v, path, seen):
        v = I.resolve(v)
        if isinstance(v, (Obj, ListV)):
            if v.id in seen:
                return
            seen.add(v.id)
        if isinstance(v, ListV):
            for k, y in enumerate(I.concrete_list(v) or []):
                rec(y, '%s[%d]' % (path, k), seen)
        elif isinstance(v, Obj):
            d = I.get(v.id)[1]
            if v.cls.name in ('Chain', 'SerialChain', 'Transform3d', 'Translate', 'Rotate', 'Scale', 'RotateAxisAngle') and not isinstance(d.get('dtype'), Maybe):
                a, b = I.resolve(d.get('dtype')), d.get('device')
                if a is not None and a is not dt:
                    bad.append('%s.dtype is %s' % (path, getattr(a, 'name', a)))
                if b is not None and dev(x, b) is not dv:
                    bad.append('%s.device is %s' % (path, b))
            for k in sorted(d):
                if k not in skip:
                    rec(d[k], path + '.' + k, seen)
    rec(v, '', set())
    x.holds(not bad, what + ': recorded dtype and device', '; '.join(bad[:4]), at)


def exact(t, I):
    """numerals a float32 represents"""
    r = I.reader(t)
    import struct
    for idx in indices(t.shape):
        e = r(idx)
        if e.op != 'num':
            return False
        try:
            f = float(e.args[0])
        except Exception:
            return False
        if struct.unpack('f', struct.pack('f', f))[0] != f:
            return False
    return True


def clean(x, n0, dt, what, at):
    """no operation across devices or dtypes, no rounding through a narrower dtype since event n0"""
    I = x.I
    bad = []
    rank = {'float16': 0, 'bfloat16': 0, 'float32': 1, 'float64': 2}
    for k, e in I.events[n0:]:
        if e.get('guard') is T.FALSE:
            continue
        w = '%s (line %s)' % (e.get('fn'), getattr(e.get('node'), 'lineno', '?'))
        if k in ('device_mix', 'device_store'):
            bad.append('tensors of different devices meet in ' + w)
        elif k == 'dtype_error':
            bad.append('%s of different dtypes in %s' % (e.get('op'), w))
        elif k in ('cast', 'dtype_store') and dt is F64:
            a, b = e['dtypes']
            if rank.get(b, 2) < rank.get(a, 2):
                bad.append('a %s value is rounded to %s in %s' % (a, b, w))
            elif k == 'cast' and rank.get(a, 2) < 2 and not exact(e['tensor'], I):
                bad.append('a value was kept in %s before it reached %s' % (a, w))
    x.holds(not bad, what + ': one device, no loss of precision', '; '.join(bad[:3]), at)


def use(x, r, c, dt, dv, at, tag, serial, full=True):
    """what the model computes is on the device with the dtype; returns the results"""
    S, I = x.S, x.I
    n0 = len(I.events)
    names = names_of(x, c)
    n = len(names)
    out = []

    def res(nm, o, least=1, skip=()):
        v = x.val(o, nm)
        placed(x, v, '%s%s' % (nm, tag), dt, dv, at, skip, least)
        out.append((nm, v))
        return v
    th = S.t('th', ('B', n), dt, dv)
    res('forward_kinematics_tensor', S.m(c, 'forward_kinematics_tensor', th))
    res('forward_kinematics', S.m(c, 'forward_kinematics', th))
    res('get_all_frame_indices', S.m(c, 'get_all_frame_indices'))

    ends = [I.resolve(v) for v in I.concrete_list(x.val(S.m(c, 'get_frame_names', exclude_fixed=False), 'get_frame_names'))]
    res('get_frame_indices', S.m(c, 'get_frame_indices', ends[0], ends[-1]))
    res('clamp', S.m(c, 'clamp', th))
    if full:
        for form in ('array', 'list', 'dict_np0', 'dict_t0'):
            if form == 'dict_t0':
                v = S.dct({nm: S.t('q!' + nm, (), dt, dv) for nm in names[::-1]})
            else:
                v = joint_input(x, form, names, dtype=dt)[0]
            res('forward_kinematics from ' + form, S.m(c, 'forward_kinematics', v))
            res('ensure_tensor of ' + form, S.m(c, 'ensure_tensor', v))
    if serial:
        res('forward_kinematics of all frames', S.m(c, 'forward_kinematics', th, end_only=False))
        for nm, kw in (('jacobian', {}), ('jacobian and pose', dict(ret_eef_pose=True)), ('jacobian at a tool', dict(locations=S.t('tp', (3,), dt, dv), ret_eef_pose=True))):
            res(nm, S.m(c, 'jacobian', th, **kw))
        res('jacobian_tensor', S.m(c, 'jacobian_tensor', th))
        res('jacobian of a list', S.m(c, 'jacobian', joint_input(x, 'list', names)[0]))
        clean(x, n0, dt, 'use' + tag, at)
        t = x.val(S.call(TF + ':Transform3d', pos=S.t('tp', (3,), F32, CPU)), 'Transform3d')
        res('jacobian at a tool given elsewhere', S.m(c, 'jacobian', th, locations=t))
        n0 = len(I.events)
        o = S.call(PK + '.jacobian:calc_jacobian', c, th)
        res('calc_jacobian', o)
    clean(x, n0, dt, 'use' + tag, at)
    return out


def stale(x, a, b, what, at):
    """the same results, in value, before and after"""
    for (nm, v), (_, w) in zip(a, b):
        p, q = c11.snap(x, [('r', v)]), c11.snap(x, [('r', w)])
        f = lambda d: {k: y for k, y in d.items() if not k.endswith('.meta') and not k.endswith(('.dtype', '.device', '._lu'))}
        c11.differ(x, '%s: value of %s' % (what, nm), f(p), f(q), at)


def values(x, a, b, what, at):
    f = lambda d: {k: y for k, y in d.items() if not k.endswith('.meta') and not (k.endswith(('.dtype', '.device')) or 'lru' in k or '_memo' in k)}
    c11.differ(x, what, f(a), f(b), at)


LIM = ('both', 'none', 'upper', 'lower')


def model(x, key, dt, dv, own=True):
    """a robot whose frames are given in the dtype and on the device (or, own=False, in the default ones)"""
    S = x.S
    je, _ = limited(x, key, LIM)
    if own:
        return Robot(S, key, dt, dv, jextra=je)
    r = Robot(S, key, F32, CPU, build=False, jextra=je)
    return r


def built(x, key, dt, dv, end, root, own):
    S, I = x.S, x.I
    at = 'chain.py:Chain.__init__'
    n0 = len(I.events)
    if own:
        r = model(x, key, dt, dv)
    else:
        r = model(x, key, F32, CPU, False)
        n0 = len(I.events)
        r.chain = x.val(S.call(CH + ':Chain', r.root, dtype=dt, device=dv), 'Chain')
    skip = () if own else ('_root', '_serial_frames')
    placed(x, r.chain, 'a new chain', dt, dv, at, skip, 8)
    if own:
        clean(x, n0, dt, 'construction', at)
    use(x, r, r.chain, dt, dv, at, '', False, full=own)
    if end is not None:
        # without saying so again
        n0 = len(I.events)
        c = x.val(S.call(CH + ':SerialChain', r.chain, end, *([root] if root else [])), 'SerialChain')
        a2 = 'chain.py:SerialChain.__init__'
        placed(x, c, 'a serial chain cut from it', dt, dv, a2, skip, 8)
        if own:
            clean(x, n0, dt, 'cutting', a2)
        use(x, r, c, dt, dv, a2, ' of a serial chain', True, full=own)


def target(dt, dv, step):
    return step.get('dtype', dt), step.get('device', dv)


def moved(x, key, end, root, dt, dv, steps, before, after):
    """use, move (several times), use again"""
    S, I = x.S, x.I
    serial = end is not None
    at = 'chain.py:%s.to' % ('SerialChain' if serial else 'Chain')
    r = model(x, key, dt, dv)
    c = x.val(S.call(CH + ':SerialChain', r.chain, end, *([root] if root else [])), 'SerialChain') if serial else r.chain
    was = use(x, r, c, dt, dv, at, ' before', serial, full=before == 'full') if before else None
    s0 = c11.snap(x, [('chain', c)])
    wide = F64 if dt is F64 and all(st.get('dtype', F64) is F64 for st in steps) else None
    n0 = len(I.events)
    for k, st in enumerate(steps):
        o = S.m(c, 'to', **st)
        ret = x.val(o, 'to')
        dt, dv = target(dt, dv, st)
        placed(x, ret, 'returned by step %d' % k, dt, dv, at, (), 8)
        c = ret
        if after == 'each' and k < len(steps) - 1:
            use(x, r, c, dt, dv, at, ' after step %d' % k, serial, full=False)
    if after != 'each':
        clean(x, n0, wide, 'moving', at)
    values(x, s0, c11.snap(x, [('chain', c)]), 'values held by the model', at)
    now = use(x, r, c, dt, dv, at, ' after', serial)
    if was:
        # the same joint values in the new place
        stale(x, was[:4], now[:4], 'after moving', at)
    # a serial chain cut from the moved model
    if not serial and key == 'tree':
        c2 = x.val(S.call(CH + ':SerialChain', c, 'b111'), 'SerialChain')
        placed(x, c2, 'a serial chain cut from the moved model', dt, dv, 'chain.py:SerialChain.__init__', (), 8)
        use(x, r, c2, dt, dv, 'chain.py:SerialChain.__init__', ' of a serial chain cut after moving', True, full=False)


def visual(x, dt, dv, name, off=True):
    S = x.S
    o = x.val(S.call(TF + ':Transform3d', matrix=S.t('rigid!' + name, (4, 4), dt, dv), dtype=dt, device=dv), 'Transform3d') if off else None
    return x.val(S.call(FR + ':Visual', offset=o, geom_type='box', geom_param=(1.0, 2.0, 3.0)), 'Visual')


def part(x, kind, dt, dv, steps, pos):
    """a single frame, link or joint"""
    S, I = x.S, x.I
    tr = lambda nm: x.val(S.call(TF + ':Transform3d', matrix=S.t('rigid!' + nm, (1, 4, 4), dt, dv), dtype=dt, device=dv), 'Transform3d')

    def joint(nm, jt, off):
        return x.val(S.call(FR + ':Joint', nm, offset=tr('jo' + nm) if off else None, joint_type=jt, axis=S.t('ax!' + nm, (3,), dt, dv), dtype=dt, device=dv), 'Joint')

    def link(nm, off, vis):
        vs = S.lst([visual(x, dt, dv, 'v0' + nm), visual(x, dt, dv, 'v1' + nm, False), visual(x, dt, dv, 'v2' + nm)]) if vis == 'list' else tuple(visual(x, dt, dv, 'v%d%s' % (k, nm)) for k in range(2)) if vis else ()
        return x.val(S.call(FR + ':Link', nm, offset=tr('lo' + nm) if off else None, visuals=vs), 'Link')

    def frame(nm, jt, jo, lo, vis):
        return x.val(S.call(FR + ':Frame', nm, link=link(nm, lo, vis), joint=joint(nm, jt, jo)), 'Frame')
    if kind.startswith('joint'):
        o, at = joint('j', 'revolute', kind == 'joint'), 'frame.py:Joint.to'
    elif kind.startswith('link'):
        o, at = link('l', 'bare' not in kind, 'tuple' if 'tuple' in kind else 'list'), 'frame.py:Link.to'
    else:
        at = 'frame.py:Frame.to'
        o = frame('f', 'prismatic', True, False, 'list')
        a, b, c = frame('a', 'fixed', True, True, 'tuple'), frame('b', 'revolute', False, False, None), frame('c', 'revolute', True, True, 'list')
        S.m(a, 'add_child', c).val()
        S.m(o, 'add_child', a).val()
        S.m(o, 'add_child', b).val()
    s0 = c11.snap(x, [('it', o)])
    wide = F64 if dt is F64 and all(st.get('dtype', F64) is F64 for st in steps) else None
    n0 = len(I.events)
    for st in steps:
        args = [st[k] for k in pos] if pos else []
        o2 = x.val(S.m(o, 'to', *args, **({} if pos else st)), 'to')
        dt, dv = target(dt, dv, st)
        o = o2
    placed(x, o, 'after moving', dt, dv, at)
    values(x, s0, c11.snap(x, [('it', o)]), 'values held', at)
    clean(x, n0, wide, 'moving', at)
    if kind == 'frame':
        for nm, f in (('prismatic', o),) + tuple(zip(('fixed', 'revolute'), I.concrete_list(S.attr(o, 'children')))):
            t = x.val(S.m(f, 'get_transform', S.t('q', ('B',), dt, dv)), 'get_transform')
            placed(x, t, 'get_transform of a %s joint' % nm, dt, dv, 'frame.py:Frame.get_transform')
        clean(x, n0, None, 'using', at)


def mk_tr(x, kind, dt, dv, B):
    S = x.S
    if kind == 'Transform3d':
        return x.val(S.call(TF + ':Transform3d', matrix=S.t('rigid!m', (B, 4, 4), dt, dv), dtype=dt, device=dv), kind)
    if kind == 'pos':
        return x.val(S.call(TF + ':Transform3d', pos=S.t('p', (B, 3), dt, dv), dtype=dt, device=dv), kind)
    if kind == 'rot':
        return x.val(S.call(TF + ':Transform3d', rot=S.t('rot!q', (B, 3, 3), dt, dv), dtype=dt, device=dv), kind)
    if kind == 'default':
        return x.val(S.call(TF + ':Transform3d', dtype=dt, device=dv), kind)
    a = {'Translate': S.t('p', (B, 3), dt, dv), 'Scale': S.t('s', (B, 3), dt, dv), 'Rotate': S.t('rot!q', (B, 3, 3), dt, dv), 'RotateAxisAngle': S.t('an', (B,), dt, dv)}[kind]
    return x.val(S.call(tf(S, kind), a, dtype=dt, device=dv), kind)


def transform(x, kind, dt, dv, steps, how):
    S, I = x.S, x.I
    at = 'transforms/transform3d.py:Transform3d.to'
    t = mk_tr(x, kind, dt, dv, 'B')
    placed(x, t, 'a new transform', dt, dv, 'transforms/transform3d.py:%s.__init__' % (kind if kind[0] == 'T' or kind[0] in 'SR' else 'Transform3d'))
    s0 = c11.snap(x, [('m', x.val(S.m(t, 'get_matrix'), 'get_matrix'))])
    orig = t
    odt, odv = dt, dv
    n0 = len(I.events)
    for st in steps:
        if how == 'cpu':
            t = x.val(S.m(t, 'cpu'), 'cpu')
            dv = CPU
            continue
        if how == 'cuda':
            t = x.val(S.m(t, 'cuda'), 'cuda')
            dv = tl.to_dev('cuda')
            continue
        kw = dict(st)
        if how == 'copy':
            kw['copy'] = True
        if how == 'pos':
            t = x.val(S.m(t, 'to', kw.pop('device'), **kw), 'to')
        else:
            t = x.val(S.m(t, 'to', **kw), 'to')
        dt, dv = target(dt, dv, st)
    placed(x, t, 'a moved transform', dt, dv, at)
    m = x.val(S.m(t, 'get_matrix'), 'get_matrix')
    placed(x, m, 'matrix of a moved transform', dt, dv, at)
    values(x, s0, c11.snap(x, [('m', m)]), 'matrix', at)
    if (odt, odv) != (dt, dv):
        # the original stays (out of place, like Tensor.to)
        placed(x, orig, 'the transform it was moved from', odt, odv, at)
    if how == 'copy':
        a, b = I.resolve(S.attr(orig, '_matrix')), I.resolve(m)
        x.holds(a.cell != b.cell, 'a copy owns its matrix', 'to(copy=True) shares storage', at)
    pts = S.t('pts', ('P', 3), dt, dv)
    other = mk_tr(x, 'rot', dt, dv, 'B')
    for nm, o in (('compose', S.m(t, 'compose', other)), ('inverse', S.m(t, 'inverse')), ('transform_points', S.m(t, 'transform_points', pts)), ('transform_normals', S.m(t, 'transform_normals', pts)),
                  ('stack', S.m(t, 'stack', other)), ('clone', S.m(t, 'clone')), ('translate', S.m(t, 'translate', 1.0, 2.0, 3.0)), ('scale', S.m(t, 'scale', 2.0)), ('translate by a tensor', S.m(t, 'translate', S.t('p2', (1, 3), dt, dv))),
                  ('rotate', S.m(t, 'rotate', S.t('rot!r2', (3, 3), dt, dv))), ('rotate_axis_angle', S.m(t, 'rotate_axis_angle', 90.0, 'X')), ('indexing', S.m(t, '__getitem__', 0))):
        if nm in ('transform_normals',) and kind == 'Scale':
            continue
        placed(x, x.val(o, nm), '%s of a moved transform' % nm, dt, dv, 'transforms/transform3d.py:Transform3d.' + nm.split()[0])
    clean(x, n0, None, 'moving and using', at)


def solve(x, key, dt, dv, cls):
    """an inverse kinematics solver works where its chain is"""
    S, I = x.S, x.I
    p = Problem(x, key, 'l2' if key == 'rr' else 'ee', dtype=dt, device=dv, pattern=('both', 'both'))
    n0 = len(I.events)
    for kw in ({}, dict(retry_configs=None, num_retries=2, joint_limits=S.t('jl', (p.n, 2), dt, dv)), dict(retry_configs=None, num_retries=2, config_sampling_method='gaussian')):
        ik = p.solver(cls, max_iterations=1, **kw)
        sol = p.solve(ik)
        placed(x, sol, 'solution', dt, dv, 'ik.py:IKSolution.__init__', (), 6)
    clean(x, n0, dt, 'solving', 'ik.py:PseudoInverseIK.solve')


def scenarios(tier):
    o = []
    D, V = 'dtype', 'device'
    places = [(F64, GPU), (F64, CPU), (F32, GPU), (F32, CPU)]
    ends = {'tree': ('b111', ''), 'arm': ('ee', ''), 'rr': ('l2', ''), 'rootmove': ('l2', ''), 'fixed': ('l2', ''), 'star': ('b1', 'b'), 'single': (None, ''), 'pp': ('ee', '')}
    for key, (e, r) in ends.items():
        for dt, dv in places:
            for own in (True, False):
                if (dt, dv) == (F32, CPU) and not own:
                    continue
                o.append(('build.%s.%s.%s.%s' % (key, dt.name, dv.name, 'own' if own else 'other'), built, (key, dt, dv, e, r, own), 'chain.py:Chain.__init__'))
    seqs = {'dtype': (F32, CPU, [{D: F64}]), 'device': (F32, CPU, [{V: GPU}]), 'both': (F32, CPU, [{D: F64, V: GPU}]), 'narrow': (F64, CPU, [{D: F32}]), 'back': (F64, GPU, [{V: CPU}]),
            'each': (F32, CPU, [{D: F64}, {V: GPU}]), 'each2': (F32, CPU, [{V: GPU}, {D: F64}]), 'roundtrip': (F64, CPU, [{V: GPU}, {V: CPU}]), 'gpu64': (F64, CPU, [{V: GPU}]), 'none': (F64, GPU, [{}]), 'half': (F32, CPU, [{D: DT('float16'), V: GPU}])}
    for nm, (dt, dv, steps) in seqs.items():
        for key, (e, r) in ends.items():
            if key in ('rootmove', 'fixed', 'star', 'single') and nm not in ('both', 'device'):
                continue
            for before in ('full', None):
                if before is None and key != 'tree':
                    continue
                o.append(('move.%s.%s.%s' % (nm, key, before), moved, (key, None, '', dt, dv, steps, before, 'each' if len(steps) > 1 else ''), 'chain.py:Chain.to'))
                if e:
                    o.append(('move.serial.%s.%s.%s' % (nm, key, before), moved, (key, e, r, dt, dv, steps, before, 'each' if len(steps) > 1 else ''), 'chain.py:SerialChain.to'))
        for kind in ('frame', 'link', 'link.bare', 'link.tuple', 'joint', 'joint.bare'):
            if nm != 'none':
                o.append(('part.%s.%s' % (kind, nm), part, (kind, dt, dv, steps, None), 'frame.py:%s.to' % kind.split('.')[0].capitalize()))
        if nm in ('device', 'back'):
            for kind in ('frame', 'link', 'joint'):
                o.append(('part.%s.%s.pos' % (kind, nm), part, (kind, dt, dv, steps, (V,)), 'frame.py:%s.to' % kind.capitalize()))
        for kind in ('Transform3d', 'pos', 'rot', 'default', 'Translate', 'Scale', 'Rotate', 'RotateAxisAngle'):
            for how in ('kw', 'copy', 'pos'):
                if how == 'pos' and not all(V in s for s in steps):
                    continue
                o.append(('transform.%s.%s.%s' % (kind, nm, how), transform, (kind, dt, dv, steps, how), 'transforms/transform3d.py:Transform3d.to'))
    for kind in ('Transform3d', 'Translate'):
        o.append(('transform.%s.cpu' % kind, transform, (kind, F64, GPU, [{}], 'cpu'), 'transforms/transform3d.py:Transform3d.cpu'))
        o.append(('transform.%s.cuda' % kind, transform, (kind, F64, CPU, [{}], 'cuda'), 'transforms/transform3d.py:Transform3d.cuda'))
    for cls in ('PseudoInverseIK', 'PseudoInverseIKWithSVD'):
        for dt, dv in places[:3]:
            o.append(('ik.%s.%s.%s' % (cls, dt.name, dv.name), solve, ('rr', dt, dv, cls), 'ik.py:PseudoInverseIK.solve'))
    return o
