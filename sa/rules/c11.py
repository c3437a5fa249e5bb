"""Around every call the contents of everything the caller passed in (tensors, arrays, lists, dictionaries, transforms, robot models, the object a method is called on)
are read as value graphs before and after and have to be equal; the call is then repeated with the same arguments and, on robots and solvers, again after a
call with other arguments, and has to give the same result."""
from .lib import *
from .iklib import Problem, names_of, PROVIK, limited
from .c23 import common
from . import c10
from .c08 import joint_input, names_, FORMS
from .c01 import poses

FLOOR = 200
IKOBJ = ('chain', 'initial_config', 'joint_limits', 'config_sampling_method')
VOLATILE = ('sample_perturbations', 'random_quaternions', 'random_rotations', 'random_rotation', 'sample_configs')
INPLACE = ('to', 'cpu', 'cuda', 'add_child', 'clear', '__init__')


class Snap:
    def __init__(self, x, extra=()):
        self.x, self.I = x, x.I
        self.d = {}

    def walk(self, v, path, seen):
        I = self.I
        v = I.resolve(v)
        if isinstance(v, Tensor):
            r = I.reader(v)
            n = 0
            self.d[path + '.meta'] = ('meta', v.dtype.name, v.device.name, tuple(d.id if isinstance(d, T.Term) else d for d in v.shape))
            for idx in indices(v.shape):
                self.d['%s[%s]' % (path, ','.join(map(T.show, idx)))] = r(idx)
                n += 1
                if n > 700:
                    break
            return
        if isinstance(v, (bool, int, float, str, DT, Dev)) or v is None:
            self.d[path] = ('py', v)
            return
        if isinstance(v, Num):
            self.d[path] = v.t
            return
        if isinstance(v, SBool):
            self.d[path] = v.t
            return
        if isinstance(v, tuple):
            self.d[path + '.len'] = ('py', len(v))
            for k, y in enumerate(v):
                self.walk(y, '%s[%d]' % (path, k), seen)
            return
        if isinstance(v, (Obj, ListV, DictV)):
            if v.id in seen:
                return
            seen.add(v.id)
        if isinstance(v, ListV):
            c = I.concrete_list(v)
            if c is None:
                return
            self.d[path + '.len'] = ('py', len(c))
            for k, y in enumerate(c):
                self.walk(y, '%s[%d]' % (path, k), seen)
        elif isinstance(v, DictV):
            items = I.get(v.id)[1]
            ks = []
            for it in items:
                if it[0] != 'item' or isinstance(it[2], Maybe):
                    return
                ks.append(str(I.resolve(it[1])))
                self.walk(it[2], '%s[%s]' % (path, ks[-1]), seen)
            self.d[path + '.keys'] = ('py', tuple(ks))
        elif isinstance(v, Obj):
            d = I.get(v.id)[1]
            ik = any(v.cls.name.endswith(s) for s in ('IK', 'IKWithSVD', 'InverseKinematics'))
            for k in sorted(d):
                if ik and k not in IKOBJ:
                    continue
                y = d[k]
                if isinstance(y, Maybe):
                    continue
                self.walk(y, path + '.' + k, seen)


def snap(x, vals):
    s = Snap(x)
    seen = set()
    for nm, v in vals:
        s.walk(v, nm, seen)
    return s.d


def scal(v):
    return isinstance(v, T.Term)


def differ(x, what, a, b, at, fresh=False):
    """everything in a is in b, and equal"""
    c = Cmp()
    es = None
    for k, v in a.items():
        c.n += 1
        if k not in b:
            if isinstance(v, tuple) and v[0] == 'py' and v[1] is None or (k.endswith(('.len', '.keys', '.meta')) and False):
                continue
            c.bad.append(Mismatch(k, (), 'gone', 'as before'))
            continue
        w = b[k]
        if v is w or (not scal(v) and not scal(w) and v == w):
            c.proved += 1
            continue
        if not scal(v) and isinstance(v, tuple) and v[0] == 'py' and v[1] is None:
            continue        # filled in lazily
        if scal(v) != scal(w):
            if isinstance(v, tuple) and v[0] == 'py' and isinstance(v[1], (int, float)) and scal(w):
                v = num(v[1])
            else:
                c.bad.append(Mismatch(k, (), w, v))
                continue
        if not scal(v):
            c.bad.append(Mismatch(k, (), w, v))
            continue
        if es is None:
            es = envs(x.I, 6) + envs(x.I, 3, CORNER, 50) + envs(x.I, 3, PROVIK, 90)
            for k_, e in enumerate(es):
                e.sizes = {'B': (3, 1, 2)[k_ % 3], 'C': (2, 3, 1)[k_ % 3]}
        bad = False
        for e in es:
            p, q = c10.ev(e, v), c10.ev(e, w)
            if p is None or q is None:
                continue
            c.points += 1
            if not close(p, q, 1e-9):
                c.bad.append(Mismatch(k, (), q, p, e, w, v))
                bad = True
                break
        if not bad:
            c.ri += 1
    x.cmp(c, what, at)


class Watch:
    """replaces Sess.call: snapshots before and after, and repeats the call"""

    def __init__(self, x, at, repeat=True):
        self.x, self.at, self.repeat = x, at, repeat
        self.orig = x.S.call
        self.busy = False
        x.S.call = self.call

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def name(self, f):
        return f.fn.qual if isinstance(f, Bound) and isinstance(f.fn, FuncV) else f.qual if isinstance(f, FuncV) else f.name if isinstance(f, ClassV) else str(f)

    def call(self, f, *a, **k):
        x = self.x
        if self.busy:
            return self.orig(f, *a, **k)
        if isinstance(f, str):
            f = x.S.get(f)
        nm = self.name(f)
        last = nm.split('.')[-1]
        vals = [('argument %d' % i, v) for i, v in enumerate(a)] + [('argument ' + n, v) for n, v in sorted(k.items())]
        if isinstance(f, Bound) and isinstance(f.fn, FuncV) and last not in INPLACE:
            vals.append(('self', f.self))
        before = snap(x, vals)
        o = self.orig(f, *a, **k)
        if o.exc is not None or isinstance(o.v, Unknown):
            return o
        differ(x, nm + ' leaves its arguments alone', before, snap(x, vals), self.at)
        for kind, kw in o.events:
            if kind == 'requires_grad_' and kw['guard'] is not T.FALSE and any(x.I.resolve(v) is kw['tensor'] for _, v in vals):
                x.holds(False, nm + ' marks an argument', 'an argument is marked to require gradients', self.at)
        if self.repeat and not isinstance(f, ClassV) and last not in VOLATILE and last not in INPLACE:
            first = snap(x, [('result', o.v)])
            o2 = self.orig(f, *a, **k)
            if o2.exc is not None:
                x.holds(False, nm + ' again', 'the second call with the same arguments raises %s' % o2.exc.exc, self.at)
            elif isinstance(o2.v, Unknown):
                raise Undecided(o2.v.reason)
            else:
                differ(x, nm + ' again', first, snap(x, [('result', o2.v)]), self.at)
                differ(x, nm + ' leaves its earlier result alone', first, snap(x, [('result', o.v)]), self.at)
                differ(x, nm + ' leaves its arguments alone when called again', before, snap(x, vals), self.at)
        return o


def op(x, f, lead, at, repeat=True):
    Watch(x, at, repeat)
    f(x, lead)


def inputs(x, key, form, what):
    """joint values in every form"""
    S = x.S
    at = 'chain.py:Chain.ensure_tensor'
    if what == 'fk':
        r = Robot(S, key)
        v, q, B = joint_input(x, form, names_(r))
        Watch(x, 'chain.py:Chain.forward_kinematics')
        x.val(S.m(r.chain, 'forward_kinematics', v), 'forward_kinematics')
    elif what == 'clamp':
        lim = {n.name: (S.f('lo!' + n.name), S.f('hi!' + n.name)) for n in ALL[key].joints()}
        r = Robot(S, key, limits=lim)
        v, q, B = joint_input(x, form, names_(r))
        Watch(x, 'chain.py:Chain.clamp')
        x.val(S.m(r.chain, 'clamp', v), 'clamp')
    elif what == 'ensure':
        r = Robot(S, key)
        v, q, B = joint_input(x, form, names_(r))
        Watch(x, at)
        x.val(S.m(r.chain, 'ensure_tensor', v), 'ensure_tensor')
    else:
        r = Robot(S, key)
        end = {'arm': 'ee', 'rr': 'l2', 'tree': 'b111'}[key]
        c = r.serial(end).val()
        v, q, B = joint_input(x, form, names_of(x, c))
        Watch(x, 'chain.py:SerialChain.' + what)
        x.val(S.m(c, what, v), what)


def queries(x, key):
    """queries of a model"""
    S = x.S
    r = Robot(S, key, limits={n.name: (S.f('lo!' + n.name), S.f('hi!' + n.name)) for n in ALL[key].joints()})
    Watch(x, 'chain.py:Chain')
    nm = [n.name for n in r.spec.nodes]
    for m, a in (('get_joints', ()), ('get_joint_parameter_names', ()), ('get_joint_parent_frame_names', ()), ('get_frame_names', ()), ('get_links', ()), ('get_link_names', ()), ('get_joint_limits', ()),
                 ('find_frame', (nm[-1],)), ('find_link', (nm[-1] + '_link',)), ('find_joint', (r.spec.nodes[-1].jname,)), ('get_frame_indices', tuple(nm)), ('get_all_frame_indices', ())):
        try:
            o = S.m(r.chain, m, *a)
        except Anchor:
            continue
        x.val(o, m)
    for n in (nm[0], nm[-1]):
        x.val(r.serial(n), 'SerialChain') if n != nm[0] else None


def rest(x, which):
    """other ways of passing values"""
    S = x.S
    Watch(x, 'transforms/transform3d.py:Transform3d')
    if which == 'tflist':
        x.val(S.call(TF + ':Transform3d', pos=S.lst([S.f('a'), S.f('b'), S.f('c')]), rot=S.lst([S.f('uq!w'), S.f('u'), S.f('v'), S.f('w')])), 'Transform3d')
    elif which == 'tfnp':
        x.val(S.call(TF + ':Transform3d', pos=S.t('p', (3,), F64, kind='numpy'), rot=S.t('e', (3,), F64, kind='numpy')), 'Transform3d')
    elif which == 'tfmat':
        m = S.t('rigid!M', ('B', 4, 4))
        t = x.val(S.call(TF + ':Transform3d', matrix=m), 'Transform3d')
        m2 = S.t('rigid!N', (4, 4))
        t2 = x.val(S.call(TF + ':Transform3d', matrix=m2), 'Transform3d')
        p, rr, q = S.t('t', (1, 3)), S.t('rot!R', (3, 3)), S.t('p', (5, 3))
        c = x.val(S.m(t, 'compose', t2), 'compose')
        for obj in (t, t2, c):
            for meth, a in (('translate', (p,)), ('rotate', (rr,)), ('rotate_axis_angle', (S.f('an'), 'X')), ('translate', (S.f('a'), S.f('b'), S.f('c'))), ('inverse', ()), ('transform_points', (q,)),
                            ('transform_normals', (q,)), ('get_matrix', ()), ('clone', ()), ('stack', (t, t2)), ('__getitem__', (0,)), ('compose', (t2, t2)), ('__len__', ())):
                x.val(S.m(obj, meth, *a), meth)
        x.val(S.m(c, 'inverse', invert_composed=True), 'inverse')
    elif which == 'tfto':
        t = x.val(S.call(TF + ':Transform3d', matrix=S.t('rigid!M', ('B', 4, 4))), 'Transform3d')
        u = x.val(S.m(t, 'compose', x.val(S.call(TF + ':Transform3d', matrix=S.t('rigid!N', (4, 4))), 'Transform3d')), 'compose')
        for obj in (t, u):
            before = snap(x, [('the transform', obj)])
            for kw in (dict(dtype=F64), dict(device=GPU), dict(dtype=F64, device=GPU), dict(copy=True), dict(dtype=F32)):
                x.val(S.m(obj, 'to', **kw), 'to')
                differ(x, 'to leaves the transform alone', before, snap(x, [('the transform', obj)]), 'transforms/transform3d.py:Transform3d.to')
    elif which in ('Translate', 'Scale', 'Rotate', 'RotateAxisAngle'):
        for dt in (F32, F64):
            a = {'Translate': (S.t('t', ('B', 3), dt),), 'Scale': (S.t('pos!s', ('B', 3), dt),), 'Rotate': (S.t('rot!R', ('B', 3, 3), dt),), 'RotateAxisAngle': (S.t('ang', ('B',), dt), 'X')}[which]
            x.val(S.call(tf(S, which), *a), which)
            x.val(S.call(tf(S, which), *a, dtype=F64), which)
            if which in ('Translate', 'Scale'):
                x.val(S.call(tf(S, which), S.t('a', ('B',), dt), S.t('b', ('B',), dt), S.f('c')), which)
    elif which == 'euler':
        for form in ('t', 'np', 'B'):
            v = S.t('e', (3,) if form != 'B' else ('B', 3), F32 if form == 't' else F64, kind='numpy' if form == 'np' else 'torch')
            for ax in ('sxyz', 'rzyx', 'sxyx', 'rxzy'):
                if form != 'np':
                    x.val(S.call(tf(S, 'quaternion_from_euler'), v, ax), 'quaternion_from_euler')
    elif which == 'slerp':
        a, b = S.t('uq!a', (4,)), S.t('uq!b', (4,))
        x.val(S.call(tf(S, 'quaternion_slerp'), a, b, S.f('t')), 'quaternion_slerp')
        x.val(S.call(tf(S, 'quaternion_slerp'), a, a, S.f('t')), 'quaternion_slerp')
        x.val(S.call(tf(S, 'quaternion_close'), a, b), 'quaternion_close')
    elif which == 'perturb':
        t = x.val(S.call(TF + ':Transform3d', matrix=S.t('rigid!M', (1, 4, 4))), 'Transform3d')
        x.val(S.m(t, 'sample_perturbations', 4, S.f('rs'), S.f('ts')), 'sample_perturbations')


def ik(x, key, end, root, cls, iters, kinds, opts, init='BR'):
    """a solver with limits; the goal, the initial configurations and the chain stay as they are"""
    S = x.S
    p = Problem(x, key, end, root, kinds, R=2, init=init)
    w = Watch(x, 'ik.py:PseudoInverseIK.solve', repeat=iters < 2)
    o = dict(opts)
    if o.pop('ls', None):
        o['line_search'] = x.val(w.orig(PK + '.ik:BacktrackingLineSearch', max_iterations=2), 'line search')
    s = p.solver(cls, max_iterations=iters, **common(x, **o))
    p.solve(s)


def history(x, key, end, root, what, B='B'):
    """the same arguments give the same result whatever was computed in between"""
    S = x.S
    r = Robot(S, key)
    c = r.serial(end, root).val() if what != 'chain' else r.chain
    n = len(names_of(x, c)) if what != 'chain' else len(r.spec.joints())
    a, b = S.t('th', (B, n)), S.t('th2', (B, n))
    g = S.t('th3', (B, n), rg=True)
    tp = S.t('tp', (3,))
    at = 'chain.py:%s' % ('Chain.forward_kinematics' if what == 'chain' else 'SerialChain')
    Tr = lambda o: S.m(o, 'get_matrix')

    def run(v):
        out = []
        if what == 'chain':
            d = poses(x, S.m(c, 'forward_kinematics', v), 'fk')
            out += [('frame ' + k, x.val(Tr(d[k]), 'm')) for k in sorted(d)]
            out.append(('tensor', x.val(S.m(c, 'forward_kinematics_tensor', v), 'fkt')))
        else:
            out.append(('end', x.val(Tr(x.val(S.m(c, 'forward_kinematics', v), 'fk')), 'm')))
            out.append(('all', x.val(S.m(c, 'forward_kinematics_tensor', v), 'fkt')))
            out.append(('jac', x.val(S.m(c, 'jacobian', v), 'jacobian')))
            out.append(('jact', x.val(S.m(c, 'jacobian', v, locations=tp), 'jacobian')))
        return snap(x, out)
    first = run(a)
    run(b)
    run(g)
    differ(x, 'the same call later', first, run(a), at)
    x.I.events.clear()


def rerun(x, key, end, root, cls, B='B'):
    """a solver used for a second problem and then again for the first"""
    S = x.S
    p = Problem(x, key, end, root, R=2, B=B)
    s = p.solver(cls, max_iterations=1, **common(x, enforce_joint_limits=False, early_stopping_no_improvement=None))
    m = x.I.tensor((S.dim(B), 4, 4), lambda idx: num(int(idx[2].args[0] == 3)) if idx[1].args[0] == 3 else T.atom('rigid!goal2', *idx), F32, CPU)
    g2 = x.val(S.call(TF + ':Transform3d', matrix=m), 'Transform3d')

    def read_(sol):
        return snap(x, [(a, S.attr(sol, a)) for a in ('solutions', 'err_pos', 'err_rot', 'converged')])
    s1 = p.solve(s)
    first = read_(s1)
    x.val(S.m(s, 'solve', g2), 'solve')
    differ(x, 'the earlier solution', first, read_(s1), 'ik.py:PseudoInverseIK.solve')
    differ(x, 'the same problem again', first, read_(p.solve(s)), 'ik.py:PseudoInverseIK.solve')


def scenarios(tier):
    o = []
    for nm, fn, args, at in c10.scenarios(tier):
        f, ranks, sizes = args[0], args[2], args[3]
        if nm.startswith('ik.') or nm.startswith(('fkt.seven', 'jac.seven')):
            continue
        gen = args[6] if len(args) > 6 else ('B', 'C')
        for rk in ranks:
            o.append(('%s.%d' % (nm, rk), op, (f, gen[:rk], at), at))
        for n in (1, 3):
            if n in sizes and 1 in ranks:
                o.append(('%s.size%d' % (nm, n), op, (f, (n,), at), at))
        if None in sizes:
            o.append(('%s.one' % nm, op, (f, (), at), at))
    for what in ('fk', 'clamp', 'ensure', 'jacobian', 'forward_kinematics'):
        for form in FORMS:
            if what == 'clamp' and form in ():
                continue
            o.append(('input.%s.%s' % (what, form), inputs, ('arm', form, what), 'chain.py:Chain.ensure_tensor'))
    for key in ('tree', 'arm', 'star', 'single'):
        o.append(('queries.' + key, queries, (key,), 'chain.py:Chain'))
    for w in ('tflist', 'tfnp', 'tfmat', 'tfto', 'Translate', 'Scale', 'Rotate', 'RotateAxisAngle', 'euler', 'slerp', 'perturb'):
        o.append(('rest.' + w, rest, (w,), 'transforms/transform3d.py:Transform3d'))
    for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('pp', 'ee', '')):
        for cls in ('PseudoInverseIK', 'PseudoInverseIKWithSVD'):
            for init in ('BR', 'R'):
                o.append(('ik.%s.%s.%s' % (key, cls, init), ik, (key, e, r, cls, 1, ('both', 'narrow'), dict(), init), 'ik.py:PseudoInverseIK.solve'))
                o.append(('ikclamp.%s.%s.%s' % (key, cls, init), ik, (key, e, r, cls, 1, ('both', 'upper', 'none'), dict(clamp_to_limits=True), init), 'ik.py:PseudoInverseIK.solve'))
            o.append(('iknone.%s.%s' % (key, cls), ik, (key, e, r, cls, 0, ('none',), dict()), 'ik.py:PseudoInverseIK.solve'))
            o.append(('ik2.%s.%s' % (key, cls), ik, (key, e, r, cls, 2, ('none',), dict(early_stopping_no_improvement=None)), 'ik.py:PseudoInverseIK.solve'))
            if key == 'rr':
                o.append(('ikls.%s.%s' % (key, cls), ik, (key, e, r, cls, 1, ('none',), dict(ls=True)), 'ik.py:BacktrackingLineSearch.do_line_search'))
            for B in ('B', 1, 2):
                o.append(('rerun.%s.%s.%s' % (key, cls, B), rerun, (key, e, r, cls, B), 'ik.py:PseudoInverseIK.solve'))
    for B in ('B', 1, 2):
        for key, e, r in (('tree', '', ''), ('arm', '', ''), ('star', '', '')):
            o.append(('history.chain.%s.%s' % (key, B), history, (key, e, r, 'chain', B), 'chain.py:Chain.forward_kinematics'))
        for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a')):
            o.append(('history.serial.%s.%s.%s' % (key, e, B), history, (key, e, r, 'serial', B), 'chain.py:SerialChain'))
    return o
