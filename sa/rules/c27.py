"""The tensor kernels and everything reachable from them are followed with symbolic inputs: forward kinematics on tensors, the tensor Jacobian, and every function the
inverse kinematics solvers hand to torch.compile.  On no path may the program read a tensor's value as a Python value (item, tolist, bool, int, float, numpy, an index
or slice bound, boolean mask selection, nonzero), branch on a tensor, copy to the host, print, warn, or construct one of the package's objects."""
from .iklib import *
from .c23 import common

FLOOR = 60
FKT, JT = 'chain.py:Chain.forward_kinematics_tensor', 'chain.py:SerialChain.jacobian_tensor'
BREAK = {'item': 'reads a tensor value as a Python value', 'data_branch': 'branches on the value of a tensor', 'to_host': 'copies a tensor to the host', 'print': 'prints', 'warn': 'warns',
         'construct': 'constructs an object', 'global_state': 'changes global state', 'compile': 'compiles another function'}
PLAIN = ('NamedTuple', 'Enum', 'IntEnum')


def breaks(x, ev, inside=None):
    """graph breaking constructs among events (those inside one of the named functions)"""
    out = []
    for kind, kw in ev:
        if kind not in BREAK or kw['guard'] is T.FALSE:
            continue
        path = kw['path']
        if inside is not None and not any(p in inside for p in path):
            continue
        if kind == 'construct':
            c = kw['cls']
            if any(isinstance(b, Ext) and b.name.split('.')[-1] in PLAIN for k in c.mro() for b in k.bases) or c.name.endswith('Function'):
                continue
            if c.lookup('__init__') is None:
                continue
        node = kw.get('node')
        out.append((kind, path[-1] if path else '?', getattr(node, 'lineno', None), kw.get('what') or (kw['cls'].name if kind == 'construct' else '')))
    return out


def check(x, name, n0, at, inside=None):
    b = breaks(x, x.I.events[n0:], inside)
    seen = set()
    for kind, fn, line, what in b:
        if (kind, fn, line) in seen:
            continue
        seen.add((kind, fn, line))
        x.holds(False, '%s %s in %s' % (name, kind, fn), '%s: %s %s%s on a path from %s' % (fn, BREAK[kind], '(%s) ' % what if what else '', 'at line %s' % line if line else '', name), at=at)
    if not b:
        x.holds(True, name, '', at=at)


def ok(x, o, what):
    v = x.val(o, what)
    for t in (v if isinstance(v, tuple) else (v,)):
        t = x.I.resolve(t)
        if not isinstance(t, Tensor):
            raise Undecided('%s: not a tensor' % what)
    return v


def fk(x, key, B, dtype, device, rg, analytical):
    S = x.S
    r = Robot(S, key, dtype, device)
    n = len(r.spec.joints())
    th = S.t('th', (B, n), dtype, device, rg=rg)
    n0 = len(x.I.events)
    if analytical is None:
        ok(x, S.m(r.chain, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
    else:
        ok(x, S.m(r.chain, 'forward_kinematics_tensor', th, analytical_grad=bool(analytical)), 'forward_kinematics_tensor')
    check(x, 'forward_kinematics_tensor', n0, FKT)


def jac(x, key, end, root, B, dtype, device, rg, pose, given):
    S = x.S
    r = Robot(S, key, dtype, device)
    c = r.serial(end, root).val()
    n = len(names_of(x, c))
    th = S.t('th', (B, n), dtype, device, rg=rg)
    n0 = len(x.I.events)
    kw = dict(ret_eef_pose=True) if pose else {}
    if given:
        kw['all_transforms'] = ok(x, S.m(c, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
    ok(x, S.m(c, 'jacobian_tensor', th, **kw), 'jacobian_tensor')
    check(x, 'jacobian_tensor', n0, JT)


def serial_fk(x, key, end, root, B, rg):
    S = x.S
    r = Robot(S, key)
    c = r.serial(end, root).val()
    th = S.t('th', (B, len(names_of(x, c))), rg=rg)
    n0 = len(x.I.events)
    ok(x, S.m(c, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
    check(x, 'forward_kinematics_tensor', n0, FKT)


def target(x, v):
    """names of the functions a value handed to torch.compile runs"""
    v = x.I.resolve(v)
    if isinstance(v, Bound):
        v = v.fn
    if isinstance(v, FuncV):
        return v.qual
    raise Undecided('torch.compile of %s' % type(v).__name__)


def step(x, key, end, root, cls, kw, dtype=F32, device=CPU, R=2, B='B'):
    """the solver runs with compilation requested; nothing reachable from what it compiles breaks the graph"""
    S, I = x.S, x.I
    p = Problem(x, key, end, root, R=R, dtype=dtype, device=device, B=B)
    k = dict(enforce_joint_limits=False, early_stopping_no_improvement=None, use_compile=True, max_iterations=1)
    for a in ('weights', 'damp'):
        if a in kw:
            k.update(dict(position_weight=S.f('wp'), orientation_weight=S.f('wr')) if a == 'weights' else dict(lm_damping=S.f('mu'), regularlization=S.f('lam')))
    if 'nodamp' in kw:
        k['lm_damping'] = 0.0
    ik = p.solver(cls, **common(x, **k))
    n0 = len(I.events)
    p.solve(ik)
    quals = set()
    for kind, e in I.events:
        if kind == 'compile' and e.get('target') is not None:
            quals.add(target(x, e['target']))
    x.holds(bool(quals), 'compiled functions', 'the solver compiles nothing although use_compile=True', at='ik.py:PseudoInverseIK.__init__')
    for q in sorted(quals):
        check(x, q, n0, 'ik.py:PseudoInverseIK.__init__', {q})


def scenarios(tier):
    o = []
    for key in ALL:
        for rg in (False, True):
            for an in (None, 1, 0):
                for B in ('B', 1) if tier == 'quick' else ('B', 1, 2, 3):
                    o.append(('fk.%s.%d.%s.%s' % (key, rg, an, B), fk, (key, B, F32, CPU, rg, an), FKT))
        for dt in (F32, F64):
            o.append(('fkgpu.%s.%s' % (key, dt.name), fk, (key, 'B', dt, GPU, False, None), FKT))
            o.append(('fkgpurg.%s.%s' % (key, dt.name), fk, (key, 'B', dt, GPU, True, None), FKT))
    for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('pp', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('star', 'b1', ''), ('seven', 'ee', ''), ('fixed', 'l2', ''), ('rootmove', 'l2', '')):
        for rg in (False, True):
            for pose in (0, 1):
                for given in (0, 1):
                    o.append(('jac.%s.%s.%d%d%d' % (key, e, rg, pose, given), jac, (key, e, r, 'B', F32, CPU, rg, pose, given), JT))
            o.append(('jacgpu.%s.%s.%d' % (key, e, rg), jac, (key, e, r, 'B', F64, GPU, rg, 1, 0), JT))
            o.append(('jac1.%s.%s.%d' % (key, e, rg), jac, (key, e, r, 1, F32, CPU, rg, 1, 0), JT))
            o.append(('serialfk.%s.%s.%d' % (key, e, rg), serial_fk, (key, e, r, 'B', rg), FKT))
    for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('pp', 'ee', ''), ('tree', 'b111', ''), ('seven', 'ee', '')):
        for cls in ('PseudoInverseIK', 'PseudoInverseIKWithSVD'):
            for kw in ((), ('weights',), ('damp',), ('weights', 'damp'), ('nodamp',), ('nodamp', 'weights')):
                o.append(('step.%s.%s.%s' % (key, cls, '-'.join(kw)), step, (key, e, r, cls, kw), 'ik.py:' + cls))
            o.append(('stepgpu.%s.%s' % (key, cls), step, (key, e, r, cls, ('weights',), F64, GPU), 'ik.py:' + cls))
            o.append(('step1.%s.%s' % (key, cls), step, (key, e, r, cls, ('weights',), F32, CPU, 1, 1), 'ik.py:' + cls))
    return o
