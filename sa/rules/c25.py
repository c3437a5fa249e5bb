"""solve with zero and with one iteration is evaluated on symbolic problems (geometry, configurations, goals, weights, damping); the stored errors and the
configuration after the step are compared with the pose error and with the damped least squares step computed from the spec's Jacobian."""
from .iklib import *
from .c23 import common

FLOOR = 60
AT = 'ik.py:_ik_step_kernel'
ROB = (('rr', 'l2', ''), ('arm', 'ee', ''), ('pp', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('star', 'b1', ''))


def weights(e, w):
    if not w:
        return None
    return np.array([e.ev(T.atom('wp'))] * 3 + [e.ev(T.atom('wr'))] * 3)


def step(x, key, end, root, cls, w, lam, mu, lr, R=2, init='R', dtype=F32, ls=None):
    S = x.S
    p = Problem(x, key, end, root, R=R, init=init, dtype=dtype)
    kw = dict(enforce_joint_limits=False, pos_tolerance=1e-9, rot_tolerance=1e-9, early_stopping_no_improvement=None)
    if w:
        kw.update(position_weight=S.f('wp'), orientation_weight=S.f('wr'))
    kw['regularlization'] = S.f('lam') if lam else 1e-9
    kw['lm_damping'] = S.f('mu') if mu else 0.0
    if mu == 'default':
        del kw['lm_damping']
    if lr == 'sym':
        kw['lr'] = S.f('lr')
    elif lr is not None:
        kw['lr'] = lr
    if ls is not None:
        kw['line_search'] = x.val(S.call(IK + ':BacktrackingLineSearch', max_lr=ls[0], decrease_factor=ls[1], max_iterations=ls[2], sufficient_decrease=ls[3]), 'BacktrackingLineSearch')
    ik = p.solver(cls, max_iterations=1, **kw)
    sol = p.solve(ik)
    n = 4 if x.tier == 'quick' else 12
    es = envs(x.I, n, PROVIK)
    b = rows(('B',))[0]
    sq = el(x, S.attr(sol, 'solutions'), 'B', R, p.n)

    def lr_(e):
        return e.ev(T.atom('lr')) if lr == 'sym' else 1.0 if lr is None else lr

    def after(e, a):
        q = np.array(p.start_q(e, e.ev(b), a))
        L = e.ev(T.atom('lam')) if lam else 1e-9
        m = 0.1 if mu == 'default' else e.ev(T.atom('mu')) if mu else 0.0
        if not lam and not mu and p.n < 6:
            return [math.nan] * p.n         # singular without damping: rounding decides
        dq = p.step(e, e.ev(b), list(q), L, m, weights(e, w))
        if ls is not None:
            # the first of max_lr, max_lr * factor, ... whose step brings the attempt closer by at least the wanted amount
            k, e0 = ls[0], np.linalg.norm(p.err(e, e.ev(b), list(q)))
            for _ in range(ls[2]):
                if e0 - np.linalg.norm(p.err(e, e.ev(b), list(q + k * dq))) > ls[3]:
                    break
                k *= ls[1]
            return q + k * dq
        return q + lr_(e) * dq
    for a in range(R):
        numeric(x, 'configuration after one step', [sq((b, num(a), num(j))) for j in range(p.n)], lambda e: after(e, a), es, at=AT if ls is None else 'ik.py:BacktrackingLineSearch.do_line_search', tol=2e-4)
    # the reported error is the unweighted one at the stored configuration
    ep, er = el(x, S.attr(sol, 'err_pos'), 'B', R), el(x, S.attr(sol, 'err_rot'), 'B', R)
    for a in range(R):
        def err(e):
            d = p.err(e, e.ev(b), [e.ev(sq((b, num(a), num(j)))) for j in range(p.n)])
            return [np.linalg.norm(d[:3]), np.linalg.norm(d[3:])]
        numeric(x, 'reported error', [ep((b, num(a))), er((b, num(a)))], err, es, at=AT, tol=1e-4)


def error(x, key, end, root, cls, w, R=2, init='R'):
    """the pose error at the initial configuration"""
    S = x.S
    p = Problem(x, key, end, root, R=R, init=init)
    kw = dict(position_weight=S.f('wp'), orientation_weight=S.f('wr')) if w else {}
    ik = p.solver(cls, max_iterations=0, enforce_joint_limits=False, **common(x, **kw))
    sol = p.solve(ik)
    es = envs(x.I, 5 if x.tier == 'quick' else 15, PROVIK)
    b = rows(('B',))[0]
    ep, er = el(x, S.attr(sol, 'err_pos'), 'B', R), el(x, S.attr(sol, 'err_rot'), 'B', R)
    for a in range(R):
        def err(e):
            d = p.err(e, e.ev(b), p.start_q(e, e.ev(b), a))
            return [np.linalg.norm(d[:3]), np.linalg.norm(d[3:])]
        numeric(x, 'pose error', [ep((b, num(a))), er((b, num(a)))], err, es, at='ik.py:delta_pose', tol=1e-5)


def delta(x, N, M):
    """delta_pose on generic poses"""
    S, I = x.S, x.I
    m = S.t('rigid!m', (N, M, 4, 4))
    o = S.call(IK + ':delta_pose', m, S.t('tp', (N, 3)), S.t('uq!t', (N, 4)))
    v = x.val(o, 'delta_pose')
    if not isinstance(v, tuple) or len(v) != 3:
        raise ScenarioBad('result', 'delta_pose does not return (dx, pos_diff, rot_diff)')
    t = I.resolve(v[0])
    if not isinstance(t, Tensor):
        raise Undecided('delta_pose')
    n = T.mul(S.dim(N), num(M)) if isinstance(N, str) else N * M
    shape_ok(x, t, (n, 6, 1), 'pose error')
    es = envs(I, 5 if x.tier == 'quick' else 15)
    r, rp, rr = I.reader(t), tensor_el(x, v[1]), tensor_el(x, v[2])
    row = rows(('B',))[0] if isinstance(N, str) else None
    todo = [(row, k) for k in range(M)] if row is not None else [(num(i), k) for i in range(N) for k in range(M)]
    for b, k in todo:
        i = T.add(T.mul(b, num(M)), num(k))

        def want(e):
            bb = e.ev(b)
            P = np.array([[e.ev(T.atom('rigid!m', num(bb), num(k), num(i_), num(j))) for j in range(4)] for i_ in range(3)])
            tp = np.array([e.ev(T.atom('tp', num(bb), num(j))) for j in range(3)])
            Rt = np.array(qmat_num([e.ev(T.atom('uq!t', num(bb), num(j))) for j in range(4)]))
            return np.concatenate([tp - P[:, 3], rotvec(Rt @ P[:, :3].T)])
        numeric(x, 'pose error', [r((i, num(j), num(0))) for j in range(6)], want, es, at='ik.py:delta_pose', tol=1e-5)
        numeric(x, 'position part', [rp((i, num(j), num(0))) for j in range(3)], lambda e: want(e)[:3], es, at='ik.py:delta_pose', tol=1e-5)
        numeric(x, 'rotation part', [rr((i, num(j), num(0))) for j in range(3)], lambda e: want(e)[3:], es, at='ik.py:delta_pose', tol=1e-5)


def scenarios(tier):
    o = []
    CL = ('PseudoInverseIK', 'PseudoInverseIKWithSVD')
    for key, e, r in ROB:
        for cls in CL:
            for w in (0, 1):
                for lam, mu, lr in ((1, 1, None), (1, 0, 'sym'), (0, 'default', 0.5), (1, 'default', 2)):
                    o.append(('step.%s.%s.%s.%d%d%s.%s' % (cls, key, e, w, lam, mu, lr), step, (key, e, r, cls, w, lam, mu, lr), AT))
            o.append(('step.%s.%s.%s.BR' % (cls, key, e), step, (key, e, r, cls, 1, 1, 1, None, 3, 'BR'), AT))
            o.append(('step64.%s.%s.%s' % (cls, key, e), step, (key, e, r, cls, 1, 1, 1, 'sym', 2, 'R', F64), AT))
            o.append(('error.%s.%s.%s' % (cls, key, e), error, (key, e, r, cls, 0, 3, 'BR'), 'ik.py:delta_pose'))
            o.append(('errorw.%s.%s.%s' % (cls, key, e), error, (key, e, r, cls, 1), 'ik.py:delta_pose'))
    for cls in CL:
        o.append(('seven.%s' % cls, step, ('seven', 'ee', '', cls, 1, 1, 1, None), AT))
        o.append(('six.%s' % cls, step, ('six', 'l6', '', cls, 0, 1, 'default', None), AT))
        for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', ''), ('tree', 'a21', 'a')):
            for k, (R, init, ls) in enumerate(((2, 'R', (1.0, .5, 2, .01)), (2, 'BR', (4.0, .3, 3, .05)), (1, 'R', (8.0, .5, 2, .01)), (3, 'R', (3.0, .7, 1, .2)))):
                o.append(('search.%s.%s.%s.%d' % (cls, key, e, k), step, (key, e, r, cls, k % 2, 1, 'default', None, R, init, F32, ls), 'ik.py:BacktrackingLineSearch.do_line_search'))
    for N in ('B', 1, 2):
        for M in (1, 2, 3):
            o.append(('delta.%s.%d' % (N, M), delta, (N, M), 'ik.py:delta_pose'))
    return o
