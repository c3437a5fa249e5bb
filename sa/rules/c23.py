"""IKSolution.update is evaluated on a symbolic history of configurations and errors, and solve on symbolic problems with generic tolerances; the
stored errors, flags and configurations are compared with the pose error of the stored configuration, the tolerances, and the first converged entry of the history."""
from .iklib import *

FLOOR = 60
UP = 'ik.py:IKSolution.update'


def history(x, n, R, dof, keep):
    """n updates with independent configurations and errors"""
    S, I = x.S, x.I
    sol = x.val(S.call(IK + ':IKSolution', dof, Num(S.dim('B'), 'i'), R, S.f('ptol'), S.f('rtol')), 'IKSolution')
    b = rows(('B',))[0]
    for k in range(n):
        BR = T.mul(S.dim('B'), num(R))
        q = I.tensor((BR, dof), (lambda k: lambda i: T.atom('q%d' % k, *i))(k), F32, CPU)
        er = I.tensor((BR, 6), (lambda k: lambda i: T.atom('er%d' % k, *i))(k), F32, CPU)
        kw = {}
        if keep == 'off':
            kw['use_keep_mask'] = False
        elif keep == 'mask':
            kw['keep_mask'] = I.tensor((S.dim('B'),), (lambda k: lambda i: T.atom('km%d' % k, *i, sort='B'))(k), BOOL_, CPU)
        o = S.m(sol, 'update', q, er, **kw)
        if o.exc is not None or isinstance(o.v, Unknown):
            x.val(o, 'update', UP)
    sq, ep, er_ = (el(x, S.attr(sol, 'solutions'), 'B', R, dof), el(x, S.attr(sol, 'err_pos'), 'B', R), el(x, S.attr(sol, 'err_rot'), 'B', R))
    cv, cp, cr = [el(x, S.attr(sol, a), 'B', R) for a in ('converged', 'converged_pos', 'converged_rot')]
    ca, cpa, cra, rem = [el(x, S.attr(sol, a), 'B') for a in ('converged_any', 'converged_pos_any', 'converged_rot_any', 'remaining')]
    prov = dict(PROVIK)
    for k in range(n):
        prov['er%d' % k] = p_range(-1.2, 1.2)
    es = envs(I, 8 if x.tier == 'quick' else 24, prov)

    def state(e, bb, a):
        """the update whose configuration is stored: the first converged one, else the last"""
        pt, rt = e.ev(T.atom('ptol')), e.ev(T.atom('rtol'))
        row = bb * R + a
        for k in range(n):
            v = [e.ev(T.atom('er%d' % k, num(row), num(j))) for j in range(6)]
            p, r_ = math.sqrt(sum(c * c for c in v[:3])), math.sqrt(sum(c * c for c in v[3:]))
            if p < pt and r_ < rt:
                return k, p, r_, True, True, True
        return k, p, r_, p < pt, r_ < rt, False
    for a in range(R):
        for j in range(dof):
            numeric(x, 'stored configuration', [sq((b, num(a), num(j)))], lambda e: [e.ev(T.atom('q%d' % state(e, e.ev(b), a)[0], num(e.ev(b) * R + a), num(j)))], es, at=UP)
        g = (b, num(a))
        numeric(x, 'stored errors', [ep(g), er_(g)], lambda e: state(e, e.ev(b), a)[1:3], es, at=UP)
        numeric(x, 'convergence flags', [T.as_bool(t) if hasattr(T, 'as_bool') else t for t in (cp(g), cr(g), cv(g))], lambda e: state(e, e.ev(b), a)[3:], es, at=UP)
    def anyof(k):
        return lambda e: [any(state(e, e.ev(b), a)[k] for a in range(R))]
    numeric(x, 'problem solved flag', [ca((b,))], anyof(5), es, at=UP)
    numeric(x, 'problem position flag', [cpa((b,))], anyof(3), es, at=UP)
    numeric(x, 'problem rotation flag', [cra((b,))], anyof(4), es, at=UP)

    def remaining(e):
        bb = e.ev(b)
        if keep == 'off':
            return [True]
        if keep == 'mask':
            return [all(e.ev(T.atom('km%d' % k, num(bb), sort='B')) for k in range(n))]
        pt, rt = e.ev(T.atom('ptol')), e.ev(T.atom('rtol'))
        ok = True
        for k in range(n):
            for a in range(R):
                v = [e.ev(T.atom('er%d' % k, num(bb * R + a), num(j))) for j in range(6)]
                if math.sqrt(sum(c * c for c in v[:3])) < pt and math.sqrt(sum(c * c for c in v[3:])) < rt:
                    ok = False
        return [ok]
    numeric(x, 'remaining problems', [rem((b,))], remaining, es, at=UP)




def result(x, p, sol, es, at=SOLVE, errs=True):
    """what every result has to satisfy"""
    S, R, n = x.S, p.R, p.n
    b = rows(('B',))[0]
    sq, ep, er_ = (el(x, S.attr(sol, 'solutions'), 'B', R, n), el(x, S.attr(sol, 'err_pos'), 'B', R), el(x, S.attr(sol, 'err_rot'), 'B', R))
    cv, cp, cr = [el(x, S.attr(sol, a), 'B', R) for a in ('converged', 'converged_pos', 'converged_rot')]
    ca, cpa, cra = [el(x, S.attr(sol, a), 'B') for a in ('converged_any', 'converged_pos_any', 'converged_rot_any')]
    for a in range(R):
        g = (b, num(a))

        def errs_(e):
            q = [e.ev(sq(g + (num(j),))) for j in range(n)]
            d = p.err(e, e.ev(b), q)
            return [np.linalg.norm(d[:3]), np.linalg.norm(d[3:])]
        numeric(x, 'stored errors are those of the stored configuration', [ep(g), er_(g)], errs_, es, at=at, tol=1e-4)
        numeric(x, 'flags compare the stored errors with the tolerances', [cp(g), cr(g), cv(g)],
                lambda e: [e.ev(ep(g)) < e.ev(T.atom('ptol')), e.ev(er_(g)) < e.ev(T.atom('rtol')), e.ev(ep(g)) < e.ev(T.atom('ptol')) and e.ev(er_(g)) < e.ev(T.atom('rtol'))], es, at=at)
    for nm, f, one in (('converged_any', ca, cv), ('converged_pos_any', cpa, cp), ('converged_rot_any', cra, cr)):
        numeric(x, nm, [f((b,))], lambda e: [any(e.ev(one((b, num(a)))) for a in range(R))], es, at=at)
    return sq, ep, er_, cv


def common(x, **kw):
    S = x.S
    d = dict(pos_tolerance=S.f('ptol'), rot_tolerance=S.f('rtol'), lm_damping=0.1)
    d.update(kw)
    return d


def solve(x, key, end, root, cls, iters, pattern, opts, R=2):
    p = Problem(x, key, end, root, pattern, R=R)
    ik = p.solver(cls, max_iterations=iters, **common(x, **opts))
    sol = p.solve(ik)
    es = envs(x.I, 5 if x.tier == 'quick' else 12, PROVIK)
    result(x, p, sol, es)


def sticky(x, key, end, root, cls, i1, i2, opts):
    """the same problem with more iterations"""
    p = Problem(x, key, end, root)
    sols = []
    for it in (i1, i2):
        ik = p.solver(cls, max_iterations=it, enforce_joint_limits=False, early_stopping_no_improvement=None, **common(x, **opts))
        sols.append(p.solve(ik))
    es = envs(x.I, 8 if x.tier == 'quick' else 20, PROVIK)
    S, R, n = x.S, p.R, p.n
    b = rows(('B',))[0]
    A, B_ = [(el(x, S.attr(s, 'solutions'), 'B', R, n), el(x, S.attr(s, 'err_pos'), 'B', R), el(x, S.attr(s, 'err_rot'), 'B', R), el(x, S.attr(s, 'converged'), 'B', R)) for s in sols]
    for a in range(R):
        g = (b, num(a))
        numeric(x, 'a converged attempt keeps its configuration', [B_[0](g + (num(j),)) for j in range(n)],
                lambda e: [e.ev(A[0](g + (num(j),))) if e.ev(A[3](g)) else math.nan for j in range(n)], es, at=SOLVE)
        numeric(x, 'a converged attempt keeps its errors', [B_[1](g), B_[2](g)], lambda e: [e.ev(A[1](g)) if e.ev(A[3](g)) else math.nan, e.ev(A[2](g)) if e.ev(A[3](g)) else math.nan], es, at=SOLVE)
        numeric(x, 'a converged attempt stays converged', [B_[3](g)], lambda e: [True if e.ev(A[3](g)) else math.nan], es, at=SOLVE)


from ..torchlib import BOOL as BOOL_      # noqa


def scenarios(tier):
    o = []
    for n in (1, 2, 3):
        for R in (1, 2, 3):
            for keep in ('on', 'off', 'mask'):
                o.append(('history.%d.%d.%s' % (n, R, keep), history, (n, R, 2, keep), UP))
    for cls in ('PseudoInverseIK', 'PseudoInverseIKWithSVD'):
        for key, e, r in (('rr', 'l2', ''), ('arm', 'ee', '')):
            for it in (0, 1, 2, 3):
                o.append(('solve.%s.%s.%d' % (cls, key, it), solve, (key, e, r, cls, it, None, dict(enforce_joint_limits=False)), SOLVE))
            for it in (0, 1):
                o.append(('enforced.%s.%s.%d' % (cls, key, it), solve, (key, e, r, cls, it, 0, dict(num_limit_refinement_iterations=1)), SOLVE))
                o.append(('weighted.%s.%s.%d' % (cls, key, it), solve, (key, e, r, cls, it, None, dict(position_weight=0.5, orientation_weight=2.0)), SOLVE))
            o.append(('sticky.%s.%s' % (cls, key), sticky, (key, e, r, cls, 1, 3, {}), SOLVE))
        o.append(('any.%s' % cls, solve, ('rr', 'l2', '', cls, 2, None, dict(early_stopping_any_converged=True)), SOLVE))
        o.append(('single.%s' % cls, solve, ('rr', 'l2', '', cls, 2, None, {}, 1), SOLVE))
        o.append(('clamped.%s' % cls, solve, ('rr', 'l2', '', cls, 2, 0, dict(clamp_to_limits=True, num_limit_refinement_iterations=1)), SOLVE))
    return o
