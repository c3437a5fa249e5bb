"""solve is evaluated for chains with every kind of limit (two-sided, one-sided, infinite, absent, narrow, wide, away from zero) and generic
configurations; the returned configurations are compared with the limits and with the initial configuration moved by whole turns."""
from .iklib import *
from .c23 import result, common

FLOOR = 100
AT = 'ik.py:PseudoInverseIK._enforce_limits'


def far(e, name, idx):
    """within a few turns, sometimes many turns away"""
    v = e.h(name, idx) * 2 - 1
    return v * (80.0 if e.h(name, idx, 'far') > .75 else 14.0)


WIDE = {'q0': far}
KINDS = [('both',), ('narrow', 'both'), ('wide', 'off'), ('none', 'both'), ('upper', 'both'), ('lower', 'upper'), ('inf', 'both', 'none'), ('point', 'wide'), ('off', 'narrow'), ('pi', 'both'), ('both', 'lower', 'upper')]


def prov(wide=True):
    p = dict(PROVIK)
    if wide:
        p.update(WIDE)
    return p


def inside(x, p, sol, es, what, when=None, at=AT):
    """every stored configuration within the limits (and finite)"""
    b = rows(('B',))[0]
    sq = el(x, x.S.attr(sol, 'solutions'), 'B', p.R, p.n)
    for a in range(p.R):
        for j in range(p.n):
            c = Cmp()
            for e in es:
                c.n += 1
                try:
                    if when is not None and not when(e, e.ev(b), a):
                        continue
                    v = e.ev(sq((b, num(a), num(j))))
                except T.Undefined as u:
                    c.unknown.append('%s: %s' % (what, u))
                    continue
                c.points += 1
                lo, hi = p.limits(e)
                if math.isfinite(v) and lo[j] - 1e-6 <= v <= hi[j] + 1e-6:
                    c.ri += 1
                else:
                    c.bad.append(Mismatch('%s: joint %s (%s)' % (what, p.names[j], p.nodes[j].jt), (), v, 'a finite value in [%.4g, %.4g]' % (lo[j], hi[j]), e))
            x.cmp(c, what, at)


def brought(x, key, end, root, kinds, R=2, init='R', dtype=F32, device=CPU):
    """no iterations: the initial configuration, moved by whole turns (revolute) and clamped"""
    p = Problem(x, key, end, root, kinds, R=R, init=init, dtype=dtype, device=device)
    ik = p.solver(max_iterations=0, num_limit_refinement_iterations=0, **common(x))
    sol = p.solve(ik)
    es = envs(x.I, 12 if x.tier == 'quick' else 40, prov())
    b = rows(('B',))[0]
    sq = el(x, x.S.attr(sol, 'solutions'), 'B', p.R, p.n)
    anyfinite = any(k != 'none' and k != 'inf' for k in kinds)
    for a in range(p.R):
        for j in range(p.n):
            g = sq((b, num(a), num(j)))
            c = Cmp()
            for e in es:
                c.n += 1
                q = p.start_q(e, e.ev(b), a)[j]
                lo, hi = p.limits(e)
                lo, hi = lo[j], hi[j]
                try:
                    v = e.ev(g)
                except T.Undefined as u:
                    c.unknown.append(str(u))
                    continue
                c.points += 1
                turns = (v - q) / TWO_PI
                near = lambda x_, y: abs(x_ - y) <= 1e-6 * (1 + abs(y))
                if not math.isfinite(v) or v < lo - 1e-6 or v > hi + 1e-6:
                    ok, want = False, 'a finite value in [%.6g, %.6g]' % (lo, hi)
                elif p.nodes[j].jt == 'prismatic':
                    w = min(max(q, lo), hi)
                    ok, want = near(v, w), '%.9g clamped to [%.6g, %.6g]' % (q, lo, hi)
                else:
                    k0 = math.ceil((lo - q) / TWO_PI) if math.isfinite(lo) else -10 ** 9
                    k1 = math.floor((hi - q) / TWO_PI) if math.isfinite(hi) else 10 ** 9
                    if not math.isfinite(lo) or not math.isfinite(hi):
                        # one-sided or absent: kept when inside, by whole turns or at the limit otherwise
                        ok = near(turns, round(turns)) or near(v, lo) or near(v, hi)
                        if lo <= q <= hi:
                            ok = near(turns, round(turns))
                        want = '%.9g moved by whole turns into [%.6g, %.6g]' % (q, lo, hi)
                    elif k0 <= k1:
                        ok, want = abs(turns - round(turns)) < 1e-6, '%.9g moved by whole turns into [%.6g, %.6g]' % (q, lo, hi)
                    else:
                        ok, want = near(v, lo) or near(v, hi), 'one of the limits %.6g, %.6g (no whole turn reaches the range)' % (lo, hi)
                if ok:
                    c.ri += 1
                else:
                    c.bad.append(Mismatch('enforced %s joint %s' % (p.nodes[j].jt, p.names[j]), (), v, want, e))
            x.cmp(c, 'enforced configuration', AT)


def enforced(x, key, end, root, kinds, cls, iters, refine, opts):
    p = Problem(x, key, end, root, kinds)
    ik = p.solver(cls, max_iterations=iters, num_limit_refinement_iterations=refine, **common(x, **opts))
    sol = p.solve(ik)
    es = envs(x.I, 5 if x.tier == 'quick' else 12, prov(iters < 1))
    inside(x, p, sol, es, 'returned configuration within the limits')
    result(x, p, sol, es, AT)


def off(x, key, end, root, kinds, iters):
    """enforcement off: nothing is wrapped or clamped"""
    p = Problem(x, key, end, root, kinds)
    ik = p.solver(max_iterations=iters, enforce_joint_limits=False, **common(x))
    sol = p.solve(ik)
    es = envs(x.I, 6, prov())
    b = rows(('B',))[0]
    sq = el(x, x.S.attr(sol, 'solutions'), 'B', p.R, p.n)
    for a in range(p.R):
        numeric(x, 'configuration left alone', [sq((b, num(a), num(j))) for j in range(p.n)], lambda e: p.start_q(e, e.ev(b), a), es, at=SOLVE)


def clamped(x, key, end, root, kinds, cls, iters, lrv):
    S = x.S
    p = Problem(x, key, end, root, kinds)
    ik = p.solver(cls, max_iterations=iters, clamp_to_limits=True, enforce_joint_limits=False, pos_tolerance=1e-9, rot_tolerance=1e-9, lr=lrv, early_stopping_no_improvement=None)
    sol = p.solve(ik)
    es = envs(x.I, 6 if x.tier == 'quick' else 20, prov())
    inside(x, p, sol, es, 'configuration after a clamped step', at=SOLVE)


def scenarios(tier):
    o = []
    robots = (('rr', 'l2', ''), ('arm', 'ee', ''), ('pp', 'ee', ''), ('tree', 'b111', ''))
    for key, e, r in robots:
        for kinds in KINDS:
            nm = '-'.join(kinds)
            o.append(('brought.%s.%s' % (key, nm), brought, (key, e, r, kinds), AT))
            o.append(('clamped.%s.%s' % (key, nm), clamped, (key, e, r, kinds, 'PseudoInverseIK', 1, 1.0), SOLVE))
    for key, e, r in robots[:2]:
        for i, kinds in enumerate(KINDS):
            nm = '-'.join(kinds)
            for cls in ('PseudoInverseIK', 'PseudoInverseIKWithSVD'):
                o.append(('enforced.%s.%s.%s.0' % (cls, key, nm), enforced, (key, e, r, kinds, cls, 0, 1, {}), AT))
                if i % 2 == 0 or tier != 'quick':
                    o.append(('enforced.%s.%s.%s.1' % (cls, key, nm), enforced, (key, e, r, kinds, cls, 1, 2, {}), AT))
                    o.append(('clamped.%s.%s.%s.2' % (cls, key, nm), clamped, (key, e, r, kinds, cls, 2, 3.0), SOLVE))
        o.append(('clampenforce.%s' % key, enforced, (key, e, r, ('both', 'narrow'), 'PseudoInverseIK', 2, 1, dict(clamp_to_limits=True)), AT))
        o.append(('offzero.%s' % key, off, (key, e, r, ('both', 'off'), 0), SOLVE))
        for init, R in (('BR', 2), ('one', 1), ('BR', 3), ('BR', 1)):
            o.append(('brought.%s.%s%d' % (key, init, R), brought, (key, e, r, ('both', 'off'), R, init), AT))
    o.append(('brought.single', brought, ('arm', 'ee', '', ('both', 'off'), 1), AT))
    return o
