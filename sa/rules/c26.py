"""solve is evaluated with symbolic goals and starts for several iteration bounds, stopping rules and start forms; iteration counts, remaining flags and final
configurations are compared with a reference run of the same stopping rules, and a second solve on a used solver with the result of a fresh one."""
from .iklib import *
from .c23 import common
from .c06 import items
from .. import torchlib as tl

FLOOR = 60
AT = SOLVE
INIT = 'ik.py:InverseKinematics.__init__'


def simulate(p, e, iters, lam, mu, lr=1.0, anyconv=False, rule=None, patience=2, tol=True, w=None):
    """reference run: (iterations, remaining, configurations, {problem: attempt: errors})"""
    N = e.dim(p.x.S.dim(p.B))
    R = p.R
    pt, rt = (e.ev(T.atom('ptol')), e.ev(T.atom('rtol'))) if tol else (1e-9, 1e-9)
    q = {(b, a): np.array(p.start_q(e, b, a)) for b in range(N) for a in range(R)}
    stored, done = {}, {k: False for k in q}
    remaining = [True] * N
    cnt = errmin = None
    its = 0

    def update():
        conv = {}
        norm = {}
        for k in q:
            d = p.err(e, k[0], list(q[k]))
            norm[k] = np.linalg.norm(d)
            conv[k] = bool(np.linalg.norm(d[:3]) < pt and np.linalg.norm(d[3:]) < rt)
            if not done[k]:
                stored[k] = q[k]
                done[k] = conv[k]
        if anyconv:
            for b in range(N):
                if any(conv[b, a] for a in range(R)):
                    remaining[b] = False
        return norm
    for i in range(iters):
        if not any(remaining):
            break
        its += 1
        norm = update()
        if rule is not None:
            if cnt is None:
                cnt = {k: 0 for k in q}
                errmin = dict(norm)
            else:
                for k in q:
                    if norm[k] < errmin[k]:
                        errmin[k], cnt[k] = norm[k], 0
                    else:
                        cnt[k] += 1
                for b in range(N):
                    could = [cnt[b, a] <= patience for a in range(R)]
                    keep = all(could) if rule == 'all' else any(could) if rule == 'any' else sum(could) / R > rule
                    remaining[b] = remaining[b] and keep
        for k in q:
            q[k] = q[k] + lr * p.step(e, k[0], list(q[k]), lam, mu, w)
    update()
    return its, remaining, stored


def nterm_(x, v):
    v = x.I.resolve(v)
    if isinstance(v, Unknown):
        raise Undecided(v.reason)
    return nterm(v)


def run(x, key, end, root, cls, iters, R, init, opts, sim, scale=1.0, at=AT):
    S = x.S
    p = Problem(x, key, end, root, R=R, init=init)
    kw = dict(enforce_joint_limits=False, max_iterations=iters, lm_damping=S.f('mu'), regularlization=S.f('lam'), lr=1.0)
    if sim.get('tol', True):
        kw.update(pos_tolerance=S.f('ptol'), rot_tolerance=S.f('rtol'))
    else:
        kw.update(pos_tolerance=1e-9, rot_tolerance=1e-9)
    kw.update(opts)
    ik = p.solver(cls, **kw)
    sol = p.solve(ik)
    prov = dict(PROVIK)
    if scale != 1.0:
        prov['lr'] = p_range(1.8, 2.6)
        prov['mu'] = p_range(0.0, 0.02)
    es = envs(x.I, 6 if x.tier == 'quick' else 16, prov)
    b = rows(('B',))[0]
    sq = el(x, S.attr(sol, 'solutions'), 'B', R, p.n)
    rem = el(x, S.attr(sol, 'remaining'), 'B')
    its = nterm_(x, S.attr(sol, 'iterations'))
    memo = {}

    def ref(e):
        r = memo.get(id(e))
        if r is None:
            kw_ = dict(sim)
            if kw_.get('lr') == 'sym':
                kw_['lr'] = e.ev(T.atom('lr'))
            r = memo[id(e)] = simulate(p, e, iters, e.ev(T.atom('lam')), e.ev(T.atom('mu')), **kw_)
        return r
    numeric(x, 'number of iterations', [its], lambda e: [ref(e)[0]], es, at=at)
    numeric(x, 'remaining problems', [rem((b,))], lambda e: [ref(e)[1][e.ev(b)]], es, at=at)
    for a in range(R):
        numeric(x, 'configuration of the attempt', [sq((b, num(a), num(j))) for j in range(p.n)], lambda e: ref(e)[2][e.ev(b), a], es, at=at, tol=1e-3)


def start(x, key, end, root, init, R, iters=0):
    """no iterations: the given configurations"""
    S = x.S
    p = Problem(x, key, end, root, R=R, init=init)
    ik = p.solver(max_iterations=0, enforce_joint_limits=False, **common(x))
    sol = p.solve(ik)
    b = rows(('B',))[0]
    ix = {'R': lambda a: (a,), 'BR': lambda a: (b, a), 'one': lambda a: (num(0),)}[init]
    x.eq('initial configuration of the attempt', S.attr(sol, 'solutions'), (S.dim('B'), R, p.n), lambda i: T.atom('q0', *(([i[0]] if init == 'BR' else []) + [i[1] if init != 'one' else num(0), i[2]])), PROVIK, at=AT)
    x.terms('iterations', [(nterm_(x, S.attr(sol, 'iterations')), num(0))], at=AT)


def sampled(x, key, end, root, method, R):
    """sampled starts: one independent draw per attempt, uniform ones within the given limits"""
    S, I = x.S, x.I
    r = Robot(S, key)
    chain = r.serial(end, root).val()
    n = len([n_ for n_ in r.spec.path(end)[1:] if n_.jt != 'fixed'])
    kw = dict(num_retries=R, max_iterations=0, enforce_joint_limits=False, config_sampling_method=method)
    lim = S.t('lim', (n, 2))
    if method == 'uniform':
        kw['joint_limits'] = lim
    if method == 'callable':
        seen = []

        def sample(I_, a, k, node):
            seen.append(a)
            return S.t('drawn', (R, n))
        kw['config_sampling_method'] = Prim('sample', sample)
    if method == 'around':
        kw['config_sampling_method'] = x.val(S.call(IK + ':gaussian_around_config', S.t('mid', (n,)), S.f('dev')), 'gaussian_around_config')
    ik = x.val(S.call(IK + ':PseudoInverseIK', chain, **kw), 'PseudoInverseIK')
    m = I.tensor((S.dim('B'), 4, 4), lambda idx: num(int(idx[2].args[0] == 3)) if idx[1].args[0] == 3 else T.atom('rigid!goal', *idx), F32, CPU)
    sol = x.val(S.m(ik, 'solve', x.val(S.call(TF + ':Transform3d', matrix=m), 'Transform3d')), 'solve')
    b = rows(('B',))[0]
    sq = el(x, S.attr(sol, 'solutions'), 'B', R, n)
    prov = {'lim': lambda e, nm, i: (-1 - e.h('l', i)) if i[1] == 0 else 1 + e.h('h', i)}
    es = envs(I, 6, prov)
    if method == 'callable':
        x.holds(len(seen) == 1, 'sampling method called once', 'called %d times' % len(seen), INIT)
        x.eq('sampled configuration', S.attr(sol, 'solutions'), (S.dim('B'), R, n), lambda i: T.atom('drawn', i[1], i[2]), at=INIT)
        return
    c = Cmp()
    for e in es:
        vals = [[e.ev(sq((b, num(a), num(j)))) for j in range(n)] for a in range(R)]
        flat = [v for r_ in vals for v in r_]
        c.n += 1
        c.points += 1
        if len({round(v, 9) for v in flat}) != len(flat):
            c.bad.append(Mismatch('sampled starts', (), flat, 'independent draws per attempt and joint', e))
        if method == 'uniform':
            for a in range(R):
                for j in range(n):
                    c.n += 1
                    lo, hi = e.ev(T.atom('lim', num(j), num(0))), e.ev(T.atom('lim', num(j), num(1)))
                    if not lo <= vals[a][j] <= hi:
                        c.bad.append(Mismatch('sampled start of joint %d' % j, (), vals[a][j], 'a value in [%.4g, %.4g]' % (lo, hi), e))
    draws = {}
    for a in range(R):
        for j in range(n):
            for u in atoms_of(sq((b, num(a), num(j)))):
                if u.args[0].startswith('rand'):
                    draws.setdefault(u.id, []).append((a, j))
    c.n += 1
    for u, w in draws.items():
        if len(w) > 1:
            c.bad.append(Mismatch('sampled starts', (), 'one draw for the entries %s' % w[:4], 'independent draws per attempt and joint', es[0]))
    x.cmp(c, 'sampled starts', INIT)
    if method == 'uniform':
        # the whole range is reached: the draw enters with the full width of the limits
        c = Cmp()
        for a in range(R):
            for j in range(n):
                t = sq((b, num(a), num(j)))
                rn = [u for u in atoms_of(t) if u.args[0].startswith('rand!')]
                c.n += 1
                if len(rn) != 1:
                    c.unknown.append('draws %s' % [T.show(u) for u in rn])
                    continue
                for v, side in ((0.0, 0), (1.0, 1)):
                    e = T.Env('u', 1.0, dict(prov, **{rn[0].args[0]: lambda e_, nm, i: v}), None, I.where_ites, I.norms)
                    g, w = e.ev(t), e.ev(T.atom('lim', num(j), num(side)))
                    if not close(g, w, 1e-9):
                        c.bad.append(Mismatch('start at the end of the draw', (), g, w, e))
        x.cmp(c, 'uniform starts cover the limits', INIT)
    if method == 'around':
        # standard normal draws, scaled by the deviation and centred at the given configuration
        c = Cmp()
        for a in range(R):
            for j in range(n):
                t = sq((b, num(a), num(j)))
                rn = [u for u in atoms_of(t) if u.args[0].startswith('randn!')]
                c.n += 1
                if len(rn) != 1:
                    c.unknown.append('draws %s' % [T.show(u) for u in rn])
                    continue
                for v in (0.0, 1.0, -1.7):
                    e = T.Env('u', 1.0, dict(prov, **{rn[0].args[0]: lambda e_, nm, i: v}), None, I.where_ites, I.norms)
                    g, w = e.ev(t), v * e.ev(T.atom('dev')) + e.ev(T.atom('mid', num(j)))
                    if not close(g, w, 1e-9):
                        c.bad.append(Mismatch('start for a draw of %.1f' % v, (), g, w, e))
        x.cmp(c, 'starts around the configuration', 'ik.py:gaussian_around_config')


def atoms_of(t):
    out, st, seen = [], [t], set()
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'atom':
            out.append(u)
        st.extend(a for a in u.args if isinstance(a, T.Term))
    return out


def again(x, key, end, root, cls, iters, opts, n1=1):
    """earlier solves leave no trace"""
    S, I = x.S, x.I
    p = Problem(x, key, end, root, R=2)
    kw = common(x, max_iterations=iters, **opts)
    other = I.tensor((S.dim('B2'), 4, 4), lambda idx: num(int(idx[2].args[0] == 3)) if idx[1].args[0] == 3 else T.atom('rigid!other', *idx), F32, CPU)
    og = x.val(S.call(TF + ':Transform3d', matrix=other), 'Transform3d')
    used = p.solver(cls, **kw)
    for _ in range(n1):
        x.val(S.m(used, 'solve', og), 'first solve')
    s1 = p.solve(used)
    fresh = p.solver(cls, **kw)
    s2 = p.solve(fresh)
    es = envs(I, 5, PROVIK)
    for nm in ('solutions', 'err_pos', 'err_rot', 'converged', 'converged_any', 'remaining'):
        a, b_ = S.attr(s1, nm), S.attr(s2, nm)
        rb = tensor_el(x, b_)
        tb = x.I.resolve(b_)
        x.eq('%s of a second solve' % nm, a, tb.shape, lambda i: rb(i), es=es, at=AT)
    x.terms('iterations of a second solve', [(nterm_(x, S.attr(s1, 'iterations')), nterm_(x, S.attr(s2, 'iterations')))], es=es, at=AT)


def scenarios(tier):
    o = []
    ROB = (('rr', 'l2', ''), ('arm', 'ee', ''))
    NOSTOP = dict(early_stopping_no_improvement=None)
    for key, e, r in ROB:
        for it in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5):
            for init, R in (('R', 2), ('BR', 2)):
                o.append(('plain.%s.%d.%s' % (key, it, init), run, (key, e, r, 'PseudoInverseIK', it, R, init, NOSTOP, dict(tol=False)), AT))
            o.append(('tol.%s.%d' % (key, it), run, (key, e, r, 'PseudoInverseIK', it, 2, 'R', NOSTOP, {}), AT))
            o.append(('anyconv.%s.%d' % (key, it), run, (key, e, r, 'PseudoInverseIK', it, 2, 'R', dict(NOSTOP, early_stopping_any_converged=True), dict(anyconv=True)), AT))
        for rule in ('all', 'any', 0.4, 0.999, 0.001):
            for pat in (0, 1):
                o.append(('rule.%s.%s.%d' % (key, rule, pat), run, (key, e, r, 'PseudoInverseIK', 4, 2 if tier == 'quick' else 3, 'R', dict(early_stopping_no_improvement=rule, early_stopping_no_improvement_patience=pat, lr=x_lr()),
                                                                    dict(rule=rule, patience=pat, lr=2.3), 2.0), AT))
            o.append(('ruleany.%s.%s' % (key, rule), run, (key, e, r, 'PseudoInverseIK', 3, 2, 'BR', dict(early_stopping_no_improvement=rule, early_stopping_no_improvement_patience=0, lr=x_lr(), early_stopping_any_converged=True),
                                                           dict(rule=rule, patience=0, lr=2.3, anyconv=True), 2.0), AT))
        for R in (1, 2, 3):
            for init in ('R', 'BR') + (('one',) if R == 1 else ()):
                o.append(('start.%s.%s.%d' % (key, init, R), start, (key, e, r, init, R), AT))
        for cls in ('PseudoInverseIK', 'PseudoInverseIKWithSVD'):
            for it, opts in ((1, {}), (3, {}), (2, dict(early_stopping_any_converged=True)), (3, dict(early_stopping_no_improvement='all', early_stopping_no_improvement_patience=0)), (1, dict(enforce_joint_limits=False))):
                o.append(('again.%s.%s.%d.%s' % (cls, key, it, '-'.join(opts)), again, (key, e, r, cls, it, opts), AT))
        o.append(('thrice.%s' % key, again, (key, e, r, 'PseudoInverseIK', 2, {}, 2), AT))
    for m in ('uniform', 'gaussian', 'callable', 'around'):
        for R in (1, 3):
            o.append(('sampled.%s.%d' % (m, R), sampled, ('arm', 'ee', '', m, R), INIT))
    return o


def x_lr():
    return 2.3
