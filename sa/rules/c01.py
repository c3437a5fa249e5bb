"""Forward kinematics of each model robot (concrete topology, symbolic offsets, axes, joint values and batch size) is evaluated through the
public entry points; each of the 16 entries of each frame's pose is compared with the product of link offset, joint offset and joint motion."""
from ..robots import *

AT = 'chain.py:Chain.forward_kinematics'
FLOOR = 60


def qmap(names, base='th'):
    return lambda b: {nm: T.atom(base, b, j) for j, nm in enumerate(names)}


def poses(x, out, what):
    I = x.I
    v = x.val(out, what)
    if not isinstance(v, DictV):
        raise Undecided('%s: result %r' % (what, v))
    d = {}
    for it in I.get(v.id)[1]:
        if it[0] != 'item' or not isinstance(I.resolve(it[1]), str):
            raise Undecided('%s: symbolic keys' % what)
        d[I.resolve(it[1])] = it[2]
    return d


def fk(x, key, B, dtype=F32):
    S = x.S
    r = Robot(S, key, dtype)
    names = [n.jname for n in r.spec.joints()]
    th = S.t('th', (B, len(names)), dtype)
    d = poses(x, S.m(r.chain, 'forward_kinematics', th), 'forward_kinematics')
    x.holds(sorted(d) == sorted(n.name for n in r.spec.nodes), 'frames reported', 'reports %s, the tree has %s' % (sorted(d), sorted(n.name for n in r.spec.nodes)))
    q = qmap(names)
    b = S.dim(B)
    for nm in sorted(d):
        if nm not in r.spec.by:
            continue
        M = x.val(S.m(d[nm], 'get_matrix'), 'get_matrix')
        x.eq('pose', M, (b, 4, 4), lambda idx: entry(r.fk(nm, q(idx[0])))(idx), n=3)


def fk_tensor(x, key, B):
    S, I = x.S, x.I
    r = Robot(S, key)
    names = [n.jname for n in r.spec.joints()]
    th = S.t('th', (B, len(names)))
    out = x.val(S.m(r.chain, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
    q = qmap(names)
    for nm in [n.name for n in r.spec.nodes]:
        i = x.val(S.m(r.chain, 'get_frame_indices', nm), 'get_frame_indices')
        M = I.getitem(out, I.getitem(i, 0))
        x.eq('pose', M, (S.dim(B), 4, 4), lambda idx: entry(r.fk(nm, q(idx[0])))(idx), n=3, at='chain.py:Chain.forward_kinematics_tensor')


def fk_serial(x, key, end, root, B):
    S = x.S
    r = Robot(S, key)
    sc = r.serial(end, root).val()
    start = root or r.spec.nodes[0].name
    path = [n for n in r.spec.path(end)]
    k = [n.name for n in path].index(start)
    js = [n for n in path[k + 1:] if n.jt != 'fixed']
    names = [n.jname for n in js]
    th = S.t('th', (B, len(names)))
    q = qmap(names)
    at = 'chain.py:SerialChain.forward_kinematics'
    M = x.val(S.m(x.val(S.m(sc, 'forward_kinematics', th), 'forward_kinematics'), 'get_matrix'), 'get_matrix')
    x.eq('pose of end frame', M, (S.dim(B), 4, 4), lambda idx: entry(r.fk(end, q(idx[0]), start))(idx), n=3, at=at)
    d = poses(x, S.m(sc, 'forward_kinematics', th, end_only=False), 'forward_kinematics(end_only=False)')
    want = [n.name for n in path[k:]]
    x.holds(sorted(d) == sorted(want), 'frames reported', 'reports %s, the path has %s' % (sorted(d), want), at)
    for nm in want:
        if nm in d:
            M = x.val(S.m(d[nm], 'get_matrix'), 'get_matrix')
            x.eq('pose', M, (S.dim(B), 4, 4), lambda idx: entry(r.fk(nm, q(idx[0]), start))(idx), n=3, at=at)


SER = [('arm', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('pp', 'ee', ''), ('rr', 'l2', ''), ('rootmove', 'l2', ''), ('fixed', 'l2', ''), ('tree', 'b1', 'b')]


def scenarios(tier):
    out = []
    for key in SPECS:
        for B in ('B', 2) if tier == 'quick' else ('B', 1, 2, 3):
            out.append(('fk.%s.%s' % (key, B), fk, (key, B), AT))
    for key in ('tree', 'arm', 'star') if tier == 'quick' else SPECS:
        out.append(('tensor.%s' % key, fk_tensor, (key, 'B'), 'chain.py:Chain.forward_kinematics_tensor'))
    for key, e, r in SER:
        out.append(('serial.%s.%s.%s' % (key, r, e), fk_serial, (key, e, r, 'B'), 'chain.py:SerialChain.forward_kinematics'))
    return out
