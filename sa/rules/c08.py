"""Forward kinematics and the Jacobian are evaluated for symbolic joint values passed as tensor, array, list and dictionary (every order, scalars,
arrays, tensors, batched or not); results are compared with the pose product of the named joints; incomplete, unknown and over-complete inputs have to be refused."""
from .lib import *
from .c01 import poses
from .c04 import Ser
import itertools as it

FLOOR = 150
AT = 'chain.py:Chain.ensure_tensor'
CH_CASES = ['tree', 'arm', 'rr', 'pp', 'star', 'rootmove']
SER = [('arm', 'ee', ''), ('tree', 'b111', ''), ('tree', 'a21', 'a'), ('pp', 'ee', ''), ('rr', 'l2', ''), ('star', 'b1', '')]
FORMS = ['tensor', 'array', 'tensor1', 'array1', 'list', 'dict_scalar', 'dict_t0', 'dict_np0', 'dict_tB', 'dict_npB', 'dict_t1', 'f64array', 'dict_mixed', 'list_int', 'array_f32']


def joint_input(x, form, names, perm=None, dtype=F32):
    """value passed, provider (b, name) -> term, batch size (None: unbatched)"""
    S = x.S
    order = [names[i] for i in perm] if perm else names[::-1]
    n = len(names)
    col = {nm: j for j, nm in enumerate(names)}
    B = 'B'
    if form == 'tensor':
        return S.t('th', (B, n), dtype), lambda b, nm: T.atom('th', b, num(col[nm])), B
    if form in ('array', 'f64array', 'array_f32'):
        return S.t('th', (B, n), F32 if form == 'array_f32' else F64, kind='numpy'), lambda b, nm: T.atom('th', b, num(col[nm])), B
    if form == 'tensor1':
        return S.t('th', (n,), dtype), lambda b, nm: T.atom('th', num(col[nm])), None
    if form == 'array1':
        return S.t('th', (n,), F64, kind='numpy'), lambda b, nm: T.atom('th', num(col[nm])), None
    if form == 'list':
        return S.lst([S.f('q!' + nm) for nm in names]), lambda b, nm: T.atom('q!' + nm), None
    if form == 'list_int':
        return S.lst([j + 1 for j, nm in enumerate(names)]), lambda b, nm: num(col[nm] + 1), None
    if form == 'dict_scalar':
        return S.dct({nm: S.f('q!' + nm) for nm in order}), lambda b, nm: T.atom('q!' + nm), None
    if form == 'dict_mixed':
        return S.dct({nm: (S.f('q!' + nm) if j % 2 else S.t('q!' + nm, (), dtype)) for j, nm in enumerate(order)}), lambda b, nm: T.atom('q!' + nm), None
    if form in ('dict_t0', 'dict_np0'):
        return S.dct({nm: S.t('q!' + nm, (), dtype, kind='numpy' if 'np' in form else 'torch') for nm in order}), lambda b, nm: T.atom('q!' + nm), None
    if form == 'dict_t1':
        return S.dct({nm: S.t('q!' + nm, (1,), dtype) for nm in order}), lambda b, nm: T.atom('q!' + nm, num(0)), 1
    return S.dct({nm: S.t('q!' + nm, (B,), dtype, kind='numpy' if 'np' in form else 'torch') for nm in order}), lambda b, nm: T.atom('q!' + nm, b), B


def names_(r):
    return [n.jname for n in r.spec.joints()]


def fk(x, key, form, perm, dtype=F32):
    S = x.S
    r = Robot(S, key, dtype)
    names = names_(r)
    v, q, B = joint_input(x, form, names, perm, dtype)
    d = poses(x, S.m(r.chain, 'forward_kinematics', v), 'forward_kinematics')
    b = S.dim(B or 1)
    for n in r.spec.nodes:
        M = x.val(S.m(d[n.name], 'get_matrix'), 'get_matrix')
        x.eq('pose', M, (b, 4, 4), lambda i: entry(r.fk(n.name, {nm: q(i[0], nm) for nm in names}))(i), n=2, at='chain.py:Chain.forward_kinematics')


def fk_serial(x, key, end, root, form, perm, end_only, dtype=F32):
    S = x.S
    s = Ser(x, key, end, root, dtype)
    v, q, B = joint_input(x, form, s.names, perm, dtype)
    o = S.m(s.chain, 'forward_kinematics', v, end_only=end_only)
    b = S.dim(B or 1)
    at = 'chain.py:SerialChain.forward_kinematics'
    if end_only:
        M = x.val(S.m(x.val(o, 'forward_kinematics'), 'get_matrix'), 'get_matrix')
        x.eq('pose', M, (b, 4, 4), lambda i: entry(s.pose({nm: q(i[0], nm) for nm in s.names}))(i), n=2, at=at)
    else:
        d = poses(x, o, 'forward_kinematics')
        for f in s.frames:
            M = x.val(S.m(d[f], 'get_matrix'), 'get_matrix')
            x.eq('pose', M, (b, 4, 4), lambda i: entry(s.pose({nm: q(i[0], nm) for nm in s.names}, f))(i), n=2, at=at)


def jac(x, key, end, root, form, perm, dtype=F32):
    S = x.S
    s = Ser(x, key, end, root, dtype)
    v, q, B = joint_input(x, form, s.names, perm, dtype)
    o = x.val(S.m(s.chain, 'jacobian', v), 'jacobian')
    b = S.dim(B or 1)

    def spec(i):
        J = s.jac({nm: q(i[0], nm) for nm in s.names})
        return J[int(i[1].args[0])][int(i[2].args[0])]
    x.eq('jacobian', o, (b, 6, len(s.names)), spec, n=2, at='chain.py:SerialChain.jacobian')


def ensure(x, key, form, perm):
    S = x.S
    r = Robot(S, key)
    names = names_(r)
    v, q, B = joint_input(x, form, names, perm)
    t = x.val(S.m(r.chain, 'ensure_tensor', v), 'ensure_tensor')
    sh = ((S.dim(B),) if B else ()) + (len(names),)
    x.eq('converted joint values', t, sh, lambda i: q(i[0], names[int(i[-1].args[0])]), n=3)


BAD = ['missing', 'missing_first', 'unknown', 'unknown_instead', 'fixed_joint', 'short_tensor', 'long_tensor', 'short_list', 'long_list', 'short_array', 'long_array', 'one_column', 'missing_B', 'missing_zero', 'empty_list',
       'short_tensor1', 'long_tensor1', 'twice']


def broken(x, kind, names, dtype=F32):
    S = x.S
    n = len(names)
    full = {nm: S.f('q!' + nm) for nm in names}
    if kind == 'missing':
        del full[names[-1]]
        return S.dct(full)
    if kind == 'missing_first':
        del full[names[0]]
        return S.dct(full)
    if kind == 'missing_zero':
        return S.dct({nm: 0.0 for nm in names[:-1]})
    if kind == 'missing_B':
        return S.dct({nm: S.t('q!' + nm, ('B',)) for nm in names[:-1]})
    if kind == 'unknown':
        full['no_such_joint'] = S.f('qx')
        return S.dct(full)
    if kind == 'unknown_instead':
        del full[names[-1]]
        full['no_such_joint'] = S.f('qx')
        return S.dct(full)
    if kind == 'twice':
        del full[names[-1]]
        full[names[0] + ' '] = S.f('qx')
        return S.dct(full)
    if kind == 'fixed_joint':
        full['m_j'] = S.f('qx')
        return S.dct(full)
    if kind in ('short_tensor', 'long_tensor'):
        return S.t('th', ('B', n + (1 if 'long' in kind else -1)), dtype)
    if kind in ('short_tensor1', 'long_tensor1'):
        return S.t('th', (n + (1 if 'long' in kind else -1),), dtype)
    if kind in ('short_array', 'long_array'):
        return S.t('th', ('B', n + (1 if 'long' in kind else -1)), F64, kind='numpy')
    if kind == 'one_column':
        return S.t('th', ('B', 1), dtype)
    if kind == 'short_list':
        return S.lst([S.f('q%d' % j) for j in range(n - 1)])
    if kind == 'long_list':
        return S.lst([S.f('q%d' % j) for j in range(n + 1)])
    if kind == 'empty_list':
        return S.lst([])
    raise KeyError(kind)


def bad(x, key, kind):
    S = x.S
    r = Robot(S, key)
    names = names_(r)
    x.refused(S.m(r.chain, 'forward_kinematics', broken(x, kind, names)), 'forward_kinematics of %s' % kind, 'chain.py:Chain.forward_kinematics')


def bad_serial(x, key, end, root, kind, what):
    S = x.S
    s = Ser(x, key, end, root)
    v = broken(x, kind, s.names)
    if what == 'jacobian':
        x.refused(S.m(s.chain, 'jacobian', v), 'jacobian of %s' % kind, 'chain.py:SerialChain.jacobian')
    elif what == 'tool':
        x.refused(S.m(s.chain, 'jacobian', v, locations=S.t('tp', (3,)), ret_eef_pose=True), 'jacobian with tool of %s' % kind, 'chain.py:SerialChain.jacobian')
    else:
        x.refused(S.m(s.chain, 'forward_kinematics', v, end_only=(what == 'end')), 'forward_kinematics of %s' % kind, 'chain.py:SerialChain.forward_kinematics')


def subset(x, key, end, root, extra):
    """values of the whole robot given to a serial chain: joints that are not part of it must not be taken for others"""
    S = x.S
    s = Ser(x, key, end, root)
    names = names_(s.r)
    d = S.dct({nm: S.f('q!' + nm) for nm in names})
    o = S.m(s.chain, 'forward_kinematics', d)
    if len(names) == len(s.names):
        return
    x.refused(o, 'dictionary with joints outside the serial chain', 'chain.py:SerialChain.forward_kinematics')


def perms(n, tier):
    ps = list(it.permutations(range(n)))
    if tier == 'quick' and len(ps) > 6:
        ps = ps[1::max(1, len(ps) // 6)][:7]
    elif len(ps) > 24:
        ps = ps[::len(ps) // 24]
    return ps


def scenarios(tier):
    o = []
    for key in CH_CASES:
        n = len(SPECS[key].joints())
        for f in FORMS:
            o.append(('fk.%s.%s' % (key, f), fk, (key, f, None), 'chain.py:Chain.forward_kinematics'))
            o.append(('ensure.%s.%s' % (key, f), ensure, (key, f, None), AT))
        for p in perms(n, tier):
            o.append(('order.%s.%s' % (key, ''.join(map(str, p))), fk, (key, 'dict_tB', p), AT))
        for f in ('tensor', 'array_f32', 'dict_scalar', 'dict_tB', 'list'):
            o.append(('fk64.%s.%s' % (key, f), fk, (key, f, None, F64), AT))
        for k in BAD:
            if k == 'one_column' and n == 1 or k == 'fixed_joint' and key != 'arm' or k in ('short_tensor', 'short_list', 'short_array') and n == 0:
                continue
            o.append(('bad.%s.%s' % (key, k), bad, (key, k), 'chain.py:Chain.forward_kinematics'))
    for key, e, r in SER:
        for f in FORMS:
            o.append(('serial.%s.%s.%s' % (key, e, f), fk_serial, (key, e, r, f, None, True), 'chain.py:SerialChain.forward_kinematics'))
            o.append(('serialall.%s.%s.%s' % (key, e, f), fk_serial, (key, e, r, f, None, False), 'chain.py:SerialChain.forward_kinematics'))
            o.append(('jac.%s.%s.%s' % (key, e, f), jac, (key, e, r, f, None), 'chain.py:SerialChain.jacobian'))
        for k in BAD:
            if k == 'fixed_joint' and key != 'arm':
                continue
            if k == 'one_column' and (key, e) == ('tree', 'a21'):
                continue
            for w in ('end', 'all', 'jacobian', 'tool'):
                o.append(('bad.%s.%s.%s.%s' % (w, key, e, k), bad_serial, (key, e, r, k, w), 'chain.py:SerialChain.forward_kinematics'))
        o.append(('subset.%s.%s' % (key, e), subset, (key, e, r, 0), 'chain.py:SerialChain.forward_kinematics'))
        for p in ((0, 1), (1, 0)):
            if key in ('rr', 'pp', 'star'):
                o.append(('jacorder.%s.%s' % (key, p), jac, (key, e, r, 'dict_tB', p), AT))
    return o
