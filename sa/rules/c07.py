"""Serial chains are cut from model robots for every pair of root and end frame; their frames, poses, joints and the unchanged source robot are
compared with the path in the tree, and object identity shows that the cut shares no frame, link, joint or child list with its source."""
from .lib import *
from .c01 import poses, qmap
from .c06 import strings, names_of, items
from .. import torchlib as tl

FLOOR = 100
AT = 'chain.py:SerialChain.__init__'


def pairs(key):
    sp = SPECS[key]
    out = []
    for n in sp.nodes:
        p = [m.name for m in sp.path(n.name)]
        for r in [''] + p:
            out.append((n.name, r))
    return out


def walk(x, f, seen=None):
    """frame objects below f (children lists with ids)"""
    I = x.I
    out = [f]
    kids = I.getattr(f, 'children')
    for c in items(x, kids):
        out += walk(x, c)
    return out


def parts(x, f):
    """identities of the mutable objects of one frame"""
    I = x.I
    ids = {f.id: 'frame'}
    for a in ('link', 'joint'):
        o = I.resolve(I.getattr(f, a))
        if isinstance(o, Obj):
            ids[o.id] = a
            off = I.resolve(I.getattr(o, 'offset'))
            if isinstance(off, Obj):
                ids[off.id] = a + ' offset'
                m = I.resolve(I.getattr(off, '_matrix')) if '_matrix' in I.get(off.id)[1] else None
                if isinstance(m, Tensor):
                    ids[m.cell] = a + ' offset matrix'
            if a == 'joint':
                ax = I.resolve(I.getattr(o, 'axis'))
                if isinstance(ax, Tensor):
                    ids[ax.cell] = 'joint axis'
    k = I.resolve(I.getattr(f, 'children'))
    if isinstance(k, ListV):
        ids[k.id] = 'child list'
    return ids


def snapshot(x, chain, root):
    """what the robot looks like: per frame name, children, joint and offset values"""
    I = x.I
    root = x.val(x.S.m(chain, 'find_frame', root), 'find_frame')
    out = []
    for f in walk(x, root):
        j, l = I.resolve(I.getattr(f, 'joint')), I.resolve(I.getattr(f, 'link'))
        out.append((f.id, I.resolve(I.getattr(f, 'name')), tuple(c.id for c in items(x, I.getattr(f, 'children'))), j.id, l.id,
                    ident(x, I.getattr(j, 'offset')), ident(x, I.getattr(l, 'offset')), I.resolve(I.getattr(j, 'joint_type')), I.resolve(I.getattr(j, 'name')),
                    ident(x, I.getattr(j, 'axis'))))
    return out


def ident(x, v):
    v = x.I.resolve(v)
    if isinstance(v, Obj):
        return ('o', v.id)
    if isinstance(v, Tensor):
        return ('t', v.cell)
    return repr(v)


def cut(x, key, end, root, f64):
    S, I = x.S, x.I
    r = Robot(S, key, F64 if f64 else F32)
    if f64:
        # dtype taken over from the robot
        chain = x.val(S.call(CH + ':SerialChain', r.chain, end, *([root] if root else [])), 'SerialChain')
    else:
        before = snapshot(x, r.chain, r.spec.nodes[0].name)
        chain = x.val(r.serial(end, root), 'SerialChain')
        after = snapshot(x, r.chain, r.spec.nodes[0].name)
        x.holds(before == after, 'source robot unchanged', 'frames of the source robot before and after differ: %s' % [(b[1], a[1]) for b, a in zip(before, after) if a != b][:3])
    start = root or r.spec.nodes[0].name
    path = r.spec.path(end)
    k = [n.name for n in path].index(start)
    want = path[k:]
    # structure
    f = x.val(S.m(chain, 'find_frame', start), 'find_frame')
    if not isinstance(f, Obj):
        raise ScenarioBad('root frame', 'the serial chain does not contain its root frame %s' % start, AT)
    got = walk(x, f)
    names = [I.resolve(I.getattr(g, 'name')) for g in got]
    x.holds(names == [n.name for n in want], 'frames on the path', 'keeps %s, the path is %s' % (names, [n.name for n in want]))
    for g in got:
        kids = items(x, I.getattr(g, 'children'))
        x.holds(len(kids) <= 1, 'only the next frame as child', '%s keeps %d children' % (I.resolve(I.getattr(g, 'name')), len(kids)))
    fn = strings(x, x.val(S.m(chain, 'get_frame_names', exclude_fixed=False), 'get_frame_names'))
    x.holds(fn == [n.name for n in want], 'frame names', 'reports %s' % fn)
    # identity
    src = {}
    for g in walk(x, r.root):
        src.update(parts(x, g))
    for g in got:
        for i, what in parts(x, g).items():
            x.holds(i not in src, 'nothing shared with the source robot', 'the %s of %s is the same object as the %s of the source robot' % (what, I.resolve(I.getattr(g, 'name')), src.get(i)))
    # joints and meaning
    mov = [n for n in want[1:] if n.jt != 'fixed']
    nm = names_of(x, chain)
    x.holds(nm == [n.jname for n in mov], 'moving joints', 'lists %s, after the root the path moves by %s' % (nm, [n.jname for n in mov]), 'chain.py:Chain.get_joint_parameter_names')
    if nm != [n.jname for n in mov]:
        return
    th = S.t('th', ('B', len(nm)), F64 if f64 else F32)
    q = qmap(nm)
    d = poses(x, S.m(chain, 'forward_kinematics', th, end_only=False), 'forward_kinematics')
    x.holds(sorted(d) == sorted(n.name for n in want), 'poses reported', 'reports %s' % sorted(d), 'chain.py:SerialChain.forward_kinematics')
    for n in want:
        if n.name in d:
            M = x.val(S.m(d[n.name], 'get_matrix'), 'get_matrix')
            x.eq('pose relative to the root', M, (S.dim('B'), 4, 4), lambda idx: entry(r.fk(n.name, q(idx[0]), start))(idx), n=2)
    M = x.val(S.m(x.val(S.m(chain, 'forward_kinematics', th), 'forward_kinematics'), 'get_matrix'), 'get_matrix')
    x.eq('pose of the end frame', M, (S.dim('B'), 4, 4), lambda idx: entry(r.fk(end, q(idx[0]), start))(idx), n=2)
    # the source still computes the same
    if not f64:
        sn = names_of(x, r.chain)
        t2 = S.t('th2', ('B', len(sn)))
        q2 = qmap(sn, 'th2')
        d = poses(x, S.m(r.chain, 'forward_kinematics', t2), 'forward_kinematics')
        for n in r.spec.nodes:
            M = x.val(S.m(d[n.name], 'get_matrix'), 'get_matrix')
            x.eq('pose in the source robot afterwards', M, (S.dim('B'), 4, 4), lambda idx: entry(r.fk(n.name, q2(idx[0])))(idx), n=1)


def again(x, key, end1, root1, end2, root2):
    """a chain cut after another cut, and a chain cut from a serial chain"""
    S, I = x.S, x.I
    r = Robot(S, key)
    x.val(r.serial(end1, root1), 'SerialChain')
    chain = x.val(r.serial(end2, root2), 'SerialChain')
    check(x, r, chain, end2, root2 or r.spec.nodes[0].name)


def nested(x, key, end1, root1, end2, root2):
    S = x.S
    r = Robot(S, key)
    c1 = x.val(r.serial(end1, root1), 'SerialChain')
    chain = x.val(S.call(CH + ':SerialChain', c1, end2, root2), 'SerialChain of a SerialChain')
    check(x, r, chain, end2, root2 or root1 or r.spec.nodes[0].name)


def check(x, r, chain, end, start):
    S = x.S
    path = r.spec.path(end)
    k = [n.name for n in path].index(start)
    mov = [n.jname for n in path[k + 1:] if n.jt != 'fixed']
    nm = names_of(x, chain)
    x.holds(nm == mov, 'moving joints', 'lists %s, required %s' % (nm, mov))
    if nm == mov:
        q = qmap(nm)
        M = x.val(S.m(x.val(S.m(chain, 'forward_kinematics', S.t('th', ('B', len(nm)))), 'forward_kinematics'), 'get_matrix'), 'get_matrix')
        x.eq('pose of the end frame', M, (S.dim('B'), 4, 4), lambda idx: entry(r.fk(end, q(idx[0]), start))(idx), n=2)


def bad(x, key, end, root):
    r = Robot(x.S, key)
    x.refused(r.serial(end, root), 'end %r root %r' % (end, root))


def scenarios(tier):
    o = []
    for key in SPECS:
        ps = pairs(key)
        if tier == 'quick' and key == 'tree':
            ps = [p for i, p in enumerate(ps) if i % 2 == 0]
        for e, r in ps:
            o.append(('cut.%s.%s.%s' % (key, r, e), cut, (key, e, r, False), AT))
        e, r = ps[-1]
        o.append(('cut64.%s' % key, cut, (key, e, r, True), AT))
    o.append(('again.tree', again, ('tree', 'a21', 'a', 'b111', ''), AT))
    o.append(('again.tree2', again, ('tree', 'b111', 'b', 'b111', ''), AT))
    o.append(('again.arm', again, ('arm', 'l2', '', 'ee', 'l1'), AT))
    o.append(('nested.arm', nested, ('arm', 'ee', '', 'l3', 'l1'), AT))
    o.append(('nested.tree', nested, ('tree', 'b111', 'b', 'b11', ''), AT))
    o.append(('nested.arm2', nested, ('arm', 'ee', 'l1', 'ee', ''), AT))
    for key, e, r in (('arm', 'nope', ''), ('arm', 'ee', 'nope'), ('tree', 'b', 'a'), ('tree', 'base', 'a'), ('arm', 'l1', 'l2'), ('tree', 'j_a', ''), ('tree', 'nope', 'nope'), ('single', '', ''), ('arm', 'ee_link', '')):
        o.append(('bad.%s.%s.%s' % (key, r, e), bad, (key, e, r), AT))
    return o
