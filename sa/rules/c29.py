"""All small ordered trees (and the representative robots), with every pattern of fixed and moving joints, are built through the package's constructors and queried
through the public listing and lookup methods; the abstract results are compared with the listing of the tree itself, and the pose at each returned frame index of the
forward kinematics result with the product of offsets and motions along the path of that frame."""
from .lib import *
from . import c06

FLOOR = 200
FX = 'fixed'


def shapes(n):
    """parent lists (depth-first numbering) of all ordered trees with n nodes"""
    out = []

    def go(par, path):
        k = len(par)
        if k == n:
            out.append(tuple(par))
            return
        for d in range(len(path)):
            go(par + [path[d]], path[:d + 1] + [k])
    go([None], [0])
    return out


def patterns(n, tier):
    """joint kinds of the nodes; the root of most descriptions is fixed"""
    k = ['fixed', 'revolute', 'prismatic']
    out = [tuple([FX] + [k[1 + j % 2] for j in range(1, n)]), tuple([FX] * n), tuple(k[(j + 1) % 3] for j in range(n)), tuple([FX] + [k[j % 3] for j in range(n - 1)]), tuple(k[1 + j % 2] for j in range(n)),
           tuple([FX] + [FX] * (n - 2) + ['revolute'])[:n], tuple(['revolute'] + [FX] * (n - 1))]
    return list(dict.fromkeys(o for o in out if len(o) == n))


# frame, link and joint names: the name of one kind of element is also used for another kind elsewhere, some are prefixes of others, and alphabetical order is not tree order
NM = ['base', 'wrist', 'arm', 'arm_2', 'a', 'tool', 'w', 'elbow']
LN = ['link_r', 'arm', 'wrist', 'l', 'base', 'l_2', 'tool2', 'z']
JN = ['j_root', 'tool', 'k', 'arm', 'j', 'a', 'base', 'j_root_2']


class Tree:
    def drawing(self, i=0, pre=''):
        """the lines of the drawing in the README: every frame once, depth first, a rule down to the last child"""
        o = [self.nm[0]] if i == 0 else []
        for k in self.kid[i]:
            last = k == self.kid[i][-1]
            o.append(pre + DRAW[last] + self.nm[k])
            o += self.drawing(k, pre + DRAW[2 + last])
        return o

    def __init__(self, x, par, kinds, how, nm=NM, ln=LN, jn=JN):
        S, I = x.S, x.I
        n = len(par)
        self.par, self.kinds, self.n = par, kinds, n
        self.nm, self.ln, self.jn = nm, ln, jn
        Fr, Li, Jo, Tr = (S.get(FR + ':Frame'), S.get(FR + ':Link'), S.get(FR + ':Joint'), S.get(TF + ':Transform3d'))
        self.kid = [[j for j in range(n) if par[j] == i] for i in range(n)]
        self.objs = {}

        def make(i):
            off = S.call(Tr, matrix=I.tensor((1, 4, 4), lambda idx: num(int(idx[2].args[0] == 3)) if idx[1].args[0] == 3 else T.atom('rigid!o%d' % i, idx[1], idx[2]), F32, CPU)).val()
            j = x.val(S.call(Jo, jn[i], offset=off, joint_type=kinds[i], axis=S.t('ax!%d' % i, (3,))), 'Joint')
            l = x.val(S.call(Li, ln[i]), 'Link')
            if how == 'children':
                f = x.val(S.call(Fr, nm[i], link=l, joint=j, children=S.lst([make(k) for k in self.kid[i]])), 'Frame')
            elif how == 'tuple':
                f = x.val(S.call(Fr, nm[i], l, j, tuple(make(k) for k in self.kid[i])), 'Frame')
            elif how == 'mixed':
                f = x.val(S.call(Fr, nm[i], link=l, joint=j, children=S.lst([make(k) for k in self.kid[i][:1]])), 'Frame')
                for k in self.kid[i][1:]:
                    S.m(f, 'add_child', make(k)).val()
            else:
                f = x.val(S.call(Fr, nm[i], link=l, joint=j), 'Frame')
                for k in self.kid[i]:
                    S.m(f, 'add_child', make(k)).val()
            self.objs[i] = (f, l, j)
            return f
        self.root = make(0)
        self.chain = x.val(S.call(CH + ':Chain', self.root), 'Chain')

    def sub(self, i):
        return [i] + [d for k in self.kid[i] for d in self.sub(k)]

    def moving(self):
        return [i for i in range(self.n) if self.kinds[i] != FX]

    def fk(self, i, q):
        M = eye(4)
        p = []
        while i is not None:
            p.append(i)
            i = self.par[i]
        for k in p[::-1]:
            M = mmul(M, [[T.atom('rigid!o%d' % k, num(a), num(b)) for b in range(4)] for a in range(3)] + [[T.ZERO] * 3 + [T.ONE]])
            ax = normd([T.atom('ax!%d' % k, num(a)) for a in range(3)])
            if self.kinds[k] == 'revolute':
                M = mmul(M, hom(rodrigues(ax, q(k)), [T.ZERO] * 3))
            elif self.kinds[k] == 'prismatic':
                M = mmul(M, hom(eye(3), [T.mul(q(k), c) for c in ax]))
        return M


DRAW = ('├── ', '└── ', '│   ', '    ')


def listing(x, o, what):
    I = x.I
    v = x.val(o, what)
    if isinstance(v, GenResult):
        c = [y.v for y in v.segs] if all(y.kind == 'item' and y.cond is T.TRUE for y in v.segs) else None
    else:
        c = I.concrete_list(v) if isinstance(v, ListV) else list(v) if isinstance(v, tuple) else None
    if v is None:
        x.holds(False, what, 'returns nothing', 'chain.py:Chain.' + what)
        return []
    if c is None:
        raise Undecided('%s: %r' % (what, getattr(v, 'segs', v)))
    return [I.resolve(y) for y in c]


def same(a, b):
    return [getattr(y, 'id', y) for y in a] == [getattr(y, 'id', y) for y in b]


def query(x, t, tag=''):
    S, I = x.S, x.I
    c = t.chain
    at = 'chain.py:Chain.'

    def lst(nm, want, show, *a, **k):
        got = listing(x, S.m(c, nm, *a, **k), nm)
        arg = ', '.join([str(y) for y in a] + ['%s=%s' % kv for kv in k.items()])
        x.holds(same(got, want), '%s(%s)%s' % (nm, arg, tag), 'lists %s, the tree has %s' % (show(got), show(want)), at + nm)
    plain = lambda v: [str(y) for y in v]
    objn = lambda v: [str(I.resolve(S.attr(y, 'name'))) if isinstance(y, Obj) else str(y) for y in v]
    every, mov = list(range(t.n)), t.moving()
    for kw, want in (({}, mov), (dict(exclude_fixed=True), mov), (dict(exclude_fixed=False), every)):
        lst('get_joints', [t.objs[i][2] for i in want], objn, **kw)
        lst('get_joint_parameter_names', [t.jn[i] for i in want], plain, **kw)
        lst('get_joint_parent_frame_names', [t.nm[i] for i in want], plain, **kw)
        lst('get_frame_names', [t.nm[i] for i in want], plain, **kw)
    # asked in another order, with positional arguments
    lst('get_joint_parameter_names', [t.jn[i] for i in mov], plain, True)
    lst('get_joint_parameter_names', [t.jn[i] for i in every], plain, False)
    lst('get_joints', [t.objs[i][2] for i in mov], objn)
    lst('get_links', [t.objs[i][1] for i in every], objn)
    lst('get_link_names', [t.ln[i] for i in every], plain)
    for k, (nm, names) in enumerate((('find_frame', t.nm), ('find_link', t.ln), ('find_joint', t.jn))):
        for i in every:
            got = I.resolve(x.val(S.m(c, nm, names[i]), nm))
            x.holds(isinstance(got, Obj) and got.id == t.objs[i][k].id, '%s(%r)%s' % (nm, names[i], tag), 'returns %s' % (objn([got])[0] if isinstance(got, Obj) else got), at + nm)
        for miss in ('absent', '', names[0] + 'x', names[0][:-1]) + tuple(set(t.nm[:t.n] + t.ln[:t.n] + t.jn[:t.n]) - set(names[:t.n])):
            if miss in names[:t.n]:
                continue
            got = I.resolve(x.val(S.m(c, nm, miss), nm))
            x.holds(got is None, '%s(%r)%s' % (nm, miss, tag), 'finds %s' % (objn([got])[0] if isinstance(got, Obj) else got), at + nm)
    got = listing(x, S.m(c, 'get_joints_and_child_links'), 'get_joints_and_child_links')
    pairs = {}
    for g in got:
        j, ls = (g if isinstance(g, tuple) else tuple(I.concrete_list(g)))
        pairs.setdefault(I.resolve(j).id, []).append([I.resolve(y).id for y in (I.concrete_list(I.resolve(ls)) if isinstance(I.resolve(ls), ListV) else ls)])
    want = {t.objs[i][2].id: [[t.objs[d][1].id for d in t.sub(i)]] for i in mov}
    x.holds(len(got) == len(mov) and pairs == want, 'get_joints_and_child_links' + tag, 'a moving joint is missing, repeated, or comes with other links than those below it', at + 'get_joints_and_child_links')
    for what, o, at2 in ((('print_tree(do_print=False)', S.m(c, 'print_tree', do_print=False), at + 'print_tree'), ('print_tree()', S.m(c, 'print_tree'), at + 'print_tree'),
                          ('str(frame)', S.m(t.root, '__str__'), 'frame.py:Frame.__str__'))):
        try:
            got = x.val(o, what)
        except Undecided as e:
            got = e
        if not isinstance(got, str):
            x.rec('unknown', what, repr(got), n=1)
            continue
        x.holds(got.rstrip('\n').split('\n') == t.drawing(), what + tag, 'draws %r, the tree is %r' % (got, t.drawing()), at2)
    # children are kept
    for i in every:
        ch = listing(x, _attr(x, t.objs[i][0], 'children'), 'children')
        x.holds(same(ch, [t.objs[k][0] for k in t.kid[i]]), 'children of %s%s' % (t.nm[i], tag), 'the frame has %s' % objn(ch), 'frame.py:Frame.__init__')
    e = x.val(S.m(t.objs[t.n - 1][0], 'is_end'), 'is_end')
    x.holds(e is True, 'is_end of a leaf' + tag, 'returns %s' % (e,), 'frame.py:Frame.is_end')
    e = x.val(S.m(t.root, 'is_end'), 'is_end')
    x.holds(e is (t.n == 1), 'is_end of the root' + tag, 'returns %s' % (e,), 'frame.py:Frame.is_end')


class _attr:
    """an attribute as the outcome of a call"""

    def __new__(cls, x, o, nm):
        f = object.__new__(cls)
        f.v, f.exc, f.ok = x.I.resolve(x.S.attr(o, nm)), None, True
        f.val = lambda: f.v
        return f


def indices_of(x, c, names, fk, at, th):
    """frame indices in order are the positions of the frames in the result"""
    S, I = x.S, x.I
    M = x.val(S.m(c, 'forward_kinematics_tensor', th), 'forward_kinematics_tensor')
    r = tensor_el(x, M)
    b = rows(('B',))[0]

    def ask(want, o, what):
        ix = x.val(o, what)
        ok = isinstance(ix, Tensor) and len(ix.shape) == 1 and ix.shape[0] == len(want)
        x.holds(ok, what + ': one index per name', 'returns %r' % (ix,), at)
        if not ok:
            return
        g = I.reader(ix)
        pairs = []
        for k, nm in enumerate(want):
            i = g((num(k),))
            if i.op != 'num':
                raise Undecided('frame index')
            if not 0 <= i.args[0] < M.shape[0]:
                x.holds(False, what, 'index %s is out of range' % i.args[0], at)
                continue
            W = fk(nm, b)
            pairs += [(r((i, b, num(p), num(q))), W[p][q]) for p in range(3) for q in range(4)]
        x.terms('%s: poses at the indices of %s' % (what, ', '.join(want)), pairs, n=3, at=at)
    ask(names, S.m(c, 'get_frame_indices', *names), 'get_frame_indices of all')
    ask(names[::-1], S.m(c, 'get_frame_indices', *names[::-1]), 'get_frame_indices in reverse')
    rep = [names[-1], names[0], names[-1]]
    ask(rep, S.m(c, 'get_frame_indices', *rep), 'get_frame_indices with repetition')
    for nm in names:
        ask([nm], S.m(c, 'get_frame_indices', nm), 'get_frame_indices of one')
    ix = x.val(S.m(c, 'get_all_frame_indices'), 'get_all_frame_indices')
    g = I.reader(ix)
    vals = sorted(int(g((num(k),)).args[0]) for k in range(ix.shape[0]))
    x.holds(vals == list(range(len(names))), 'get_all_frame_indices covers every frame once', 'returns %s' % vals, 'chain.py:Chain.get_all_frame_indices')


def tree(x, par, kinds, how):
    S = x.S
    t = Tree(x, par, kinds, how)
    query(x, t)
    mov = t.moving()
    th = S.t('th', ('B', len(mov)))
    col = {i: k for k, i in enumerate(mov)}
    indices_of(x, t.chain, [t.nm[i] for i in range(t.n)], lambda nm, b: t.fk(t.nm.index(nm), lambda i: T.atom('th', b, num(col[i]))), 'chain.py:Chain.get_frame_indices', th)


def two(x, par, kinds):
    """two robots asked in turn"""
    a = Tree(x, par, kinds, 'add')
    b = Tree(x, par[:-1] if len(par) > 2 else par, kinds[::-1][:len(par) - 1] if len(par) > 2 else kinds[::-1], 'add', [n + '_o' for n in NM[::-1]], [n + '_o' for n in LN[::-1]], [n + '_o' for n in JN[::-1]])
    query(x, a, ' (first robot)')
    query(x, b, ' (second robot)')
    query(x, a, ' (first robot again)')


def serial(x, key, end, root):
    """a serial chain answers for its own path"""
    S, I = x.S, x.I
    r = Robot(S, key)
    c = x.val(r.serial(end, root), 'SerialChain')
    path = r.spec.path(end)
    start = root or r.spec.nodes[0].name
    path = path[[n.name for n in path].index(start):]
    names = [n.name for n in path]
    mov = [n for n in path[1:] if n.jt != FX]
    plain = lambda o, w: [str(v) for v in listing(x, o, w)]
    for nm, kw, want in (('get_frame_names', dict(exclude_fixed=False), names), ('get_frame_names', {}, [n.name for n in mov]), ('get_joint_parameter_names', {}, [n.jname for n in mov]),
                         ('get_joint_parent_frame_names', {}, [n.name for n in mov]), ('get_link_names', {}, [n.name + '_link' for n in path])):
        got = plain(S.m(c, nm, **kw), nm)
        x.holds(got == want, '%s %s' % (nm, kw), 'lists %s, the chain has %s' % (got, want), 'chain.py:Chain.' + nm)
    for n in r.spec.nodes:
        inside = n in path
        for nm, arg in (('find_frame', n.name), ('find_link', n.name + '_link')) + ((('find_joint', n.jname),) if n is not path[0] else ()):
            got = I.resolve(x.val(S.m(c, nm, arg), nm))
            x.holds((isinstance(got, Obj) and I.resolve(S.attr(got, 'name')) == arg) if inside else got is None, '%s(%r)' % (nm, arg), 'returns %s' % (got,), 'chain.py:Chain.' + nm)
    q = {n.jname: n for n in mov}
    th = S.t('th', ('B', len(mov)))
    col = {n.jname: k for k, n in enumerate(mov)}

    def fk(nm, b):
        return r.fk(nm, {k: T.atom('th', b, num(col[k])) for k in q}, start)
    indices_of(x, c, names, fk, 'chain.py:Chain.get_frame_indices', th)


def robot(x, key):
    S = x.S
    r = Robot(S, key)
    js = [n.jname for n in r.spec.joints()]
    th = S.t('th', ('B', len(js)))
    indices_of(x, r.chain, [n.name for n in r.spec.nodes], lambda nm, b: r.fk(nm, {k: T.atom('th', b, num(j)) for j, k in enumerate(js)}), 'chain.py:Chain.get_frame_indices', th)


def defaults(x):
    """a frame made without children, link or joint has its own empty list of children"""
    S, I = x.S, x.I
    a, b = x.val(S.call(FR + ':Frame', 'a'), 'Frame'), x.val(S.call(FR + ':Frame', 'b'), 'Frame')
    k = x.val(S.call(FR + ':Frame', 'k'), 'Frame')
    S.m(a, 'add_child', k).val()
    for f, want, nm in ((a, [k], 'a'), (b, [], 'b'), (k, [], 'k')):
        x.holds(same(listing(x, _attr(x, f, 'children'), 'children'), want), 'children of %s' % nm, 'not those added to it', 'frame.py:Frame.__init__')
    given = S.lst([k])
    c = x.val(S.call(FR + ':Frame', 'c', children=given), 'Frame')
    d = x.val(S.call(FR + ':Frame', 'd', children=S.lst([])), 'Frame')
    S.m(d, 'add_child', k).val()
    S.m(c, 'add_child', a).val()
    x.holds(same(listing(x, _attr(x, c, 'children'), 'children'), [k, a]), 'children given and added', 'are not the frame\'s children', 'frame.py:Frame.__init__')
    x.holds(same(listing(x, _attr(x, d, 'children'), 'children'), [k]), 'children added to a frame built with an empty list', 'are not kept', 'frame.py:Frame.__init__')


def scenarios(tier):
    o = []
    L = 'chain.py:Chain.get_frame_names'
    k = 0
    for n in range(1, 6 if tier == 'quick' else 7):
        for par in shapes(n):
            for pat in patterns(n, tier):
                how = ('add', 'children', 'tuple', 'mixed')[k % 4]
                if tier == 'quick' and n == 5 and k % 3:
                    k += 1
                    continue
                o.append(('tree.%s.%s.%s' % ('_'.join(str(p) for p in par[1:]) or '-', ''.join(t[0] for t in pat), how), tree, (par, pat, how), L))
                k += 1
    for par, pat in (((None, 0, 0, 2), (FX, 'revolute', FX, 'prismatic')), ((None, 0, 1, 0, 3), ('revolute', FX, 'prismatic', 'revolute', FX))):
        o.append(('two.%d' % len(par), two, (par, pat), L))
    for key in ALL:
        if key != 'seven' or tier != 'quick':
            o.append(('robot.' + key, robot, (key,), 'chain.py:Chain.get_frame_indices'))
    for key, e, r in (('tree', 'b111', ''), ('tree', 'a21', 'a'), ('tree', 'a1', ''), ('arm', 'ee', ''), ('arm', 'm', 'l1'), ('rr', 'l2', ''), ('star', 'b1', ''), ('star', 'a1', 'a'), ('rootmove', 'l2', ''), ('fixed', 'l2', '')):
        o.append(('serial.%s.%s.%s' % (key, e, r), serial, (key, e, r), 'chain.py:SerialChain.__init__'))
    o.append(('frames', defaults, (), 'frame.py:Frame.__init__'))
    return o
