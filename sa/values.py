"""Abstract values."""
from . import terms as T
from .terms import Term, num


class AbsRaise(Exception):
    """a definite exception on the current abstract path"""

    def __init__(self, exc, node=None, value=None):
        Exception.__init__(self, exc)
        self.exc, self.node, self.value = exc, node, value


class Giveup(Exception):
    """the engine does not model this construct; the value becomes unknown"""


class Unknown:
    __slots__ = ('reason',)

    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return 'Unknown(%s)' % self.reason


class Num:
    """symbolic python number; kind 'i' or 'f'"""
    __slots__ = ('t', 'kind', 'src')

    def __init__(self, t, kind='f', src=None):
        self.t, self.kind, self.src = t, kind, src

    def __repr__(self):
        return 'Num(%s)' % T.show(self.t)


class SBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % T.show(self.t)


class SStr:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SStr(%s)' % T.show(self.t)


class NumStr(SStr):
    """decimal text of a number"""
    __slots__ = ('val',)

    def __init__(self, t, val):
        self.t, self.val = t, val


class DT:
    """dtype: name is a concrete torch dtype or 'sym:...'"""
    __slots__ = ('name',)
    _c = {}

    def __new__(cls, name):
        d = cls._c.get(name)
        if d is None:
            d = object.__new__(cls)
            d.name = name
            cls._c[name] = d
        return d

    def __repr__(self):
        return 'torch.' + self.name

    @property
    def cat(self):
        if self.name in ('int64', 'int32', 'uint8', 'int16', 'int8'):
            return 1
        if self.name == 'bool':
            return 0
        return 2


class Dev:
    __slots__ = ('name',)
    _c = {}

    def __new__(cls, name):
        d = cls._c.get(name)
        if d is None:
            d = object.__new__(cls)
            d.name = name
            cls._c[name] = d
        return d

    def __repr__(self):
        return 'device(%s)' % self.name


F32, F64, I64, BOOL = DT('float32'), DT('float64'), DT('int64'), DT('bool')
CPU = Dev('cpu')


class Tensor:
    """handle on a storage cell: shape, view maps (fwd: view index -> cell index; inv: cell index -> (cond, view index))"""
    __slots__ = ('cell', 'shape', 'fwd', 'inv', 'dtype', 'device', 'gdep', 'alias', 'kind', 'leaf', 'contig', 'detached', 'chol_of')

    def __init__(self, cell, shape, fwd, inv, dtype, device, gdep=frozenset(), alias=frozenset(), kind='torch'):
        self.cell, self.shape, self.fwd, self.inv = cell, tuple(shape), fwd, inv
        self.dtype, self.device, self.gdep, self.alias = dtype, device, gdep, alias
        self.kind = kind      # 'torch' or 'numpy'
        self.leaf = None
        self.contig = fwd is None
        self.chol_of = None

    def __repr__(self):
        return 'Tensor(%s,%s)' % (tuple(T.show(d) if isinstance(d, Term) else d for d in self.shape), self.dtype)


class PropV:
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Masked:
    """x[mask]: compressed selection kept in the coordinates of x"""
    __slots__ = ('shape', 'fn', 'mask', 'mrank', 'dtype', 'device', 'gdep', 'mkey', 'axis0')

    def __init__(self, shape, fn, mask, mrank, dtype, device, gdep, mkey, axis0=0):
        self.axis0 = axis0
        self.shape, self.fn, self.mask, self.mrank = shape, fn, mask, mrank
        self.dtype, self.device, self.gdep, self.mkey = dtype, device, gdep, mkey


class Obj:
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls):
        self.id, self.cls = id, cls

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.id)


class Sym:
    """external symbolic object of a declared kind"""
    __slots__ = ('kind', 'idx', 'label', 'copy')

    def __init__(self, kind, idx=(), label=None, copy=None):
        self.kind, self.idx, self.label, self.copy = kind, tuple(idx), label or kind, copy

    def __repr__(self):
        return '<%s%s%s>' % (self.label, list(self.idx) if self.idx else '', ' copy' if self.copy else '')


class ListV:
    __slots__ = ('id', 'kind')

    def __init__(self, id, kind='list'):
        self.id, self.kind = id, kind     # list, set, deque

    def __repr__(self):
        return 'ListV#%d' % self.id


class DictV:
    __slots__ = ('id', 'factory')

    def __init__(self, id, factory=None):
        self.id = id
        self.factory = factory      # of a defaultdict

    def __repr__(self):
        return 'DictV#%d' % self.id


class SymSeq:
    """immutable symbolic sequence given from outside: segs as in list contents"""
    __slots__ = ('segs', 'label')

    def __init__(self, segs, label=''):
        self.segs, self.label = tuple(segs), label


class Seg:
    """segment of a list content.
    kind: item(v) | map(var, n, cond, v) over var in range(n) | tree(var, root, order, cond, v) nodes of a subtree |
          flat(var, n/dom, cond, seglist) | opq(key) | path(f) root-to-f node ids"""
    __slots__ = ('kind', 'var', 'n', 'cond', 'v', 'dom')

    def __init__(self, kind, var=None, n=None, cond=T.TRUE, v=None, dom=None):
        self.kind, self.var, self.n, self.cond, self.v, self.dom = kind, var, n, cond, v, dom

    def __repr__(self):
        return 'Seg(%s,%s,%s,%s,%r,%s)' % (self.kind, self.var, self.n, self.cond, self.v, self.dom)


class Gamma:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'Gamma(%s; %r; %r)' % (T.show(self.c), self.a, self.b)


class FuncV:
    __slots__ = ('node', 'mod', 'env', 'name', 'cls', 'deco', 'defaults', 'kwdefaults', 'qual')

    def __init__(self, node, mod, env, name, cls=None, deco=(), qual=None):
        self.node, self.mod, self.env, self.name, self.cls, self.deco = node, mod, env, name, cls, deco
        self.defaults = None
        self.kwdefaults = None
        self.qual = qual or name

    def __repr__(self):
        return '<func %s>' % self.qual


class Bound:
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class ClassV:
    __slots__ = ('name', 'node', 'mod', 'bases', 'attrs', 'qual')

    def __init__(self, name, node, mod, bases, qual=None):
        self.name, self.node, self.mod, self.bases = name, node, mod, bases
        self.attrs = {}
        self.qual = qual or name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return '<class %s>' % self.name


class ModV:
    __slots__ = ('name', 'tree', 'path', 'attrs', 'src')

    def __init__(self, name, path=None, tree=None):
        self.name, self.path, self.tree = name, path, tree
        self.attrs = {}

    def __repr__(self):
        return '<module %s>' % self.name


class Ext:
    """external (modelled or unmodelled) python object addressed by dotted name, e.g. torch.nn.functional"""
    __slots__ = ('name',)
    _c = {}

    def __new__(cls, name):
        d = cls._c.get(name)
        if d is None:
            d = object.__new__(cls)
            d.name = name
            cls._c[name] = d
        return d

    def __repr__(self):
        return '<ext %s>' % self.name


class Prim:
    """modelled callable"""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<prim %s>' % self.name


class Super:
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class Rec:
    """result of a recursive call that is not unfolded"""
    __slots__ = ('fn', 'args', 'kwargs')

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs)

    def __repr__(self):
        return 'Rec(%s, %r, %r)' % (self.fn.name, self.args, self.kwargs)


class FirstOf:
    """the value of v at the first element of a symbolic sequence for which cond holds"""
    __slots__ = ('var', 'n', 'dom', 'cond', 'v')

    def __init__(self, var, n, dom, cond, v):
        self.var, self.n, self.dom, self.cond, self.v = var, n, dom, cond, v

    def __repr__(self):
        return 'FirstOf(%s in %s | %s : %r)' % (self.var, self.dom, T.show(self.cond), self.v)


class Slice:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def dim(x):
    """normalise a dimension: python int or Term"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Num):
        x = x.t
    if isinstance(x, Term):
        if x.op == 'num' and x.args[0].denominator == 1:
            return int(x.args[0])
        return x
    raise Giveup('dimension %r' % (x,))


def dterm(d):
    return d if isinstance(d, Term) else num(d)


def dval(d):
    """dimension as python-level value"""
    return Num(d, 'i') if isinstance(d, Term) else d


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return T.nf_same(dterm(a), dterm(b))
