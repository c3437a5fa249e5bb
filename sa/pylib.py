"""Models of Python builtins, containers and the small part of the standard library the analysed code uses."""
import math
import operator
import os
import re
from . import terms as T
from .terms import Term, num, TRUE, FALSE
from .values import *
from . import torchlib as tl

BUILTINS = {}
PRIMS = {}      # dotted external name -> f(I, args, kwargs, node)
CONSTS = {
    'torch.nan': math.nan, 'torch.inf': math.inf, 'torch.pi': math.pi, 'torch.e': math.e,
    'math.pi': math.pi, 'math.inf': math.inf, 'math.nan': math.nan, 'math.e': math.e, 'math.tau': 2 * math.pi,
    'numpy.pi': math.pi, 'numpy.inf': math.inf, 'numpy.nan': math.nan, 'numpy.newaxis': None,
    'torch.float32': F32, 'torch.float': F32, 'torch.float64': F64, 'torch.double': F64, 'torch.long': I64, 'torch.int64': I64,
    'torch.int': DT('int32'), 'torch.int32': DT('int32'), 'torch.bool': BOOL, 'torch.uint8': DT('uint8'),
    'torch.half': DT('float16'), 'torch.float16': DT('float16'), 'torch.bfloat16': DT('bfloat16'),
    'numpy.float32': F32, 'numpy.float64': F64, 'numpy.int64': I64, 'numpy.bool_': BOOL,
    'torch.__version__': '2.15.0', 'sys.version_info': (3, 12, 3), 'sys.maxsize': 2 ** 63 - 1,
    'torch.finfo': None,
}
del CONSTS['torch.finfo']
IOPS = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
        'Mod': operator.mod, 'Pow': operator.pow, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
        'LShift': operator.lshift, 'RShift': operator.rshift}


def nt():
    from . import interp
    return interp


def pyop(op, a, b):
    f = IOPS.get(op)
    if f is None:
        raise TypeError(op)
    return f(a, b)


def lifted(f):
    """resolve Gamma / Unknown in every positional argument"""
    def g(I, args, kwargs, node):
        args = list(args)
        for j, a in enumerate(args):
            a = I.resolve(a)
            if isinstance(a, Unknown):
                return a
            if isinstance(a, Gamma):
                return I.lift(a, lambda x: g(I, args[:j] + [x] + args[j + 1:], kwargs, node))
            args[j] = a
        kwargs = {k: I.resolve(v) for k, v in kwargs.items()}
        return f(I, args, kwargs, node)
    return g


def builtin(*names):
    def deco(f):
        g = lifted(f)
        for n in names:
            BUILTINS[n] = Prim(n, g)
        return f
    return deco


def prim(*names):
    def deco(f):
        g = lifted(f)
        for n in names:
            PRIMS[n] = g
        return f
    return deco


# ------------------------------------------------------------------ membership, indexing
def contains(I, a, b, node):
    """bool or Term"""
    interp = nt()
    a, b = I.resolve(a), I.resolve(b)
    if isinstance(b, Gamma):
        x, y = contains(I, a, b.a, node), contains(I, a, b.b, node)
        return T.ite(b.c, interp.bterm(x), interp.bterm(y))
    if isinstance(a, Gamma):
        x, y = contains(I, a.a, b, node), contains(I, a.b, b, node)
        return T.ite(a.c, interp.bterm(x), interp.bterm(y))
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return T.unknown((a if isinstance(a, Unknown) else b).reason, 'B')
    if isinstance(b, str) and isinstance(a, str):
        return a in b
    if isinstance(b, (str, SStr)):
        return T.unknown('substring test', 'B')
    if isinstance(b, DictV):
        r = FALSE
        for it in I.get(b.id)[1]:
            if it[0] != 'item':
                return T.unknown('membership in symbolic dict', 'B')
            e = I.equals(a, it[1])
            if e is None:
                return T.unknown('membership', 'B')
            c = interp.bterm(e)
            if isinstance(it[2], interp.Maybe):
                c = T.and_(c, it[2].c)
            r = T.or_(r, c)
        return interp.unb(r)
    if isinstance(b, ClassV) or b is None:
        raise AbsRaise('TypeError', node)
    segs = I.iter_segs(b)
    if segs is None:
        if isinstance(b, Obj) and b.cls.lookup('__contains__'):
            return I.truth(I.call(Bound(b.cls.lookup('__contains__'), b), [a], {}, node))
        return T.unknown('membership in %s' % type(b).__name__, 'B')
    r = FALSE
    for s in segs:
        if s.kind != 'item':
            return T.unknown('membership in symbolic sequence', 'B')
        if isinstance(a, Tensor) or isinstance(s.v, Tensor):
            v = I.compare('Eq', a, s.v, node)
            e = I.truth(v, node)
        else:
            e = I.equals(a, s.v)
        if e is None:
            return T.unknown('membership', 'B')
        r = T.or_(r, T.and_(s.cond, interp.bterm(e)))
    return interp.unb(r)


def _index(I, k, node):
    """python index value: int, Num or Slice; tensors of one element are converted"""
    if isinstance(k, Tensor):
        I.event('item', node, tensor=k)
        k = tl.item(I, k, node)
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, Num) and k.t.op == 'num' and k.t.args[0].denominator == 1:
        return int(k.t.args[0])
    return k


def getitem(I, o, k, node):
    interp = nt()
    if isinstance(o, DictV):
        if isinstance(k, Tensor) and k.kind == 'numpy' and not k.shape:
            k = tl.item(I, k, node)  # numpy scalars hash and compare like numbers
        if isinstance(k, (Tensor, ListV, DictV)):
            raise AbsRaise('KeyError' if isinstance(k, Tensor) else 'TypeError', node)
        items = I.get(o.id)[1]
        cases = []
        for it in items:
            if it[0] != 'item':
                return I.unk('symbolic dict lookup')
            e = I.equals(k, it[1])
            if e is None:
                return I.unk('dict key comparison')
            v = it[2]
            c = interp.bterm(e)
            if isinstance(v, interp.Maybe):
                c = T.and_(c, v.c)
                v = v.v
            d = I.decide(c)
            if d is True:
                return v
            if d is None:
                cases.append((c, v))
        if not cases and o.factory is not None:
            v = I.call(o.factory, [], {}, node)
            setitem(I, o, k, v, node)
            return v
        return _cases(I, cases, 'KeyError', node)
    if isinstance(o, ListV) and o.kind == 'set':
        raise AbsRaise('TypeError', node)
    if isinstance(o, (tuple, ListV, SymSeq, str, range)):
        k = _index(I, k, node)
        if isinstance(k, (str, type(None), tuple, float)):
            raise AbsRaise('TypeError', node)
        vals = I.concrete_list(o)
        if isinstance(k, Slice):
            lo, hi, st = (_index(I, I.resolve(x), node) if x is not None else None for x in (k.lo, k.hi, k.step))
            if vals is None or not all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return I.unk('slice of symbolic list')
            r = vals[slice(lo, hi, st)]
            if isinstance(o, tuple):
                return tuple(r)
            if isinstance(o, str):
                return ''.join(r)
            return I.list_of(r)
        if isinstance(k, int):
            if vals is None:
                segs = I.iter_segs(o)
                if segs and all(s.kind == 'item' and s.cond is TRUE for s in segs[:k + 1 if k >= 0 else None]) and k >= 0 and k < len(segs):
                    return segs[k].v
                if segs and k < 0 and all(s.kind == 'item' and s.cond is TRUE for s in segs[k:]) and -k <= len(segs):
                    return segs[k].v
                if segs and all(s.kind == 'item' for s in segs):
                    return _cond_index(I, segs, k, node)
                if segs and len(segs) == 1 and segs[0].kind == 'map' and segs[0].cond is TRUE:
                    return _inst(I, segs[0], num(k) if k >= 0 else T.add(segs[0].n, num(k)))
                return I.unk('index into symbolic list')
            if not -len(vals) <= k < len(vals):
                raise AbsRaise('IndexError', node)
            return vals[k]
        if isinstance(k, Num):
            if vals is None:
                return I.unk('index into symbolic list')
            return _cases(I, [(T.eq(k.t, num(j)), v) for j, v in enumerate(vals)], 'IndexError', node)
        return I.unk('index %s' % type(k).__name__)
    if isinstance(o, SStr):
        return I.unk('index of symbolic string')
    if isinstance(o, (Ext, Prim, FuncV)):
        return o       # typing generics
    if isinstance(o, ClassV):
        return o
    if isinstance(o, (int, float, bool, type(None), Num, SBool, Obj, DT)):
        raise AbsRaise('TypeError', node)
    return I.unk('getitem of %s' % type(o).__name__)


def _inst(I, seg, i):
    return subst_value(I, seg.v, {seg.var.id: i})


def subst_value(I, v, m):
    if isinstance(v, Num):
        return Num(T.subst(v.t, m), v.kind)
    if isinstance(v, SBool):
        return nt().mkbool(T.subst(v.t, m))
    if isinstance(v, SStr):
        return SStr(T.subst(v.t, m))
    if isinstance(v, tuple):
        return tuple(subst_value(I, x, m) for x in v)
    if isinstance(v, Tensor):
        r = I.reader(v)
        t = I.tensor(v.shape, lambda idx: T.subst(r(idx), m), v.dtype, v.device, v.gdep, v.kind)
        return t
    if isinstance(v, (int, float, str, type(None))):
        return v
    return I.unk('instance of symbolic element')


def _cond_index(I, segs, k, node):
    """k-th element of a list of conditionally present items"""
    if k < 0:
        segs, k = list(reversed(segs)), -k - 1

    def go(j, k):
        if j == len(segs):
            raise AbsRaise('IndexError', node)
        s = segs[j]
        if s.cond is TRUE:
            return s.v if k == 0 else go(j + 1, k - 1)
        return I.branch(s.cond, lambda: s.v if k == 0 else go(j + 1, k - 1), lambda: go(j + 1, k), node)
    return go(0, k)


def _cases(I, cases, exc, node):
    def go(j):
        if j == len(cases):
            raise AbsRaise(exc, node)
        return I.branch(cases[j][0], lambda: cases[j][1], lambda: go(j + 1), node)
    return go(0)


def setitem(I, o, k, v, node):
    interp = nt()
    if isinstance(o, DictV):
        items = list(I.get(o.id)[1])
        for j, it in enumerate(items):
            if it[0] != 'item':
                continue
            e = I.equals(k, it[1])
            if e is True:
                items[j] = ('item', it[1], v)
                I.put(o.id, ('D', tuple(items)))
                return
            if e is not False:
                raise Giveup('symbolic dict key')
        items.append(('item', k, v))
        I.put(o.id, ('D', tuple(items)))
        return
    if isinstance(o, ListV):
        k = _index(I, k, node)
        segs = list(I.segs(o))
        if isinstance(k, int) and all(s.kind == 'item' and s.cond is TRUE for s in segs):
            if not -len(segs) <= k < len(segs):
                raise AbsRaise('IndexError', node)
            segs[k] = Seg('item', v=v)
            I.put(o.id, ('L', tuple(segs)))
            return
        if isinstance(k, Slice):
            vals, new = I.concrete_list(o), I.concrete_list(v)
            lo, hi, st = k.lo, k.hi, k.step
            if vals is not None and new is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                vals[slice(lo, hi, st)] = new
                I.put(o.id, ('L', tuple(Seg('item', v=x) for x in vals)))
                return
        raise Giveup('list item assignment')
    if isinstance(o, (tuple, str, int, float, type(None), Num)):
        raise AbsRaise('TypeError', node)
    if isinstance(o, Obj) and o.cls.lookup('__setitem__'):
        I.call(Bound(o.cls.lookup('__setitem__'), o), [k, v], {}, node)
        return
    if hasattr(o, 'setitem'):
        o.setitem(I, k, v, node)
        return
    raise Giveup('setitem on %s' % type(o).__name__)


# ------------------------------------------------------------------ methods of python values
def M(name):
    def deco(f):
        g = lifted(f)
        return g
    return deco


def _l_append(I, a, k, n):
    I.put(a[0].id, ('L', I.segs(a[0]) + (Seg('item', v=a[1]),)))


def _need_segs(I, v, what):
    s = I.iter_segs(v)
    if s is None:
        raise Giveup(what)
    return s


def _l_extend(I, a, k, n):
    v = a[1]
    if isinstance(v, nt().GenResult):
        s = list(v.segs)
    else:
        s = _need_segs(I, v, 'extend with %s' % type(v).__name__)
    I.put(a[0].id, ('L', I.segs(a[0]) + tuple(s)))


def _conc(I, l, what):
    c = I.concrete_list(l)
    if c is None:
        raise Giveup(what)
    return c


def _setl(I, l, vals):
    I.put(l.id, ('L', tuple(Seg('item', v=x) for x in vals)))


def _l_insert(I, a, k, n):
    c = _conc(I, a[0], 'insert')
    if not isinstance(a[1], int):
        raise Giveup('insert index')
    c.insert(a[1], a[2])
    _setl(I, a[0], c)


def _l_pop(I, a, k, n):
    i = a[1] if len(a) > 1 else -1
    c = I.concrete_list(a[0])
    if c is None:
        segs = list(I.segs(a[0]))
        if isinstance(i, int) and segs and segs[i].kind == 'item' and segs[i].cond is TRUE and i in (0, -1):
            v = segs.pop(i).v
            I.put(a[0].id, ('L', tuple(segs)))
            return v
        raise Giveup('pop from a conditional list')
    if not c or not isinstance(i, int) or not -len(c) <= i < len(c):
        raise AbsRaise('IndexError', n)
    v = c.pop(i)
    _setl(I, a[0], c)
    return v


def _l_index(I, a, k, n):
    c = I.concrete_list(a[0])
    if c is None:
        return I.unk('index in symbolic list')
    cases = []
    for j, x in enumerate(c):
        e = I.equals(a[1], x)
        if e is True:
            cases.append((True, j))
            break
        if e is None:
            return I.unk('list.index comparison')
        if e is not False:
            cases.append((e, j))
    return _cases(I, cases, 'ValueError', n)


def _l_remove(I, a, k, n):
    c = _conc(I, a[0], 'remove')
    for j, x in enumerate(c):
        e = I.equals(a[1], x)
        if e is True:
            del c[j]
            _setl(I, a[0], c)
            return
        if e is not False:
            raise Giveup('list.remove comparison')
    raise AbsRaise('ValueError', n)


def _l_count(I, a, k, n):
    c = _conc(I, a[0], 'count')
    r = [I.equals(a[1], x) for x in c]
    if any(x not in (True, False) for x in r):
        return I.unk('count')
    return sum(r)


def _l_sort(I, a, k, n):
    r = b_sorted(I, [a[0]], k, n)
    if isinstance(r, Unknown):
        raise Giveup('sort')
    I.put(a[0].id, I.get(r.id))


def _s_add(I, a, k, n):
    for s in I.segs(a[0]):
        e = I.equals(a[1], s.v) if s.kind == 'item' and s.cond is TRUE else None
        if e is True:
            return
        if e is not False:
            raise Giveup('set add')
    _l_append(I, a, k, n)


def _s_update(I, a, k, n):
    for o in a[1:]:
        for x in _conc(I, o, 'set update'):
            _s_add(I, [a[0], x], {}, n)


def _s_discard(I, a, k, n):
    try:
        _l_remove(I, a, k, n)
    except AbsRaise:
        pass


def _setop(which):
    def f(I, a, k, n):
        x, y = _conc(I, a[0], 'set op'), _conc(I, a[1], 'set op')

        def mem(v, l):
            r = [I.equals(v, w) for w in l]
            if any(q not in (True, False) for q in r):
                raise Giveup('set comparison')
            return any(r)
        if which == 'union':
            return I.list_of(x + [v for v in y if not mem(v, x)], 'set')
        if which == 'intersection':
            return I.list_of([v for v in x if mem(v, y)], 'set')
        if which == 'difference':
            return I.list_of([v for v in x if not mem(v, y)], 'set')
        if which == 'issubset':
            return all(mem(v, y) for v in x)
        if which == 'issuperset':
            return all(mem(v, x) for v in y)
    return f


def _l_reverse(I, a, k, n):
    I.put(a[0].id, ('L', tuple(reversed(I.segs(a[0])))))


def _l_copy(I, a, k, n):
    return I.new_list(I.segs(a[0]), a[0].kind)


def _l_clear(I, a, k, n):
    I.put(a[0].id, ('L', ()))


LIST = {
    'append': _l_append, 'extend': _l_extend, 'insert': _l_insert, 'pop': _l_pop, 'index': _l_index, 'remove': _l_remove,
    'count': _l_count, 'sort': _l_sort, 'reverse': _l_reverse, 'copy': _l_copy, 'clear': _l_clear,
    'popleft': lambda I, a, k, n: _l_pop(I, [a[0], 0], k, n),
    'appendleft': lambda I, a, k, n: _l_insert(I, [a[0], 0, a[1]], k, n),
    '__len__': lambda I, a, k, n: I.length(a[0]),
    '__getitem__': lambda I, a, k, n: I.getitem(a[0], a[1], n),
    '__contains__': lambda I, a, k, n: nt().mkbool(nt().bterm(contains(I, a[1], a[0], n))),
}


def _arity(name, f, lo, hi):
    def g(I, a, k, n):
        if not lo <= len(a) - 1 + len(k) <= hi:
            raise AbsRaise('TypeError', n)
        return f(I, a, k, n)
    return g


for _nm, _lo, _hi in (('append', 1, 1), ('extend', 1, 1), ('insert', 2, 2), ('pop', 0, 1), ('index', 1, 3), ('remove', 1, 1), ('count', 1, 1), ('sort', 0, 2), ('reverse', 0, 0), ('copy', 0, 0),
                      ('clear', 0, 0), ('popleft', 0, 0), ('appendleft', 1, 1)):
    LIST[_nm] = _arity(_nm, LIST[_nm], _lo, _hi)
SET = dict(LIST, add=_s_add, update=_s_update, discard=_s_discard, remove=_l_remove,
           **{w: _setop(w) for w in ('union', 'intersection', 'difference', 'issubset', 'issuperset')})
TUPLE = {'index': _l_index, 'count': _l_count, '__len__': lambda I, a, k, n: len(a[0])}


def _ditems(I, d):
    items = I.get(d.id)[1]
    if any(it[0] != 'item' for it in items):
        raise Giveup('symbolic dict')
    return items


def _dseg(I, d, f):
    Maybe = nt().Maybe
    segs = []
    for it in _ditems(I, d):
        c, v = (it[2].c, it[2].v) if isinstance(it[2], Maybe) else (TRUE, it[2])
        segs.append(Seg('item', v=f(it[1], v), cond=c))
    return I.new_list(segs)


def _d_get(I, a, k, n):
    d = a[2] if len(a) > 2 else k.get('default')
    c = contains(I, a[1], a[0], n)
    return I.branch(c, lambda: getitem(I, a[0], a[1], n), lambda: d, n)


def _d_pop(I, a, k, n):
    items = list(_ditems(I, a[0]))
    for j, it in enumerate(items):
        e = I.equals(a[1], it[1])
        if e is True:
            if isinstance(it[2], nt().Maybe):
                raise Giveup('pop of conditional key')
            del items[j]
            I.put(a[0].id, ('D', tuple(items)))
            return it[2]
        if e is not False:
            raise Giveup('dict.pop key')
    if len(a) > 2:
        return a[2]
    raise AbsRaise('KeyError', n)


def _d_update(I, a, k, n):
    if len(a) > 1:
        if isinstance(a[1], DictV):
            for it in _ditems(I, a[1]):
                setitem(I, a[0], it[1], it[2], n)
        else:
            for p in _conc(I, a[1], 'dict.update'):
                kk, v = _conc(I, p, 'dict.update pair')
                setitem(I, a[0], kk, v, n)
    for kk, v in k.items():
        setitem(I, a[0], kk, v, n)


def _d_setdefault(I, a, k, n):
    c = contains(I, a[1], a[0], n)
    if c is True:
        return getitem(I, a[0], a[1], n)
    if c is False:
        setitem(I, a[0], a[1], a[2] if len(a) > 2 else None, n)
        return a[2] if len(a) > 2 else None
    raise Giveup('setdefault')


DICT = {
    'keys': lambda I, a, k, n: _dseg(I, a[0], lambda x, y: x),
    'values': lambda I, a, k, n: _dseg(I, a[0], lambda x, y: y),
    'items': lambda I, a, k, n: _dseg(I, a[0], lambda x, y: (x, y)),
    'get': _d_get, 'pop': _d_pop, 'update': _d_update, 'setdefault': _d_setdefault,
    'copy': lambda I, a, k, n: I.new_dict(I.get(a[0].id)[1]),
    'clear': lambda I, a, k, n: I.put(a[0].id, ('D', ())),
    '__contains__': lambda I, a, k, n: nt().mkbool(nt().bterm(contains(I, a[1], a[0], n))),
    '__len__': lambda I, a, k, n: I.length(a[0]),
    '__getitem__': lambda I, a, k, n: I.getitem(a[0], a[1], n),
}


def _str_method(name):
    def f(I, a, k, n):
        s = a[0]
        args = []
        for x in a[1:]:
            if isinstance(x, ListV) or isinstance(x, nt().GenResult):
                c = I.concrete_list(x) if isinstance(x, ListV) else None
                if c is None:
                    return SStr(T.unknown('str.%s' % name, 'S'))
                x = c
            args.append(x)
        if name == 'join':
            c = args[0]
            if all(isinstance(x, str) for x in c):
                return s.join(c)
            c = [I.resolve(x) for x in c]
            if all(isinstance(x, (str, SStr, nt().Text)) for x in c):
                ts = []
                for j, x in enumerate(c):
                    if j:
                        ts.append(s)
                    ts.append(x)
                return nt().text_of(ts)
            if any(isinstance(x, (Num, int, float, Obj)) or x is None for x in c):
                raise AbsRaise('TypeError', n)
            return SStr(T.unknown('join', 'S'))
        if name == 'format':
            flat = list(a[1:]) + list(k.values())
            if all(isinstance(x, (str, int, float, bool)) or x is None for x in flat):
                try:
                    return s.format(*a[1:], **k)
                except Exception:
                    raise AbsRaise('IndexError', n)
            ps = nt().format_pieces(s, [I.resolve(x) for x in a[1:]], {q: I.resolve(x) for q, x in k.items()})
            return SStr(T.unknown('format', 'S')) if ps is None else nt().text_of(ps)
        if all(isinstance(x, (str, int, float, tuple, type(None), list)) for x in args) and not any(isinstance(x, tuple) and not all(isinstance(q, str) for q in x) for x in args):
            try:
                r = getattr(s, name)(*args, **k)
            except ValueError:
                raise AbsRaise('ValueError', n)
            except TypeError:
                raise AbsRaise('TypeError', n)
            except IndexError:
                raise AbsRaise('IndexError', n)
            if isinstance(r, list):
                return I.list_of(r)
            return r
        if name in ('startswith', 'endswith', 'isdigit', 'islower', 'isupper'):
            return SBool(T.unknown('str.%s' % name, 'B'))
        return SStr(T.unknown('str.%s' % name, 'S'))
    return f


def py_attr(I, o, name, node):
    tab = None
    if isinstance(o, ListV):
        tab = SET if o.kind == 'set' else LIST
    elif isinstance(o, DictV):
        tab = DICT
    elif isinstance(o, tuple):
        if hasattr(o, '_fields') and name in getattr(o, '_fields'):
            return getattr(o, name)
        if isinstance(o, tl.MinMax) and name in ('values', 'indices'):
            return o[0] if name == 'values' else o[1]
        if name in ('U', 'S', 'Vh', 'V', 'eigenvalues', 'values', 'indices') and hasattr(o, name):
            return getattr(o, name)
        if hasattr(o, '_fields') and name == '_replace':
            return Prim('_replace', lambda I, a, k, n: o._replace(**k))
        if hasattr(o, '_fields') and name == '_asdict':
            return Prim('_asdict', lambda I, a, k, n: I.new_dict([('item', q, v) for q, v in zip(o._fields, o)]))
        if hasattr(o, '_fields') and name == '_fields':
            return tuple(o._fields)
        if name == 'numel':
            return Prim('numel', lambda I, a, k, n: nt().dval(tl.vdim(tl.prod_dims([dim(x) for x in o]))))
        tab = TUPLE
    elif isinstance(o, str):
        if hasattr(str, name):
            return Bound(Prim('str.' + name, lifted(_str_method(name))), o)
        raise AbsRaise('AttributeError', node)
    elif isinstance(o, SStr):
        if not hasattr(str, name):
            raise AbsRaise('AttributeError', node)
        if name in ('strip', 'lstrip', 'rstrip'):
            return Bound(Prim('str.' + name, lambda I, a, k, n: a[0]), o)
        if name == 'split' and isinstance(o, NumStr):
            return Prim('str.split', lambda I, a, k, n: I.list_of([o]))
        if name in ('startswith', 'endswith', 'isdigit', 'islower', 'isupper'):
            return Prim('str.' + name, lambda I, a, k, n: SBool(T.unknown('str.%s' % name, 'B')))
        return Prim('str.' + name, lambda I, a, k, n: SStr(T.unknown('str.%s' % name, 'S')))
    elif o is None:
        raise AbsRaise('AttributeError', node)
    elif isinstance(o, FuncV):
        if name == '__name__':
            return o.name
        if name == '__doc__':
            return ''
        if name in ('cache_clear',):
            return Prim('cache_clear', lambda I, a, k, n: _cache_clear(I, o))
        raise AbsRaise('AttributeError', node)
    elif isinstance(o, Bound):
        if name == '__self__':
            return o.self
        if name == '__func__':
            return o.fn
        if name == '__name__':
            return getattr(o.fn, 'name', '?')
        if name == 'cache_clear':
            return Prim('cache_clear', lambda I, a, k, n: _cache_clear(I, o.fn))
        raise AbsRaise('AttributeError', node)
    elif isinstance(o, DT):
        if name == 'is_floating_point':
            return o.cat == 2
        if name == 'itemsize':
            return I.unk('itemsize')
        raise AbsRaise('AttributeError', node)
    elif isinstance(o, Dev):
        if name == 'type':
            return o.name if not o.name.startswith('sym:') else I.unk('device type')
        if name == 'index':
            return None
        raise AbsRaise('AttributeError', node)
    elif isinstance(o, (int, float, Num, SBool, bool)):
        if name == 'is_integer':
            return Prim(name, lambda I, a, k, n: float(o).is_integer() if isinstance(o, (int, float)) else I.unk(name))
        if name in ('real',):
            return o
        if name in ('item',) :
            raise AbsRaise('AttributeError', node)
        raise AbsRaise('AttributeError', node)
    elif isinstance(o, SymSeq):
        tab = TUPLE
    elif isinstance(o, range):
        tab = TUPLE
    elif isinstance(o, nt().GenResult):
        return I.unk('attribute of generator')
    if tab is not None:
        if name in tab:
            f = tab[name]
            return Bound(Prim(type(o).__name__ + '.' + name, _lift_rest(f)), o)
        if name == '__class__':
            return {ListV: BUILTINS['list'], DictV: BUILTINS['dict']}.get(type(o), BUILTINS['tuple'])
        raise AbsRaise('AttributeError', node)
    return I.unk('attr %s' % name)


def _lift_rest(f):
    return lifted_self(f)


def lifted_self(f):
    """like lifted, but conditional values may be stored in containers as they are"""
    def g(I, args, kwargs, node):
        return f(I, [I.resolve(a) for a in args], {k: I.resolve(v) for k, v in kwargs.items()}, node)
    return g


def _cache_clear(I, f):
    for key in [k for k in I.st.heap if isinstance(k, tuple) and k[0] == 'lru' and k[1] == id(f.node)]:
        del I.st.heap[key]


# ------------------------------------------------------------------ builtins
@builtin('len')
def b_len(I, a, k, n):
    if isinstance(a[0], (int, float, Num, type(None), bool)):
        raise AbsRaise('TypeError', n)
    return I.length(a[0])


@builtin('print')
def b_print(I, a, k, n):
    I.event('print', n)
    return None


@builtin('id')
def b_id(I, a, k, n):
    return a[0].id if isinstance(a[0], (Obj, ListV, DictV)) else I.unk('id')


@builtin('hash')
def b_hash(I, a, k, n):
    return I.unk('hash')


@builtin('callable')
def b_callable(I, a, k, n):
    v = a[0]
    if isinstance(v, (FuncV, Bound, Prim, ClassV)):
        return True
    if isinstance(v, Obj):
        return v.cls.lookup('__call__') is not None
    if isinstance(v, (int, float, str, tuple, ListV, DictV, Tensor, type(None), Num)):
        return False
    return I.unk('callable')


@builtin('range')
def b_range(I, a, k, n):
    a = [_index(I, x, n) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(hi, (int, Num)) and lo == 0 and st == 1:
        t = nt().nterm(hi)
        v = T.fresh('i', rng=t)
        return SymSeq([Seg('map', v, t, TRUE, Num(v, 'i'))], 'range')
    if isinstance(hi, float) or isinstance(lo, float):
        raise AbsRaise('TypeError', n)
    return I.unk('range')


@builtin('enumerate')
def b_enumerate(I, a, k, n):
    st = a[1] if len(a) > 1 else k.get('start', 0)
    c = I.concrete_list(a[0])
    if c is not None and isinstance(st, int):
        return I.list_of([(j + st, x) for j, x in enumerate(c)])
    s = I.iter_segs(a[0])
    if s is not None and len(s) == 1 and s[0].kind == 'map' and s[0].cond is TRUE and st == 0:
        return SymSeq([Seg('map', s[0].var, s[0].n, TRUE, (Num(s[0].var, 'i'), s[0].v))], 'enumerate')
    if s is not None and all(x.kind == 'item' for x in s):
        out = []
        cnt = num(st) if isinstance(st, int) else st.t
        for x in s:
            out.append(Seg('item', v=(dval(cnt) if cnt.op != 'num' else int(cnt.args[0]), x.v), cond=x.cond))
            cnt = T.add(cnt, T.ite(x.cond, T.ONE, T.ZERO))
        return I.new_list(out)
    return I.unk('enumerate')


@builtin('zip')
def b_zip(I, a, k, n):
    cs = [I.concrete_list(x) for x in a]
    if all(c is not None for c in cs):
        return I.list_of([tuple(t) for t in zip(*cs)])
    return I.unk('zip of symbolic sequences')


@builtin('map')
def b_map(I, a, k, n):
    cs = [I.concrete_list(x) for x in a[1:]]
    if all(c is not None for c in cs):
        return I.list_of([I.call(a[0], list(t), {}, n) for t in zip(*cs)])
    return I.unk('map over symbolic sequence')


@builtin('filter')
def b_filter(I, a, k, n):
    s = I.iter_segs(a[1])
    if s is None or any(x.kind != 'item' for x in s):
        return I.unk('filter')
    out = []
    for x in s:
        c = I.truth(I.call(a[0], [x.v], {}, n) if a[0] is not None else x.v, n)
        c = nt().bterm(c)
        d = I.decide(c)
        if d is False:
            continue
        out.append(Seg('item', v=x.v, cond=x.cond if d else T.and_(x.cond, c)))
    return I.new_list(out)


@builtin('reversed')
def b_reversed(I, a, k, n):
    s = I.iter_segs(a[0])
    if s is None or any(x.kind != 'item' for x in s):
        return I.unk('reversed')
    return I.new_list(list(reversed(s)))


@builtin('iter')
def b_iter(I, a, k, n):
    s = I.iter_segs(a[0])
    if s is None:
        return I.unk('iter')
    return I.new_list(s, 'list')


@builtin('next')
def b_next(I, a, k, n):
    if isinstance(a[0], nt().GenResult):
        s = list(a[0].segs)
    else:
        s = I.iter_segs(a[0])
    if s is None or any(x.kind != 'item' for x in s):
        return I.unk('next')
    # a single use of an iterator over conditional items: first present one
    def go(j):
        if j == len(s):
            if len(a) > 1:
                return a[1]
            raise AbsRaise('StopIteration', n)
        if s[j].cond is TRUE:
            return s[j].v
        return I.branch(s[j].cond, lambda: s[j].v, lambda: go(j + 1), n)
    v = go(0)
    if isinstance(a[0], ListV) and s and s[0].cond is TRUE:
        I.put(a[0].id, ('L', tuple(s[1:])))
    return v


@builtin('list')
def b_list(I, a, k, n):
    if not a:
        return I.new_list(())
    if isinstance(a[0], nt().GenResult):
        return I.new_list(a[0].segs)
    s = I.iter_segs(a[0])
    if s is None:
        if isinstance(a[0], (int, float, type(None), Num)):
            raise AbsRaise('TypeError', n)
        if isinstance(a[0], DictV):
            return _dseg(I, a[0], lambda x, y: x)
        return I.unk('list()')
    return I.new_list(s)


@builtin('tuple')
def b_tuple(I, a, k, n):
    if not a:
        return ()
    c = I.concrete_list(a[0])
    if c is None:
        if isinstance(a[0], (int, float, type(None), Num)):
            raise AbsRaise('TypeError', n)
        s = I.iter_segs(a[0])
        return SymSeq(s, 'tuple') if s is not None else I.unk('tuple()')
    return tuple(c)


@builtin('set', 'frozenset')
def b_set(I, a, k, n):
    r = I.new_list((), 'set')
    if a:
        s = I.iter_segs(a[0])
        if s is None:
            return I.unk('set()')
        out = []
        for x in s:
            if x.kind != 'item' or x.cond is not TRUE:
                return I.new_list(s, 'set')
            es = [I.equals(x.v, y) for y in out]
            if any(e is True for e in es):
                continue
            if any(e is not False for e in es):
                return I.new_list(s, 'set')
            out.append(x.v)
        I.put(r.id, ('L', tuple(Seg('item', v=x) for x in out)))
    return r


def dict_fromkeys(I, a, k, n):
    ks = _conc(I, a[0], 'dict.fromkeys')
    if isinstance(ks, Unknown):
        return ks
    v = a[1] if len(a) > 1 else None
    return I.call(BUILTINS['dict'], [I.list_of([(x, v) for x in ks])], {}, n)


@builtin('dict')
def b_dict(I, a, k, n):
    d = I.new_dict(())
    if a:
        _d_update(I, [d, a[0]], {}, n)
    for kk, v in k.items():
        setitem(I, d, kk, v, n)
    return d


@builtin('int')
def b_int(I, a, k, n):
    v = a[0] if a else 0
    if isinstance(v, Tensor):
        I.event('item', n, tensor=v)
        v = tl.stopped(I, v, tl.item(I, v, n))
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise AbsRaise('ValueError', n)
    if isinstance(v, Num):
        return v if v.kind == 'i' else Num(T.fn('trunc', v.t), 'i')
    if isinstance(v, SBool):
        return Num(nt().nterm(v), 'i')
    return I.unk('int()')


@builtin('float')
def b_float(I, a, k, n):
    v = a[0] if a else 0.0
    if isinstance(v, Tensor):
        I.event('item', n, tensor=v)
        v = tl.stopped(I, v, tl.item(I, v, n))
    if isinstance(v, (int, float)):
        return float(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError:
            raise AbsRaise('ValueError', n)
    if isinstance(v, Num):
        return Num(v.t, 'f')
    if isinstance(v, NumStr):
        return Num(v.val, 'f')
    if isinstance(v, SStr):
        return I.unk('number in a text')
    if v is None or isinstance(v, (ListV, tuple, DictV)):
        raise AbsRaise('TypeError', n)
    return I.unk('float()')


@builtin('bool')
def b_bool(I, a, k, n):
    if not a:
        return False
    c = I.truth(a[0], n)
    return c if isinstance(c, bool) else nt().mkbool(c)


@builtin('repr')
def b_repr(I, a, k, n):
    v = I.resolve(a[0])
    if isinstance(v, (str, int, float)) or v is None:
        return repr(v)
    return b_str(I, a, k, n) if not isinstance(v, SStr) else I.unk('repr')


@builtin('str')
def b_str(I, a, k, n):
    if not a:
        return ''
    v = a[0]
    if isinstance(v, (str, SStr, nt().Text)):
        return v
    if isinstance(v, (int, float, bool)) or v is None:
        return str(v)
    if isinstance(v, Num):
        return nt().numtext(v)
    if isinstance(v, Obj):
        for nm in ('__str__', '__repr__'):
            f = v.cls.lookup(nm)
            if f is not None:
                return I.call(Bound(f, v), [], {}, n)
    if isinstance(v, Dev) and not v.name.startswith('sym:'):
        return v.name
    return SStr(T.unknown('str()', 'S'))


@builtin('abs')
def b_abs(I, a, k, n):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Num):
        return Num(T.fn('abs', v.t), v.kind)
    if isinstance(v, (Tensor, Masked)):
        return tl.FUNCS['torch.abs'](I, [v], {}, n)
    raise AbsRaise('TypeError', n)


@builtin('round')
def b_round(I, a, k, n):
    if isinstance(a[0], (int, float)):
        return round(*a)
    return I.unk('round')


@builtin('pow')
def b_pow(I, a, k, n):
    return I.binop('Pow', a[0], a[1], n)


@builtin('divmod')
def b_divmod(I, a, k, n):
    return (I.binop('FloorDiv', a[0], a[1], n), I.binop('Mod', a[0], a[1], n))


def _minmax(which):
    def f(I, a, k, n):
        vals = a
        if len(a) == 1:
            vals = I.concrete_list(a[0])
            if vals is None:
                return I.unk(which)
        if not vals:
            if 'default' in k:
                return k['default']
            raise AbsRaise('ValueError', n)
        key = k.get('key')
        keys = [I.call(key, [v], {}, n) for v in vals] if key is not None else list(vals)
        if all(isinstance(x, (int, float)) for x in keys) or all(isinstance(x, str) for x in keys) or \
                all(isinstance(x, tuple) and all(isinstance(y, (int, float, str)) for y in x) for x in keys):
            j = (max if which == 'max' else min)(range(len(keys)), key=lambda i: keys[i])
            if which == 'max':
                j = next(i for i in range(len(keys)) if keys[i] == keys[j])
            return vals[j]
        if any(x is None for x in keys):
            raise AbsRaise('TypeError', n)
        cur, ck = vals[0], keys[0]
        for v, kk in zip(vals[1:], keys[1:]):
            c = I.truth(I.compare('Gt' if which == 'max' else 'Lt', kk, ck, n), n)
            pc, pk = cur, ck
            cur = I.branch(c, lambda: v, lambda: pc, n)
            ck = I.branch(c, lambda: kk, lambda: pk, n)
        return cur
    return f


BUILTINS['max'] = Prim('max', lifted(_minmax('max')))
BUILTINS['min'] = Prim('min', lifted(_minmax('min')))


@builtin('sum')
def b_sum(I, a, k, n):
    v = I.concrete_list(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    if v is None:
        s = I.iter_segs(a[0])
        if s is not None and all(x.kind == 'item' for x in s):
            for x in s:
                prev = st
                st = I.branch(x.cond, lambda: I.binop('Add', prev, x.v, n), lambda: prev, n)
            return st
        return I.unk('sum')
    for x in v:
        st = I.binop('Add', st, x, n)
    return st


def _anyall(which):
    def f(I, a, k, n):
        s = I.iter_segs(a[0]) if not isinstance(a[0], nt().GenResult) else a[0].segs
        if s is None:
            return I.unk(which)
        r = FALSE if which == 'any' else TRUE
        for x in s:
            if x.kind == 'map':
                b = nt().bterm(I.truth(x.v, n))
                r = T.or_(r, T.exists(x.var, x.n, T.and_(x.cond, b))) if which == 'any' else T.and_(r, T.forall(x.var, x.n, T.or_(T.not_(x.cond), b)))
                continue
            if x.kind != 'item':
                return I.unk(which)
            b = nt().bterm(I.truth(x.v, n))
            r = T.or_(r, T.and_(x.cond, b)) if which == 'any' else T.and_(r, T.or_(T.not_(x.cond), b))
        return nt().mkbool(r)
    return f


BUILTINS['any'] = Prim('any', lifted(_anyall('any')))
BUILTINS['all'] = Prim('all', lifted(_anyall('all')))


@builtin('sorted')
def b_sorted(I, a, k, n):
    v = I.concrete_list(a[0])
    if v is None:
        return I.unk('sorted')
    key = k.get('key')
    keys = [I.call(key, [x], {}, n) for x in v] if key is not None else v
    rev = k.get('reverse', False)

    def simple(x):
        return isinstance(x, (int, float, str)) or isinstance(x, tuple) and all(simple(y) for y in x)
    if all(simple(x) for x in keys) and isinstance(rev, bool):
        try:
            order = sorted(range(len(v)), key=lambda i: keys[i], reverse=rev)
        except TypeError:
            raise AbsRaise('TypeError', n)
        return I.list_of([v[i] for i in order])
    return I.unk('sorted of symbolic values')


def type_of(I, v):
    if isinstance(v, Obj):
        return v.cls
    for cl, nm in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (tuple, 'tuple'), (DictV, 'dict'), (SStr, 'str'), (SBool, 'bool'), (range, 'range')):
        if isinstance(v, cl):
            return BUILTINS.get(nm) or Ext('builtins.' + nm)
    if isinstance(v, ListV):
        return BUILTINS['set' if v.kind == 'set' else 'list']
    if isinstance(v, Num):
        return BUILTINS['int' if v.kind == 'i' else 'float']
    if isinstance(v, Tensor):
        return Ext('torch.Tensor' if v.kind == 'torch' else 'numpy.ndarray')
    if v is None:
        return Ext('builtins.NoneType')
    return None


@builtin('type')
def b_type(I, a, k, n):
    t = type_of(I, a[0])
    return t if t is not None else I.unk('type()')


def isinst(I, v, c):
    """True/False/None"""
    if isinstance(c, (tuple, ListV)):
        rs = [isinst(I, v, x) for x in (c if isinstance(c, tuple) else I.concrete_list(c))]
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    nm = c.name if isinstance(c, (Prim, Ext)) else None
    if nm is not None:
        nm = nm.replace('builtins.', '')
    if isinstance(v, nt().Custom):
        pt = getattr(v, 'pytype', None)
        if nm == 'lxml.etree._Comment':
            return bool(getattr(v, 'comment', False))
        if nm == 'lxml.etree._Element':
            return hasattr(v, 'comment')
        return None if pt is None and nm != 'str' else nm == pt
    if isinstance(c, ClassV):
        if isinstance(v, Obj):
            return v.cls.issub(c)
        if isinstance(v, (Sym, Unknown, Rec)):
            return None
        return False
    if isinstance(v, Obj):
        # external bases
        for b in v.cls.mro():
            for e in b.bases:
                if isinstance(e, Ext) and e.name == nm:
                    return True
        return nm == 'object'
    if nm in ('torch.Tensor', 'torch.FloatTensor', 'torch.DoubleTensor'):
        return isinstance(v, Masked) or isinstance(v, Tensor) and v.kind == 'torch'
    if nm == 'numpy.ndarray':
        return isinstance(v, Tensor) and v.kind == 'numpy'
    if nm in ('int', 'numbers.Integral'):
        return isinstance(v, (int, SBool)) or isinstance(v, Num) and v.kind == 'i'
    if nm in ('float',):
        return isinstance(v, float) or isinstance(v, Num) and v.kind == 'f'
    if nm in ('numbers.Number', 'numbers.Real'):
        return isinstance(v, (int, float, Num, SBool))
    if nm in ('numpy.number', 'numpy.floating', 'numpy.integer', 'numpy.generic'):
        return False
    if nm == 'bool':
        return isinstance(v, (bool, SBool))
    if nm == 'str':
        return isinstance(v, (str, SStr))
    if nm == 'list':
        return isinstance(v, ListV) and v.kind == 'list'
    if nm in ('set', 'frozenset'):
        return isinstance(v, ListV) and v.kind == 'set'
    if nm == 'tuple':
        return isinstance(v, tuple)
    if nm == 'dict':
        return isinstance(v, DictV)
    if nm == 'range':
        return isinstance(v, range)
    if nm in ('typing.Sequence', 'collections.abc.Sequence'):
        return isinstance(v, (tuple, str, SStr, range)) or isinstance(v, ListV) and v.kind == 'list'
    if nm in ('typing.Iterable', 'collections.abc.Iterable'):
        return isinstance(v, (tuple, str, SStr, ListV, DictV, range, Tensor))
    if nm in ('typing.Mapping', 'collections.abc.Mapping', 'typing.Dict'):
        return isinstance(v, DictV)
    if nm in ('typing.Callable', 'collections.abc.Callable'):
        return isinstance(v, (FuncV, Bound, Prim))
    if nm == 'torch.dtype':
        return isinstance(v, DT)
    if nm == 'torch.device':
        return isinstance(v, Dev)
    if nm == 'NoneType':
        return v is None
    if nm == 'object':
        return True
    if isinstance(v, (int, float, str, tuple, type(None), ListV, DictV, Tensor, Num, SStr, SBool)):
        return False
    return None


@builtin('isinstance')
def b_isinstance(I, a, k, n):
    if isinstance(a[0], Unknown):
        return I.unk('isinstance of unknown')
    r = isinst(I, a[0], a[1])
    return I.unk('isinstance') if r is None else r


@builtin('issubclass')
def b_issubclass(I, a, k, n):
    if isinstance(a[0], ClassV) and isinstance(a[1], ClassV):
        return a[0].issub(a[1])
    if isinstance(a[0], Prim) and isinstance(a[1], ClassV):
        return False
    if isinstance(a[0], Obj):
        raise AbsRaise('TypeError', n)
    return I.unk('issubclass')


def b_getattr(I, a, k, n):
    name = I.resolve(a[1])
    if not isinstance(name, str):
        return I.unk('getattr with symbolic name')
    if len(a) < 3:
        return I.getattr(a[0], name, n)

    def one(o):
        o = I.resolve(o)
        if isinstance(o, Gamma):
            return I.lift(o, one)
        try:
            return I.getattr(o, name, n)
        except AbsRaise as e:
            if e.exc != 'AttributeError':
                raise
            return a[2]
    return one(a[0])


BUILTINS['getattr'] = Prim('getattr', b_getattr)


@builtin('hasattr')
def b_hasattr(I, a, k, n):
    try:
        v = I.getattr(a[0], a[1], n)
    except AbsRaise as e:
        if e.exc != 'AttributeError':
            raise
        return False
    if isinstance(v, Unknown):
        return I.unk('hasattr')
    return True


def b_setattr(I, a, k, n):
    name = I.resolve(a[1])
    if not isinstance(name, str):
        raise Giveup('setattr with symbolic name')
    I.setattr(a[0], name, a[2], n)


BUILTINS['setattr'] = Prim('setattr', b_setattr)


@builtin('delattr')
def b_delattr(I, a, k, n):
    raise Giveup('delattr')


@builtin('vars')
def b_vars(I, a, k, n):
    return I.getattr(a[0], '__dict__', n)


@builtin('slice')
def b_slice(I, a, k, n):
    a = list(a)
    return Slice(None, a[0], None) if len(a) == 1 else Slice(*(a + [None] * (3 - len(a))))


@builtin('ord', 'chr')
def b_ord(I, a, k, n):
    return I.unk('ord/chr') if not isinstance(a[0], (str, int)) else (ord(a[0]) if isinstance(a[0], str) else chr(a[0]))


@builtin('super')
def b_super(I, a, k, n):
    return Super(a[0], a[1])


@builtin('object')
def b_object(I, a, k, n):
    return I.unk('object()')


BUILTINS['staticmethod'] = Ext('builtins.staticmethod')
BUILTINS['classmethod'] = Ext('builtins.classmethod')


def b_property(I, a, k, n):
    a = list(a) + [None] * (2 - len(a))
    return PropV(k.get('fget', a[0]), k.get('fset', a[1]))


BUILTINS['property'] = Prim('property', b_property)
BUILTINS['object'] = Ext('builtins.object')
BUILTINS['NotImplemented'] = Ext('builtins.NotImplemented')
BUILTINS['Ellipsis'] = Ellipsis


# ------------------------------------------------------------------ external modules
def ext_attr(I, o, name):
    n = o.name + '.' + name
    x = getattr(I, 'ext', {}).get(n)
    if x is not None:
        return x
    if n in CONSTS:
        return CONSTS[n]
    return Ext(n)


NUMPY_ALIAS = {'concatenate': 'cat', 'linalg.norm': 'norm', 'radians': 'deg2rad', 'degrees': 'rad2deg', 'repeat': 'repeat_interleave', 'expand_dims': 'unsqueeze', 'linalg.inv': 'linalg.inv',
               'linalg.det': 'linalg.det', 'absolute': 'abs', 'add': 'add', 'power': 'pow', 'amax': 'amax', 'amin': 'amin', 'array_equal': 'equal'}
NUMPY_SAME = {'vstack', 'hstack', 'deg2rad', 'rad2deg', 'sign', 'diag', 'tile', 'squeeze', 'argmax', 'argmin', 'isclose', 'prod', 'empty', 'floor', 'ceil', 'square', 'flip', 'cumsum',
              'linalg.solve', 'hypot', 'multiply', 'subtract', 'divide', 'negative', 'logical_and', 'logical_or', 'logical_not', 'einsum', 'roll', 'tril', 'triu', 'kron', 'diff', 'count_nonzero',
              'tan', 'sinh', 'cosh', 'tanh', 'broadcast_to', 'empty_like', 'full_like', 'ravel', 'column_stack', 'dstack', 'round',
              'stack', 'concatenate', 'zeros', 'ones', 'eye', 'cos', 'sin', 'sqrt', 'arctan2', 'dot', 'matmul', 'cross', 'linspace', 'arange',
              'abs', 'clip', 'where', 'sum', 'mean', 'max', 'min', 'any', 'all', 'isnan', 'isfinite', 'zeros_like', 'ones_like', 'full', 'transpose', 'reshape', 'exp', 'log',
              'tan', 'arccos', 'arcsin', 'isinf', 'maximum', 'minimum', 'allclose', 'outer', 'trace'}


def isnumv(v):
    return nt().isnumv(v)


def _as_array(I, v, node):
    v = I.resolve(v)
    return tl.tensor_from(I, v, None, CPU, node, 'numpy') if isinstance(v, (ListV, tuple)) or isnumv(v) else v


def call_ext(I, f, args, kwargs, node):
    n = f.name
    x = getattr(I, 'ext', {}).get(n + '()')
    if x is not None:
        return x(I, args, kwargs, node)
    if n in PRIMS:
        return PRIMS[n](I, args, kwargs, node)
    if n in tl.FUNCS:
        return tl.FUNCS[n](I, args, kwargs, node)
    if n.startswith('torch.Tensor.'):
        m = n.split('.')[-1]
        return I.call(I.getattr(args[0], m, node), list(args[1:]), kwargs, node)
    if n.startswith('builtins.'):
        b = BUILTINS.get(n[9:])
        if isinstance(b, Prim):
            return b.f(I, args, kwargs, node)
        if n[9:] in nt().EXC_PARENTS:
            return I.unk('exception object')
    if n.startswith('numpy.'):
        m = n[6:]
        if m in ('float64', 'float32', 'int64', 'int32') and len(args) == 1 and not isinstance(I.resolve(args[0]), (ListV, tuple, Tensor)):
            return BUILTINS['float' if m.startswith('f') else 'int'].f(I, args, {}, node)
        if m in ('ndim', 'size') and len(args) == 1:
            args = [_as_array(I, args[0], node)] if not isnumv(I.resolve(args[0])) else args
            if isinstance(args[0], Tensor):
                return len(args[0].shape) if m == 'ndim' else I.call(I.getattr(args[0], 'numel', node), [], {}, node)
        if m == 'transpose' and len(args) == 1 and not kwargs:
            return I.getattr(_as_array(I, args[0], node), 'T', node)
        if m in NUMPY_SAME or m in NUMPY_ALIAS:
            g = tl.FUNCS.get('torch.' + NUMPY_ALIAS.get(m, m))
            if g is not None:
                if m not in ('stack', 'concatenate', 'vstack', 'hstack', 'column_stack', 'dstack', 'zeros', 'ones', 'empty', 'full', 'eye', 'einsum', 'linspace', 'arange', 'where') and args:
                    args = [_as_array(I, args[0], node) if isinstance(I.resolve(args[0]), (ListV, tuple)) else args[0]] + list(args[1:])
                    if m in ('cos', 'sin', 'sqrt', 'tan', 'exp', 'log', 'abs', 'absolute', 'sign', 'deg2rad', 'radians', 'degrees', 'rad2deg', 'floor', 'ceil', 'arccos', 'arcsin', 'arctan2', 'minimum',
                             'maximum', 'hypot', 'isclose', 'square', 'isfinite', 'isnan', 'clip') and any(isnumv(I.resolve(q)) for q in args[:2]) and not any(isinstance(I.resolve(q), (Tensor, Gamma, Unknown)) for q in args[:2]):
                        # scalars give scalars
                        r = g(I, [tl.tensor_from(I, I.resolve(q), F64, CPU, node, 'torch') if isnumv(I.resolve(q)) else q for q in args], kwargs, node)
                        return tl.item(I, r, node) if isinstance(r, Tensor) and not r.shape else r
                saved = I.default_dtype
                I.default_dtype = F64
                try:
                    kwargs = dict(kwargs)
                    if 'axis' in kwargs:
                        kwargs['dim'] = kwargs.pop('axis')
                    r = g(I, args, kwargs, node)
                finally:
                    I.default_dtype = saved
                if isinstance(r, Tensor):
                    r = Tensor(r.cell, r.shape, r.fwd, r.inv, r.dtype, r.device, r.gdep, r.alias, 'numpy')
                return r
    if n in ('math.prod', 'math.fsum'):
        out = kwargs.get('start', args[1] if len(args) > 1 else 1 if n == 'math.prod' else 0.0)
        for x in _conc(I, args[0], n):
            out = I.binop('Mult' if n == 'math.prod' else 'Add', out, x, node)
        return out
    if n.startswith('math.'):
        return math_fn(I, n[5:], args, node)
    r = I.unk('call of %s' % n)
    I.escape(args, kwargs, n)
    return r


MATH1 = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log',
         'fabs': 'abs', 'floor': 'floor', 'ceil': 'ceil'}


def math_fn(I, name, args, node):
    vals = []
    for a in args:
        a = I.resolve(a)
        if isinstance(a, Unknown):
            return a
        if isinstance(a, Gamma):
            return I.lift(a, lambda x: math_fn(I, name, [x if y is a else y for y in args], node))
        if isinstance(a, Tensor):
            I.event('item', node, tensor=a)
            a = tl.item(I, a, node)
        vals.append(a)
    if all(isinstance(a, (int, float)) for a in vals):
        try:
            return getattr(math, name)(*vals)
        except ValueError:
            raise AbsRaise('ValueError', node)
        except AttributeError:
            return I.unk('math.' + name)
    ts = [nt().nterm(a) for a in vals]
    if name in MATH1:
        return Num(T.fn(MATH1[name], ts[0]), 'i' if name in ('floor', 'ceil') else 'f')
    if name == 'atan2':
        return Num(T.fn('atan2', *ts))
    if name == 'radians':
        return Num(T.div(T.mul(ts[0], T.PI), num(180)))
    if name == 'degrees':
        return Num(T.div(T.mul(ts[0], num(180)), T.PI))
    if name == 'hypot':
        return Num(T.fn('sqrt', T.add(*[T.mul(t, t) for t in ts])))
    if name == 'isnan':
        return nt().mkbool(T.fn('isnan', ts[0], sort='B'))
    if name in ('isinf', 'isfinite'):
        return nt().mkbool(T.fn(name, ts[0], sort='B'))
    if name == 'pow' and isinstance(vals[1], int):
        return Num(T.pw(ts[0], vals[1]))
    return I.unk('math.' + name)


@prim('functools.reduce')
def p_reduce(I, a, k, n):
    v = I.concrete_list(a[1])
    if v is None:
        return I.unk('reduce over symbolic sequence')
    v = list(v)
    acc = a[2] if len(a) > 2 else (v.pop(0) if v else None)
    for x in v:
        acc = I.call(a[0], [acc, x], {}, n)
    return acc


@prim('functools.partial')
def p_partial(I, a, k, n):
    f, pre = a[0], list(a[1:])
    return Prim('partial', lambda I, b, kk, nn: I.call(f, pre + list(b), dict(k, **kk), nn))


@prim('functools.wraps')
def p_wraps(I, a, k, n):
    return Prim('wraps', lambda I, b, kk, nn: b[0])


@prim('collections.defaultdict')
def p_defaultdict(I, a, k, n):
    d = b_dict(I, a[1:], k, n)
    return DictV(d.id, a[0]) if isinstance(d, DictV) and a and a[0] is not None else d


def _operators():
    for nm, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'), ('pow', 'Pow'), ('matmul', 'MatMult'),
                   ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor'), ('iadd', 'Add'), ('concat', 'Add')):
        PRIMS['operator.' + nm] = (lambda o: lambda I, a, k, n: I.binop(o, a[0], a[1], n))(op)
    for nm, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'), ('is_', 'Is'), ('is_not', 'IsNot')):
        PRIMS['operator.' + nm] = (lambda o: lambda I, a, k, n: I.compare(o, a[0], a[1], n))(op)
    PRIMS['operator.neg'] = lambda I, a, k, n: I.binop('Mult', a[0], -1, n)
    PRIMS['operator.getitem'] = lambda I, a, k, n: I.getitem(a[0], a[1], n)
    PRIMS['operator.contains'] = lambda I, a, k, n: I.compare('In', a[1], a[0], n)
    PRIMS['operator.attrgetter'] = lambda I, a, k, n: Prim('attrgetter', lambda I, b, kk, nn: I.getattr(b[0], a[0], nn) if len(a) == 1 else tuple(I.getattr(b[0], q, nn) for q in a))
    PRIMS['operator.methodcaller'] = lambda I, a, k, n: Prim('methodcaller', lambda I, b, kk, nn: I.call(I.getattr(b[0], a[0], nn), list(a[1:]), dict(k), nn))
    import itertools
    for nm in ('permutations', 'combinations', 'combinations_with_replacement'):
        PRIMS['itertools.' + nm] = (lambda f: lambda I, a, k, n: I.list_of([tuple(x) for x in f(_conc(I, a[0], 'itertools'), *a[1:], **k)]))(getattr(itertools, nm))
    PRIMS['itertools.repeat'] = lambda I, a, k, n: I.list_of([a[0]] * a[1]) if len(a) > 1 and isinstance(a[1], int) else I.unk('itertools.repeat')
    PRIMS['itertools.islice'] = lambda I, a, k, n: I.list_of(list(itertools.islice(_conc(I, a[0], 'islice'), *a[1:])))
    PRIMS['itertools.zip_longest'] = lambda I, a, k, n: I.list_of([tuple(x) for x in itertools.zip_longest(*[_conc(I, y, 'zip_longest') for y in a], fillvalue=k.get('fillvalue'))])
    PRIMS['itertools.starmap'] = lambda I, a, k, n: I.list_of([I.call(a[0], _conc(I, x, 'starmap'), {}, n) for x in _conc(I, a[1], 'starmap')])
    PRIMS['itertools.pairwise'] = lambda I, a, k, n: I.list_of([tuple(x) for x in itertools.pairwise(_conc(I, a[0], 'pairwise'))])


_operators()


@prim('operator.itemgetter')
def p_itemgetter(I, a, k, n):
    if len(a) > 1:
        return Prim('itemgetter', lambda I, b, kk, nn: tuple(I.getitem(b[0], q, nn) for q in a))
    return Prim('itemgetter', lambda I, b, kk, nn: I.getitem(b[0], a[0], nn))


@prim('itertools.chain')
def p_chain(I, a, k, n):
    segs = []
    for x in a:
        segs += _need_segs(I, x, 'chain')
    return I.new_list(segs)


@prim('itertools.chain.from_iterable')
def p_chain2(I, a, k, n):
    return p_chain(I, _conc(I, a[0], 'chain'), k, n)


@prim('itertools.product')
def p_product(I, a, k, n):
    import itertools
    return I.list_of([tuple(x) for x in itertools.product(*[_conc(I, y, 'product') for y in a], repeat=k.get('repeat', 1))])


@prim('itertools.accumulate')
def p_accumulate(I, a, k, n):
    v = _conc(I, a[0], 'accumulate')
    out = []
    for x in v:
        out.append(x if not out else (I.call(a[1], [out[-1], x], {}, n) if len(a) > 1 else I.binop('Add', out[-1], x, n)))
    return I.list_of(out)


@prim('collections.deque')
def p_deque(I, a, k, n):
    return b_list(I, a[:1], {}, n)


@prim('collections.OrderedDict')
def p_od(I, a, k, n):
    return b_dict(I, a, k, n)


@prim('collections.namedtuple', 'typing.NamedTuple')
def p_nt(I, a, k, n):
    import collections
    fs = a[1].replace(',', ' ').split() if isinstance(a[1], str) else _conc(I, a[1], 'namedtuple')
    cl = collections.namedtuple('NT', fs)
    return Prim(a[0], lambda I, b, kk, nn: cl(*b, **kk))


@prim('copy.deepcopy')
def p_deepcopy(I, a, k, n):
    return deepcopy(I, a[0], {})


@prim('copy.copy')
def p_copy(I, a, k, n):
    v = a[0]
    if isinstance(v, Obj):
        return I.new_obj(v.cls, I.get(v.id)[1])
    if isinstance(v, ListV):
        return I.new_list(I.segs(v), v.kind)
    if isinstance(v, DictV):
        return I.new_dict(I.get(v.id)[1])
    if isinstance(v, nt().Custom) and hasattr(v, 'frozen'):
        return v.frozen(I).adopt()
    return v


def deepcopy(I, v, memo):
    Maybe = nt().Maybe
    v = I.resolve(v)
    if isinstance(v, Gamma):
        return Gamma(v.c, deepcopy(I, v.a, memo), deepcopy(I, v.b, memo))
    if isinstance(v, nt().Custom) and hasattr(v, 'frozen'):
        return v.frozen(I).adopt()
    if isinstance(v, (Obj, ListV, DictV)):
        key = (type(v).__name__, v.id)
        if key in memo:
            return memo[key]
        if isinstance(v, Obj):
            o = I.new_obj(v.cls)
            memo[key] = o
            d = I.get(v.id)[1]
            I.put(o.id, ('O', {kk: Maybe(x.c, deepcopy(I, x.v, memo)) if isinstance(x, Maybe) else deepcopy(I, x, memo) for kk, x in d.items()}))
            return o
        if isinstance(v, ListV):
            o = I.new_list((), v.kind)
            memo[key] = o
            I.put(o.id, ('L', tuple(Seg(s.kind, s.var, s.n, s.cond, deepcopy(I, s.v, memo) if s.kind == 'item' else s.v, s.dom) for s in I.segs(v))))
            return o
        o = I.new_dict(())
        memo[key] = o
        I.put(o.id, ('D', tuple((it[0], it[1], Maybe(it[2].c, deepcopy(I, it[2].v, memo)) if isinstance(it[2], Maybe) else deepcopy(I, it[2], memo)) if it[0] == 'item' else it
                                for it in I.get(v.id)[1])))
        return o
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v) if type(v) is tuple else v
    if isinstance(v, Tensor):
        key = ('T', v.cell)
        if key not in memo:
            # copies the storage; views keep their view relation
            i = I.newid()
            I.put(i, ('C', I.get(v.cell)[1]))
            I.cell_gdep[i] = I.cell_gdep.get(v.cell, frozenset())
            memo[key] = i
        i = memo[key]
        t = Tensor(i, v.shape, v.fwd, v.inv, v.dtype, v.device, v.gdep, frozenset([i]), v.kind)
        t.contig = v.contig
        return t
    return v


@prim('warnings.warn', 'warnings.filterwarnings', 'warnings.simplefilter')
def p_warn(I, a, k, n):
    I.event('warn', n)
    return None


@prim('logging.getLogger', 'logging.warning', 'logging.info', 'logging.debug')
def p_log(I, a, k, n):
    return I.unk('logging')


@prim('os.path.join', 'os.path.abspath', 'os.path.dirname', 'os.path.exists', 'os.path.expanduser', 'os.path.basename')
def p_path(I, a, k, n):
    return SStr(T.unknown('path', 'S'))


@prim('numpy.array', 'numpy.asarray')
def p_nparray(I, a, k, n):
    return tl.tensor_from(I, a[0], k.get('dtype'), None, n, 'numpy')


@prim('numpy.isscalar')
def p_isscalar(I, a, k, n):
    return isinstance(a[0], (int, float, str, Num, SStr))


@prim('torch.is_tensor')
def p_is_tensor(I, a, k, n):
    return isinstance(a[0], Masked) or isinstance(a[0], Tensor) and a[0].kind == 'torch'


@prim('torch.finfo', 'numpy.finfo')
def p_finfo(I, a, k, n):
    nm = a[0].name if a and isinstance(a[0], DT) else 'float32'
    eps = {'float32': 1.1920928955078125e-07, 'float64': 2.220446049250313e-16}.get(nm)
    tiny = {'float32': 1.1754943508222875e-38, 'float64': 2.2250738585072014e-308}.get(nm)

    class Fi(nt().Custom):
        def getattr(self, I, name, node):
            if name == 'eps':
                return eps if eps is not None else Num(T.atom('eps(%s)' % nm), 'f')
            if name in ('tiny', 'smallest_normal'):
                return tiny if tiny is not None else Num(T.atom('tiny(%s)' % nm), 'f')
            return I.unk('finfo.' + name)
    return Fi()


@prim('arm_pytorch_utilities.linalg.batch_batch_product')
def p_bbp(I, a, k, n):
    return tl.FUNCS['torch.einsum'](I, ['ijk,ik->ij', a[1], a[0]], {}, n)


@prim('typing.TypeVar', 'typing.cast')
def p_typing(I, a, k, n):
    return a[-1] if len(a) > 1 else None


@prim('time.time', 'time.perf_counter')
def p_time(I, a, k, n):
    return Num(T.fresh('time'), 'f')
