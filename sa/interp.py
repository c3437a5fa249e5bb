"""Abstract interpreter over Python ASTs producing the gated value graph."""
import ast
import os
import itertools
from fractions import Fraction
from . import terms as T
from .terms import Term, num, TRUE, FALSE
from .values import *

REPO_SRC = os.environ.get('SA_REPO_SRC', '/repo/src')
PKG = 'pytorch_kinematics'
OPAQUE_MODULES = ()



class _Subst(ast.NodeTransformer):
    """a name replaced by an expression"""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return self.value if n.id == self.name else n


class State:
    __slots__ = ('heap', 'guard', 'facts', 'dead')

    def __init__(self, heap, guard, facts, dead=None):
        self.heap, self.guard, self.facts, self.dead = heap, guard, facts, dead

    def copy(self):
        return State(dict(self.heap), self.guard, self.facts, self.dead)


class Frame:
    def __init__(self, fn, env):
        self.fn, self.env = fn, env
        self.returns = []
        self.yields = None
        self.loops = []


class LoopCtx:
    def __init__(self):
        self.breaks = []
        self.conts = []


class TryCtx:
    def __init__(self, names):
        self.names = names
        self.pending = []


EXC_PARENTS = {
    'KeyError': ('LookupError', 'Exception'), 'IndexError': ('LookupError', 'Exception'),
    'ValueError': ('Exception',), 'TypeError': ('Exception',), 'AttributeError': ('Exception',),
    'NotImplementedError': ('RuntimeError', 'Exception'), 'RuntimeError': ('Exception',),
    'ImportError': ('Exception',), 'ModuleNotFoundError': ('ImportError', 'Exception'), 'AssertionError': ('Exception',),
    'StopIteration': ('Exception',), 'ZeroDivisionError': ('Exception',), 'Exception': (), 'UnboundLocalError': ('NameError', 'Exception'),
    'NameError': ('Exception',),
}


def exc_matches(exc, names):
    if names is None:
        return True
    allp = {exc, 'BaseException', 'Exception'} | set(EXC_PARENTS.get(exc, ('Exception',)))
    return bool(allp & set(names))


class Interp:
    MAX_DEPTH = 90

    def __init__(self, repo_src=None):
        self.src = repo_src or REPO_SRC
        self.modules = {}
        self.ids = itertools.count(1)
        self.st = State({}, TRUE, {})
        self.frames = []
        self.tries = []
        self.guards = []
        self.raise_log = []     # (guard, exc, node, function)
        self.events = []        # (kind, info dict)
        self.loops = []         # LoopRecord dicts
        self.mus = {}           # recurrence tensors
        self.schema = {}        # Sym kind -> attr -> factory(interp, sym)
        self.sym_class = {}     # Sym kind -> (module, class) for method lookup
        self.overrides = {}     # qualified function name -> prim
        self.functions_seen = set()
        self.calls = 0
        self.unknown_ops = {}
        self.loop_hook = None
        self.steps = 0
        self.doms = {}
        self.break_recursion = True
        self.cell_gdep = {}
        self.input_cells = {}   # cell -> name of a caller-owned tensor
        self.rg = set()         # names of inputs that require grad
        self.where_ites = set()
        self.norms = set()      # ids of sqrt terms that are vector norms
        self.ext = {}
        self.lru = True
        self.autograd = []
        self.sg = False        # gradient mode: values cut off from their inputs are marked in the value graph
        self.rand_count = 0
        self.default_dtype = F32
        self.no_grad = 0
        self.handling = []
        self.namedtuple_cls = ClassV('namedtuple', None, None, [])
        from . import torchlib, pylib
        self.tl = torchlib
        self.pl = pylib

    # ------------------------------------------------------------ misc
    def event(self, kind, node=None, **kw):
        kw['node'] = node
        kw['guard'] = self.abs_guard()
        kw['fn'] = self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else None
        kw['path'] = [f.fn.qual for f in self.frames if f.fn]
        self.events.append((kind, kw))

    def abs_guard(self):
        return T.and_(*(self.guards + [self.st.guard]))

    def newid(self):
        return next(self.ids)

    def unk(self, reason):
        self.unknown_ops[reason] = self.unknown_ops.get(reason, 0) + 1
        return Unknown(reason)

    # heap
    def get(self, i):
        return self.st.heap[i]

    def put(self, i, rec):
        self.st.heap[i] = rec

    def new_list(self, segs, kind='list'):
        i = self.newid()
        self.put(i, ('L', tuple(segs)))
        return ListV(i, kind)

    def list_of(self, vals, kind='list'):
        return self.new_list([Seg('item', v=v) for v in vals], kind)

    def segs(self, lv):
        return self.get(lv.id)[1]

    def new_dict(self, items=()):
        i = self.newid()
        self.put(i, ('D', tuple(items)))
        return DictV(i)

    def new_obj(self, cls, attrs=None):
        i = self.newid()
        self.put(i, ('O', dict(attrs or {})))
        return Obj(i, cls)

    def oget(self, o, name):
        return self.get(o.id)[1].get(name)

    def oset(self, o, name, v):
        d = dict(self.get(o.id)[1])
        d[name] = v
        self.put(o.id, ('O', d))

    # ------------------------------------------------------------ tensors
    def tensor(self, shape, fn, dtype=F32, device=CPU, gdep=frozenset(), kind='torch'):
        shape = tuple(dim(d) for d in shape)
        i = self.newid()
        if self.sg and self.no_grad:
            fn = self.stop(fn, dtype)
        self.put(i, ('C', memo(fn)))
        t = Tensor(i, shape, None, None, dtype, device, gdep, frozenset([i]), kind)
        return t

    def stop(self, fn, dtype):
        """elements that carry no gradient"""
        if dtype in (F32, F64) or str(dtype).startswith('sym'):
            return lambda idx: T.sg(fn(idx))
        return fn

    def input_tensor(self, name, shape, dtype=DT('sym:D'), device=Dev('sym:V'), kind='torch', sort='R', gdep=None):
        t = self.tensor(shape, lambda idx: T.atom(name, *idx, sort=sort), dtype, device,
                        frozenset([name]) if gdep is None else gdep, kind)
        t.leaf = name
        return t

    def reader(self, t):
        """snapshot: index tuple -> Term"""
        if isinstance(t, Tensor):
            fn = self.get(t.cell)[1]
            if t.fwd is None:
                return fn
            f = t.fwd
            return lambda idx: fn(f(idx))
        raise Giveup('reader of %r' % (t,))

    def elem(self, t, *idx):
        return self.reader(t)(tuple(num(i) if not isinstance(i, Term) else i for i in idx))

    # ------------------------------------------------------------ conditions
    def nfc(self, t):
        if T.over(t, 700):
            return None
        try:
            return T.nf(t)
        except T.TooBig:
            return None

    def decide(self, t):
        """True / False / None for a boolean term under the current facts"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.unk:
            return None
        x = self.nfc(t)
        if x is None:
            return None
        facts = self.st.facts
        for c, v in facts.items():
            x = T.restrict(x, c, v)
        if not isinstance(x, T.Ite):
            return bool(x.d)
        base = tuple(facts.items())
        vals = set()
        for path, leaf in T.leaves(x):
            if not T._infeasible(base + path):
                vals.add(bool(leaf.d))
                if len(vals) > 1:
                    return None
        if len(vals) == 1:
            return vals.pop()
        return None

    def add_fact(self, facts, t, v):
        """facts extended with boolean term t == v (conjunctions of atomic conditions only)"""
        if t.unk:
            return facts
        x = self.nfc(t)
        if x is None:
            return facts
        facts = dict(facts)
        for c, w in list(facts.items()):
            x = T.restrict(x, c, w)
        # walk the forced path
        while isinstance(x, T.Ite):
            hi_ok = any(bool(l.d) == v for _, l in T.leaves(x.hi))
            lo_ok = any(bool(l.d) == v for _, l in T.leaves(x.lo))
            if hi_ok and not lo_ok:
                facts[x.c] = True
                x = x.hi
            elif lo_ok and not hi_ok:
                facts[x.c] = False
                x = x.lo
            else:
                break
        return facts

    def truth(self, v, node=None):
        """python bool or Term"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, Num):
            return T.not_(T.eq(v.t, num(0)))
        if isinstance(v, NumStr):
            return True
        if isinstance(v, SStr):
            return T.not_(T.eq(v.t, T.string('')))
        if isinstance(v, Custom):
            if hasattr(v, 'iterate'):
                return bool(v.iterate(self))
            if v.truth is not None:
                return v.truth
        if isinstance(v, Tensor):
            if v.kind == 'torch':
                self.event('data_branch', node, tensor=v)
            n = [d for d in v.shape if not (isinstance(d, int) and d == 1)]
            if n:
                raise AbsRaise('RuntimeError', node)
            t = self.elem(v, *([0] * len(v.shape)))
            if t.sort == 'B':
                return t
            return T.not_(T.eq(t, num(0)))
        if isinstance(v, ListV):
            n = self.length(v)
            return self.truth(n)
        if isinstance(v, DictV):
            return len(self.get(v.id)[1]) > 0
        if isinstance(v, (Sym, Obj, FuncV, Bound, ClassV, Prim, DT, Dev, ModV, Ext, Slice)):
            return True
        if isinstance(v, Gamma):
            a, b = self.truth(v.a, node), self.truth(v.b, node)
            a = num(a) if isinstance(a, bool) else a
            b = num(b) if isinstance(b, bool) else b
            return T.ite(v.c, a, b)
        if isinstance(v, Rec):
            return T.atom('rec_true', self.rec_key(v), sort='B')
        if isinstance(v, Unknown):
            return T.unknown(v.reason, 'B')
        if isinstance(v, FirstOf):
            return T.unknown('truth of search result', 'B')
        return T.unknown('truth of %s' % type(v).__name__, 'B')

    def rec_key(self, r):
        parts = [r.fn.qual]
        terms = []
        for a in list(r.args) + sorted(r.kwargs.items()):
            if isinstance(a, Sym):
                parts.append(a.kind)
                terms += list(a.idx)
            elif isinstance(a, SStr):
                parts.append('s')
                terms.append(a.t)
            else:
                parts.append(repr(a))
        return T._mk('fn', ('reckey', T.string('|'.join(parts))) + tuple(terms), 'R')

    # ------------------------------------------------------------ branching
    def branch(self, c, fa, fb, node=None):
        """evaluate both sides of a condition and join; returns joined value"""
        if isinstance(c, bool):
            return fa() if c else fb()
        d = self.decide(c)
        if d is not None:
            return fa() if d else fb()
        base = self.st
        outs = []
        for cond, f, v in ((c, fa, True), (T.not_(c), fb, False)):
            s = base.copy()
            s.guard = T.and_(base.guard, cond)
            s.facts = self.add_fact(base.facts, c, v)
            self.st = s
            exc = None
            try:
                val = f()
            except AbsRaise as e:
                exc, val = e, None
                self.note_raise(e)
                self.st.dead = 'raise'
            outs.append((self.st, val, exc))
        (sa, va, ea), (sb, vb, eb) = outs
        if sa.dead and sb.dead:
            if ea and eb:
                self.st = base
                raise AbsRaise(ea.exc if ea.exc == eb.exc else 'Exception', ea.node, ea.value)
            self.st = sa if sb.dead == 'raise' else sb
            self.st.facts = base.facts
            return None
        if sa.dead:
            self.st = sb
            return vb
        if sb.dead:
            self.st = sa
            return va
        if isinstance(va, TaggedOutcome) or isinstance(vb, TaggedOutcome):
            pass
        self.st = State(dict(base.heap), T.or_(sa.guard, sb.guard), base.facts)
        self.join_heaps(c, sa, sb)
        if va is None and vb is None:
            return None
        return self.join(c, va, vb)

    def note_raise(self, e):
        for t in reversed(self.tries):
            if exc_matches(e.exc, t.names):
                t.pending.append((self.st.copy(), e))
                return
        self.raise_log.append((self.abs_guard(), e.exc, e.node, self.frames[-1].fn.qual if self.frames and self.frames[-1].fn else None))

    def join_heaps(self, c, sa, sb):
        heap = self.st.heap
        todo = []
        for i in set(sa.heap) | set(sb.heap):
            ra, rb = sa.heap.get(i), sb.heap.get(i)
            if ra is not None and rb is not None and ra is not rb and ra[0] != 'C':
                todo.append((i, ra, rb))      # refers to tensors, whose cells have to be there first
            elif ra is rb:
                heap[i] = ra
            elif ra is None:
                heap[i] = rb
            elif rb is None:
                heap[i] = ra
            else:
                heap[i] = self.join_rec(c, ra, rb)
        for i, ra, rb in todo:
            heap[i] = ra if ra[0] == 'O' else heap.get(i, ra)
        for i, ra, rb in todo:
            heap[i] = self.join_rec(c, ra, rb)

    def join_rec(self, c, ra, rb):
        k = ra[0]
        if k in ('O', 'E'):
            out = {}
            for n in set(ra[1]) | set(rb[1]):
                if n in ra[1] and n in rb[1]:
                    a, b = ra[1][n], rb[1][n]
                    out[n] = a if a is b else self.join(c, a, b)
                else:
                    v = ra[1].get(n, rb[1].get(n))
                    out[n] = v if k == 'E' else Gamma(c, ra[1].get(n, Unknown('unset')), rb[1].get(n, Unknown('unset')))
                    if k == 'E':
                        out[n] = Maybe(c if n in ra[1] else T.not_(c), v) if not isinstance(v, Maybe) else v
            return (k, out)
        if k == 'C':
            fa, fb = ra[1], rb[1]
            return ('C', memo(lambda idx: T.ite(c, fa(idx), fb(idx))))
        if k == 'L':
            la, lb = ra[1], rb[1]
            p = 0
            while p < len(la) and p < len(lb) and la[p] is lb[p]:
                p += 1
            out = list(la[:p])
            resta, restb = la[p:], lb[p:]
            if len(resta) == len(restb) and all(x.kind == 'item' and y.kind == 'item' and x.cond is y.cond for x, y in zip(resta, restb)):
                for x, y in zip(resta, restb):
                    out.append(Seg('item', v=x.v if x.v is y.v else self.join(c, x.v, y.v), cond=x.cond))
            else:
                for x in resta:
                    out.append(Seg(x.kind, x.var, x.n, T.and_(c, x.cond), x.v, x.dom))
                for x in restb:
                    out.append(Seg(x.kind, x.var, x.n, T.and_(T.not_(c), x.cond), x.v, x.dom))
            return ('L', tuple(out))
        if k == 'D':
            da, db = ra[1], rb[1]
            p = 0
            while p < len(da) and p < len(db) and da[p] is db[p]:
                p += 1
            if p == len(da) == len(db):
                return ra
            out = list(da[:p])
            ka = [x for x in da[p:]]
            kb = [x for x in db[p:]]
            keys = []
            for x in ka + kb:
                if x[0] != 'item':
                    return ('D', tuple(out) + (('opq', c, da[p:], db[p:]),))
                if not any(self.same_key(x[1], y) for y in keys):
                    keys.append(x[1])
            for key in keys:
                va = [x for x in ka if self.same_key(x[1], key)]
                vb = [x for x in kb if self.same_key(x[1], key)]
                if va and vb:
                    out.append(('item', key, va[-1][2] if va[-1][2] is vb[-1][2] else self.join(c, va[-1][2], vb[-1][2])))
                elif va:
                    out.append(('item', key, Maybe(c, va[-1][2])))
                else:
                    out.append(('item', key, Maybe(T.not_(c), vb[-1][2])))
            return ('D', tuple(out))
        return ra

    def same_key(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, (SStr, Num)):
            return a.t is b.t
        try:
            return a == b
        except Exception:
            return a is b

    def join(self, c, a, b):
        if a is b:
            return a
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (bool, int, float, str)) and type(a) is type(b) and a == b:
            return a
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(T.ite(c, bterm(a), bterm(b)))
        if isnumv(a) and isnumv(b) and not isinstance(a, bool) and not isinstance(b, bool):
            ta, tb = nterm(a), nterm(b)
            if ta is tb:
                return a
            return Num(T.ite(c, ta, tb), 'i' if numkind(a) == 'i' and numkind(b) == 'i' else 'f')
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and not (isinstance(a, str) and isinstance(b, str)):
            return SStr(T.ite(c, sterm(a), sterm(b)))
        if isinstance(a, Tensor) and isinstance(b, Tensor) and len(a.shape) == len(b.shape) \
                and all(same_dim(x, y) for x, y in zip(a.shape, b.shape)):
            if a.cell == b.cell and a.fwd is b.fwd and a.dtype is b.dtype:
                return a
            ra, rb = self.reader(a), self.reader(b)
            t = self.tensor(a.shape, lambda idx: T.ite(c, ra(idx), rb(idx)),
                            a.dtype if a.dtype is b.dtype else DT('sym:join(%s,%s)' % (a.dtype.name, b.dtype.name)),
                            a.device if a.device is b.device else Dev('sym:join(%s,%s)' % (a.device.name, b.device.name)),
                            a.gdep & b.gdep if False else a.gdep | b.gdep, a.kind)
            t.alias = t.alias | a.alias | b.alias
            return t
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
            return tuple(self.join(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Obj) and isinstance(b, Obj) and a.id == b.id:
            return a
        if isinstance(a, Sym) and isinstance(b, Sym) and a.kind == b.kind and a.copy == b.copy and len(a.idx) == len(b.idx):
            return Sym(a.kind, tuple(T.ite(c, x, y) for x, y in zip(a.idx, b.idx)), a.label, a.copy)
        if isinstance(a, (ListV, DictV)) and type(a) is type(b) and a.id == b.id:
            return a
        if isinstance(a, Gamma) and a.c is c:
            a = a.a
        if isinstance(b, Gamma) and b.c is c:
            b = b.b
        if a is b:
            return a
        if isinstance(a, Unknown) and isinstance(b, Unknown):
            return a
        return Gamma(c, a, b)

    def lift(self, g, f):
        """apply f on both alternatives of a gamma value"""
        return self.branch(g.c, lambda: f(g.a), lambda: f(g.b))

    def resolve(self, v):
        """drop alternatives decided by the current facts"""
        while isinstance(v, Gamma):
            d = self.decide(v.c)
            if d is None:
                return v
            v = v.a if d else v.b
        return v

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.replace('.', '/')
        for p in (os.path.join(self.src, rel + '.py'), os.path.join(self.src, rel, '__init__.py')):
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    src = f.read()
                tree = ast.parse(src, p)
                m = ModV(name, p, tree)
                self.modules[name] = m
                self.exec_module(m)
                return m
        return None

    def exec_module(self, m):
        env = self.newid()
        self.put(env, ('E', {}))
        fr = Frame(None, env)
        fr.mod = m
        saved, savedst = self.frames, self.st
        self.frames = [fr]
        st = self.st
        oldg, oldf, oldguards = st.guard, st.facts, self.guards
        st.guard, st.facts, self.guards = TRUE, {}, []
        m.attrs = {'__name__': m.name, '__env__': env, '__file__': m.path}
        self.put(env, ('E', {'__name__': m.name, '__file__': m.path}))
        for s in m.tree.body:
            try:
                self.exec_stmt(s)
            except AbsRaise as e:
                self.event('module_raise', s, exc=e.exc, module=m.name)
            except Giveup as e:
                self.event('module_giveup', s, why=str(e), module=m.name)
        m.attrs = dict(self.get(env)[1])
        m.attrs['__env__'] = env
        self.frames = saved
        self.st.guard, self.st.facts, self.guards = oldg, oldf, oldguards

    def modattr(self, m, name):
        env = m.attrs.get('__env__')
        if env is not None:
            d = self.st.heap.get(env)
            if d is not None and name in d[1]:
                return d[1][name]
        if name in m.attrs:
            return m.attrs[name]
        sub = self.try_module(m.name + '.' + name)
        if sub is not None:
            return sub
        raise AbsRaise('AttributeError')

    def try_module(self, name):
        if not name.startswith(PKG):
            return None
        for o in OPAQUE_MODULES:
            if name.startswith(o):
                return None
        return self.module(name)

    def lookup(self, dotted):
        """'pytorch_kinematics.chain:Chain.forward_kinematics' -> value; raises KeyError when the anchor vanished"""
        mod, _, path = dotted.partition(':')
        m = self.module(mod)
        if m is None:
            raise KeyError(dotted)
        v = m
        for p in path.split('.'):
            if isinstance(v, ModV):
                try:
                    v = self.modattr(v, p)
                except AbsRaise:
                    raise KeyError(dotted)
            elif isinstance(v, ClassV):
                v = v.lookup(p)
            if v is None:
                raise KeyError(dotted)
        return v

    # ------------------------------------------------------------ environment
    def env_get(self, name):
        fr = self.frames[-1]
        e = fr.env
        while e is not None:
            d = self.get(e)[1]
            if name in d:
                v = d[name]
                if isinstance(v, Maybe):
                    dd = self.decide(v.c)
                    if dd is False:
                        raise AbsRaise('UnboundLocalError')
                    if dd is None:
                        self.event('maybe_unbound', None, name=name, cond=v.c)
                    v = v.v
                return v
            e = d.get('__parent__')
        if name in self.pl.BUILTINS:
            return self.pl.BUILTINS[name]
        if name in EXC_PARENTS:
            return Ext('builtins.' + name)
        if hasattr(__builtins__ if not isinstance(__builtins__, dict) else None, name) or (isinstance(__builtins__, dict) and name in __builtins__):
            return Ext('builtins.' + name)
        raise AbsRaise('NameError')

    def env_set(self, name, v):
        e = self.frames[-1].env
        d = dict(self.get(e)[1])
        gl = d.get('__global__')
        if gl and name in gl:
            p = self.cur_module().attrs['__env__']
            q = dict(self.get(p)[1])
            q[name] = v
            self.put(p, ('E', q))
            return
        nl = d.get('__nonlocal__')
        if nl and name in nl:
            p = d.get('__parent__')
            while p is not None:
                q = self.get(p)[1]
                if name in q:
                    q = dict(q)
                    q[name] = v
                    self.put(p, ('E', q))
                    return
                p = q.get('__parent__')
        d[name] = v
        self.put(e, ('E', d))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st.dead:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > 400000:
            raise Giveup('step limit')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Giveup('statement %s' % type(s).__name__)
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Pass(self, s):
        pass

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        opn = type(s.op).__name__
        tgt = s.target
        if isinstance(tgt, ast.Name):
            cur = self.env_get(tgt.id)
            v = self.ev(s.value)
            r = self.aug(opn, cur, v, s)
            self.env_set(tgt.id, r)
        elif isinstance(tgt, ast.Attribute):
            o = self.ev(tgt.value)
            cur = self.getattr(o, tgt.attr, tgt)
            v = self.ev(s.value)
            self.setattr(o, tgt.attr, self.aug(opn, cur, v, s), tgt)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value)
            k = self.ev_index(tgt.slice)
            cur = self.getitem(o, k, tgt)
            v = self.ev(s.value)
            if isinstance(o, Tensor) and isinstance(cur, Tensor) and cur.cell == o.cell:
                self.aug(opn, cur, v, s)
            else:
                r = self.binop(opn, cur, v, s)
                self.setitem(o, k, r, tgt)
        else:
            raise Giveup('augassign')

    def aug(self, opn, cur, v, s):
        cur = self.resolve(cur)
        if isinstance(cur, Gamma):
            return self.lift(cur, lambda x: self.aug(opn, x, v, s))
        if isinstance(cur, Tensor) and (cur.shape or True) and cur.kind == 'torch':
            r = self.binop(opn, cur, v, s)
            if isinstance(r, Unknown):
                self.tl.havoc_cell(self, cur, r.reason)
                return cur
            if isinstance(r, Gamma):
                return self.lift(r, lambda x: self._aug_store(cur, x, s))
            return self._aug_store(cur, r, s)
        if isinstance(cur, Tensor):
            r = self.binop(opn, cur, v, s)
            return self._aug_store(cur, r, s) if isinstance(r, Tensor) else r
        if isinstance(cur, ListV) and opn == 'Add':
            self.call(self.getattr(cur, 'extend', s), [v], {}, s)
            return cur
        return self.binop(opn, cur, v, s)

    def _aug_store(self, cur, r, s):
        self.tl.store(self, cur, r, s)
        return cur

    def assign(self, tgt, v):
        if isinstance(tgt, ast.Name):
            self.env_set(tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            v = self.resolve(v)
            if isinstance(v, Gamma):
                vs = self.lift(v, lambda x: tuple(self.unpack(x, len(tgt.elts), tgt)))
                if isinstance(vs, tuple):
                    for e, x in zip(tgt.elts, vs):
                        self.assign(e, x)
                    return
                for e in tgt.elts:
                    self.assign(e, self.unk('unpack gamma'))
                return
            if star:
                k = star[0]
                vals = self.concrete_list(v)
                if vals is None:
                    raise Giveup('starred unpack')
                after = len(tgt.elts) - k - 1
                for e, x in zip(tgt.elts[:k], vals[:k]):
                    self.assign(e, x)
                self.assign(tgt.elts[k].value, self.list_of(vals[k:len(vals) - after]))
                for e, x in zip(tgt.elts[k + 1:], vals[len(vals) - after:]):
                    self.assign(e, x)
                return
            vals = self.unpack(v, len(tgt.elts), tgt)
            for e, x in zip(tgt.elts, vals):
                self.assign(e, x)
        elif isinstance(tgt, ast.Attribute):
            self.setattr(self.ev(tgt.value), tgt.attr, v, tgt)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value)
            k = self.ev_index(tgt.slice)
            self.setitem(o, k, v, tgt)
        elif isinstance(tgt, ast.Starred):
            raise Giveup('starred')
        else:
            raise Giveup('assign target')

    def unpack(self, v, n, node):
        if isinstance(v, Unknown):
            return [v] * n
        if isinstance(v, Rec):
            return [self.unk('unpack recursive result')] * n
        vals = self.concrete_list(v)
        if vals is None:
            return [self.unk('unpack %s' % type(v).__name__)] * n
        if len(vals) != n:
            raise AbsRaise('ValueError', node)
        return vals

    def concrete_list(self, v):
        """python list of values if the sequence has statically known length, else None"""
        v = self.resolve(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            out = []
            for s in self.segs(v):
                if s.kind != 'item' or s.cond is not TRUE:
                    return None
                out.append(s.v)
            return out
        if isinstance(v, Tensor):
            if v.shape and isinstance(v.shape[0], int):
                return [self.tl.getitem(self, v, i, None) for i in range(v.shape[0])]
            return None
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Custom) and hasattr(v, 'iterate'):
            return v.iterate(self)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, DictV):
            items = self.get(v.id)[1]
            if all(i[0] == 'item' and not isinstance(i[2], Maybe) for i in items):
                return [i[1] for i in items]
            return None
        if isinstance(v, SymSeq):
            out = []
            for s in v.segs:
                if s.kind != 'item' or s.cond is not TRUE:
                    return None
                out.append(s.v)
            return out
        return None

    def iter_segs(self, v):
        """sequence as segments"""
        v = self.resolve(v)
        c = self.concrete_list(v)
        if c is not None:
            return [Seg('item', v=x) for x in c]
        if isinstance(v, ListV):
            return list(self.segs(v))
        if isinstance(v, SymSeq):
            return list(v.segs)
        if isinstance(v, Tensor) and v.shape:
            var = T.fresh('i', rng=dterm(v.shape[0]))
            return [Seg('map', var, dterm(v.shape[0]), TRUE, self.tl.getitem(self, v, Num(var, 'i'), None))]
        if isinstance(v, Obj):
            f = v.cls.lookup('__iter__')
            if f is None:
                f = v.cls.lookup('__len__')
        if isinstance(v, Rec):
            return [Seg('rec', v=v)]
        return None

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev_index(t.slice)
                if isinstance(o, DictV):
                    self.put(o.id, ('D', tuple(i for i in self.get(o.id)[1] if not self.same_key(i[1], k))))
                    continue
                if isinstance(o, ListV) and o.kind != 'set':
                    l = self.concrete_list(o)
                    k = self.resolve(k)
                    if l is not None and isinstance(k, int):
                        if not -len(l) <= k < len(l):
                            raise AbsRaise('IndexError', s)
                        del l[k]
                        self.put(o.id, ('L', tuple(Seg('item', v=x) for x in l)))
                        continue
                    if l is not None and isinstance(k, Slice) and all(q is None or isinstance(q, int) for q in (k.lo, k.hi, k.step)):
                        del l[slice(k.lo, k.hi, k.step)]
                        self.put(o.id, ('L', tuple(Seg('item', v=x) for x in l)))
                        continue
                raise Giveup('del')
            elif isinstance(t, ast.Name):
                pass

    def x_Match(self, s):
        """a match statement as a chain of conditions"""
        self.nmatch = getattr(self, 'nmatch', 0) + 1
        nm = '__match_%d' % self.nmatch
        self.env_set(nm, self.ev(s.subject))
        name = lambda c: ast.copy_location(ast.Name(c, ast.Load()), s)

        def call(f, *a):
            return ast.Call(ast.Name(f, ast.Load()), list(a), [])

        def pat(p, sub):
            """condition, [(name, value)]"""
            if isinstance(p, ast.MatchValue):
                return ast.Compare(sub, [ast.Eq()], [p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(sub, [ast.Is()], [ast.Constant(p.value)]), []
            if isinstance(p, ast.MatchAs):
                c, b = pat(p.pattern, sub) if p.pattern is not None else (ast.Constant(True), [])
                return c, b + ([(p.name, sub)] if p.name else [])
            if isinstance(p, ast.MatchOr):
                cs = [pat(q, sub) for q in p.patterns]
                if any(b for _, b in cs):
                    raise Giveup('match alternatives that bind')
                return ast.BoolOp(ast.Or(), [c for c, _ in cs]), []
            if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                c = [call('isinstance', sub, ast.Tuple([ast.Name('list', ast.Load()), ast.Name('tuple', ast.Load())], ast.Load())),
                     ast.Compare(call('len', sub), [ast.Eq()], [ast.Constant(len(p.patterns))])]
                b = []
                for k, q in enumerate(p.patterns):
                    c1, b1 = pat(q, ast.Subscript(sub, ast.Constant(k), ast.Load()))
                    c.append(c1)
                    b += b1
                return ast.BoolOp(ast.And(), c), b
            if isinstance(p, ast.MatchClass) and not p.patterns:
                c, b = [call('isinstance', sub, p.cls)], []
                for k, q in zip(p.kwd_attrs, p.kwd_patterns):
                    c1, b1 = pat(q, ast.Attribute(sub, k, ast.Load()))
                    c.append(c1)
                    b += b1
                return ast.BoolOp(ast.And(), c) if len(c) > 1 else c[0], b
            raise Giveup('match pattern')
        node = None
        for c in reversed(s.cases):
            cond, binds = pat(c.pattern, name(nm))
            body = [ast.Assign([ast.Name(n, ast.Store())], v) for n, v in binds]
            if c.guard is not None:
                # bindings are visible to the guard
                g = c.guard
                for n, v in binds:
                    g = _Subst(n, v).visit(ast.parse(ast.unparse(g), mode='eval').body)
                cond = ast.BoolOp(ast.And(), [cond, g])
            node = ast.If(cond, body + c.body, [node] if node is not None else [])
        for n in ast.walk(node):
            if not hasattr(n, 'lineno'):
                n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = s.lineno, s.col_offset, s.end_lineno, s.end_col_offset
        self.exec_stmt(node)

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        fr = self.frames[-1]
        fr.returns.append((self.st.guard, v, self.st.copy(), s))
        self.st.dead = 'return'

    def x_If(self, s):
        c = self.truth(self.ev(s.test), s.test)
        self.branch(c, lambda: self.exec_failing(s.body), lambda: self.exec_failing(s.orelse), s)

    def exec_failing(self, body):
        """a block that can only end in its final raise: what it computes on the way (messages) does not matter"""
        if not body or not isinstance(body[-1], ast.Raise) or any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield)) for b in body for n in ast.walk(b)):
            return self.exec_block(body)
        try:
            return self.exec_block(body)
        except Giveup:
            e = body[-1].exc
            f = e.func if isinstance(e, ast.Call) else e
            raise AbsRaise(f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else 'Exception', body[-1])

    def x_Raise(self, s):
        name = 'Exception'
        v = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                f = self.ev(e.func)
                try:
                    for a in e.args:
                        self.ev(a)
                except (Giveup,):
                    pass
            else:
                f = self.ev(e)
            if isinstance(f, Ext):
                name = f.name.split('.')[-1]
            elif isinstance(f, ClassV):
                name = f.name
        elif self.handling:
            name = self.handling[-1]
        raise AbsRaise(name, s, v)

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test), s.test)

        def fail():
            raise AbsRaise('AssertionError', s)
        self.branch(c, lambda: None, fail, s)

    def x_Import(self, s):
        for a in s.names:
            v = self.import_name(a.name)
            if a.asname:
                self.env_set(a.asname, v)
            else:
                top = a.name.split('.')[0]
                self.env_set(top, self.import_name(top))

    def import_name(self, name):
        if name.split('.')[0] == PKG:
            for o in OPAQUE_MODULES:
                if name.startswith(o):
                    return Ext(name)
            m = self.module(name)
            if m is None:
                raise AbsRaise('ModuleNotFoundError')
            return m
        return Ext(name)

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.cur_module()
            parts = base.name.split('.')
            if not base.path.endswith('__init__.py'):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        m = self.import_name(mod)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModV):
                    src = self.st.heap[m.attrs['__env__']][1]
                    names = None
                    if '__all__' in src:
                        names = self.concrete_list(src['__all__'])
                    for k, v in list(src.items()):
                        if (names is not None and k in names) or (names is None and not k.startswith('_')):
                            self.env_set(k, v)
                continue
            if isinstance(m, ModV):
                src = self.st.heap[m.attrs['__env__']][1] if '__env__' in m.attrs else m.attrs
                if a.name in src:
                    v = src[a.name]
                else:
                    v = self.import_name(mod + '.' + a.name)
            else:
                v = Ext(m.name + '.' + a.name)
                if v.name in self.pl.PRIMS or v.name in self.tl.FUNCS:
                    pass
            self.env_set(a.asname or a.name, v)

    def cur_module(self):
        fr = self.frames[-1]
        return fr.mod if getattr(fr, 'mod', None) is not None else fr.fn.mod

    def x_Global(self, s):
        e = self.frames[-1].env
        d = dict(self.get(e)[1])
        d['__global__'] = tuple(d.get('__global__') or ()) + tuple(s.names)
        self.put(e, ('E', d))

    def x_Nonlocal(self, s):
        e = self.frames[-1].env
        d = dict(self.get(e)[1])
        d['__nonlocal__'] = tuple(d.get('__nonlocal__') or ()) + tuple(s.names)
        self.put(e, ('E', d))

    def x_FunctionDef(self, s):
        v = self.make_func(s)
        self.env_set(s.name, v)

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, s, cls=None, qual=None):
        deco = []
        for d in getattr(s, 'decorator_list', []):
            deco.append(d)
        f = FuncV(s, self.cur_module(), self.frames[-1].env, getattr(s, 'name', '<lambda>'), cls, deco, qual)
        a = s.args
        f.defaults = [self.ev(x) for x in a.defaults]
        f.kwdefaults = [self.ev(x) if x is not None else NODEFAULT for x in a.kw_defaults]
        return f

    def dataclass_init(self, s, cls):
        """the methods a dataclass decorator generates, as source"""
        fields = []
        for c in reversed(cls.mro()):
            if c is not cls and getattr(c.node, 'dc_fields', None) is None:
                continue
            for n, d in (c.node.dc_fields if c is not cls else [(b.target.id, b.value) for b in s.body if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name)
                                                                and 'ClassVar' not in ast.unparse(b.annotation)]):
                fields = [f for f in fields if f[0] != n] + [(n, d)]
        s.dc_fields = fields
        args, body = [], []
        for n, d in fields:
            if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'field':
                kw = {k.arg: k.value for k in d.keywords}
                if 'default_factory' in kw:
                    args.append('%s=None' % n)
                    body.append('self.%s = (%s)() if %s is None else %s' % (n, ast.unparse(kw['default_factory']), n, n))
                    continue
                d = kw.get('default')
            args.append(n if d is None else '%s=%s' % (n, ast.unparse(d)))
            body.append('self.%s = %s' % (n, n))
        if cls.lookup('__post_init__') is not None or any(isinstance(b, ast.FunctionDef) and b.name == '__post_init__' for b in s.body):
            body.append('self.__post_init__()')
        src = 'def __init__(self%s):\n    %s\n' % (''.join(', ' + a for a in args), '\n    '.join(body) or 'pass')
        src += 'def __eq__(self, other):\n    return %s\n' % (' and '.join('self.%s == other.%s' % (n, n) for n, _ in fields) or 'True')
        out = ast.parse(src).body
        for f in out:
            for n in ast.walk(f):
                if hasattr(n, 'lineno'):
                    n.lineno, n.end_lineno = s.lineno, s.lineno
        have = {b.name for b in s.body if isinstance(b, ast.FunctionDef)}
        return [f for f in out if f.name not in have]

    def x_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        if any(isinstance(b, Ext) and b.name == 'typing.NamedTuple' for b in bases):
            import collections
            if any(isinstance(b, ast.FunctionDef) for b in s.body):
                raise Giveup('methods of a named tuple')
            fs = [b for b in s.body if isinstance(b, ast.AnnAssign)]
            cl = collections.namedtuple(s.name, [b.target.id for b in fs], defaults=[self.ev(b.value) for b in fs if b.value is not None])
            self.env_set(s.name, Prim(s.name, lambda I, b, kk, nn: cl(*b, **kk)))
            return
        cls = ClassV(s.name, s, self.cur_module(), bases)
        env = self.newid()
        self.put(env, ('E', {'__parent__': self.frames[-1].env}))
        fr = Frame(None, env)
        fr.mod = self.cur_module()
        self.frames.append(fr)
        dc = any(ast.unparse(d).split('(')[0].split('.')[-1] == 'dataclass' for d in s.decorator_list)
        try:
            for b in s.body + (self.dataclass_init(s, cls) if dc else []):
                if isinstance(b, ast.FunctionDef):
                    f = self.make_func(b, cls, s.name + '.' + b.name)
                    old = cls.attrs.get(b.name)
                    if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in b.decorator_list) and isinstance(old, (FuncV, PropV)):
                        if any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in b.decorator_list):
                            f = PropV(old.fget if isinstance(old, PropV) else old, f)
                        else:
                            f = old
                    cls.attrs[b.name] = f
                    self.env_set(b.name, f)
                elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    continue
                elif dc and isinstance(b, ast.AnnAssign) and isinstance(b.value, ast.Call) and ast.unparse(b.value.func).split('.')[-1] == 'field':
                    continue
                else:
                    self.exec_stmt(b)
                    for k, v in self.get(env)[1].items():
                        if not k.startswith('__parent'):
                            cls.attrs.setdefault(k, v)
                            cls.attrs[k] = v
        finally:
            self.frames.pop()
        # functions see class-level names through the module environment, not the class body
        for k, v in cls.attrs.items():
            for f in ((v.fget, v.fset) if isinstance(v, PropV) else (v,)):
                if isinstance(f, FuncV):
                    f.env = self.frames[-1].env
        self.env_set(s.name, cls)

    def x_With(self, s):
        nog = getattr(self, 'no_grad', 0)
        for item in s.items:
            v = self.ev(item.context_expr)
            nm = v.name if isinstance(v, (Ext,)) else None
            if isinstance(v, CtxVal):
                nm = v.name
            if nm in ('torch.no_grad', 'torch.inference_mode'):
                self.no_grad = getattr(self, 'no_grad', 0) + 1
            elif nm == 'torch.enable_grad':
                self.no_grad = 0
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
        self.exec_block(s.body)
        self.no_grad = nog

    def x_Try(self, s):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append('BaseException')
            else:
                for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    n = ast.unparse(e).split('.')[-1]
                    names.append('BaseException' if n in ('Exception', 'BaseException') else n)
        ctx = TryCtx(names)

        def handler_for(exc):
            for h in s.handlers:
                hn = None
                if h.type is not None:
                    hn = [ast.unparse(e).split('.')[-1] for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if 'Exception' in hn or 'BaseException' in hn:
                        hn = None
                if exc_matches(exc, hn):
                    return h
            return None

        def run_handler(h, exc):
            if h.name:
                self.env_set(h.name, self.unk('exception'))
            self.handling.append(exc)
            try:
                self.exec_block(h.body)
            finally:
                self.handling.pop()
        self.tries.append(ctx)
        try:
            self.exec_block(s.body)
            self.tries.pop()
            if not self.st.dead:
                self.exec_block(s.orelse)
        except AbsRaise as e:
            self.tries.pop() if self.tries and self.tries[-1] is ctx else None
            h = handler_for(e.exc)
            if h is None:
                raise
            run_handler(h, e.exc)
        for st, e in ctx.pending:
            h = handler_for(e.exc)
            if h is None:
                continue
            main = self.st
            st.dead = None
            self.st = st
            try:
                run_handler(h, e.exc)
            except AbsRaise as e2:
                self.note_raise(e2)
                self.st.dead = 'raise'
            hs = self.st
            if hs.dead:
                self.st = main
            elif main.dead:
                self.st = hs
            else:
                c = hs.guard
                self.st = State(dict(main.heap), T.or_(main.guard, hs.guard), {k: v for k, v in main.facts.items() if hs.facts.get(k) == v})
                self.join_heaps(c, hs, main)
        self.exec_block(s.finalbody)

    def x_Break(self, s):
        self.frames[-1].loops[-1].breaks.append((self.st.guard, self.st.copy()))
        self.st.dead = 'break'

    def x_Continue(self, s):
        self.frames[-1].loops[-1].conts.append((self.st.guard, self.st.copy()))
        self.st.dead = 'continue'

    def merge_states(self, lst, facts):
        """join a list of (guard, state)"""
        g, st = lst[-1]
        acc = st
        for g, s in reversed(lst[:-1]):
            new = State(dict(acc.heap), T.or_(s.guard, acc.guard), facts)
            self.st = new
            self.join_heaps(g, s, acc)
            acc = self.st
        acc = acc.copy()
        acc.dead = None
        acc.facts = facts
        return acc

    def x_For(self, s):
        it = self.ev(s.iter)
        self.for_over(s, it)

    def for_over(self, s, it):
        it = self.resolve(it)
        if isinstance(it, Gamma):
            self.lift(it, lambda x: self.for_over(s, x))
            return
        if isinstance(it, Unknown):
            self.havoc_loop(s, None, it.reason)
            return
        from . import loops
        loops.exec_for(self, s, it)

    def x_While(self, s):
        from . import loops
        loops.exec_while(self, s)

    def havoc_loop(self, s, var, reason):
        from . import loops
        loops.havoc_loop(self, s, reason)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk('expr %s' % type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        return e.value

    def e_Name(self, e):
        try:
            return self.env_get(e.id)
        except AbsRaise as r:
            r.node = r.node or e
            raise

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr, e)

    def e_Tuple(self, e):
        return tuple(self.seq_elts(e.elts))

    def seq_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                c = self.concrete_list(v)
                if c is None:
                    raise Giveup('star of symbolic sequence')
                out.extend(c)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    sg = self.iter_segs(self.ev(x.value))
                    if sg is None:
                        return self.unk('star list')
                    segs.extend(sg)
                else:
                    segs.append(Seg('item', v=self.ev(x)))
            return self.new_list(segs)
        return self.list_of([self.ev(x) for x in e.elts])

    def e_Set(self, e):
        l = self.concrete_list(self.e_List(e))
        if l is None:
            return self.unk('set of symbolic length')
        return self.list_of(self.dedup(l), 'set')

    def dedup(self, l):
        out = []
        for x in l:
            if isinstance(x, (Tensor, Obj)) or not any(type(x) is type(y) and self.equals(x, y) is True for y in out):
                out.append(x)
        return out

    def e_Dict(self, e):
        groups, items = [], []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.resolve(self.ev(v))
                if isinstance(d, DictV):
                    items.extend(self.get(d.id)[1])
                    continue
                return self.unk('dict star')
            items.append(('item', self.ev(k), self.ev(v)))
        return self.dict_of(items)

    def dict_of(self, items):
        """a later entry replaces an earlier one of the same key"""
        if all(it[0] == 'item' and isinstance(it[1], (str, int)) for it in items):
            out = {}
            for it in items:
                out[it[1]] = it
            return self.new_dict(list(out.values()))
        if len(items) < 2 or any(it[0] != 'item' for it in items):
            return self.new_dict(items)
        d = self.new_dict([])
        for it in items:
            self.pl.setitem(self, d, it[1], it[2], None)
        return d

    def merge_dicts(self, ds):
        return self.dict_of([it for d in ds for it in self.get(d.id)[1]])

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.resolve(self.ev(v.value))
            spec = self.ev(v.format_spec) if v.format_spec is not None else ''
            if v.conversion == -1 and not spec and isinstance(x, Obj):
                x = self.call(self.pl.BUILTINS['str'], [x], {}, e)
            p = piece(x, spec or ('!' + chr(v.conversion) if v.conversion != -1 else '')) if isinstance(spec, str) else None
            if p is None:
                return SStr(T.unknown('fstring', 'S'))
            parts.append(p)
        return text_of(parts)

    def e_FormattedValue(self, e):
        return self.ev(e.value)

    def e_BoolOp(self, e):
        return self._boolop(type(e.op).__name__ == 'And', e.values)

    def _boolop(self, is_and, vals):
        v = self.ev(vals[0])
        if len(vals) == 1:
            return v
        c = self.truth(v, vals[0])
        if not isinstance(c, bool):
            d = self.decide(c)
            if d is not None:
                c = d
        if isinstance(c, bool):
            if c == is_and:
                return self._boolop(is_and, vals[1:])
            return v
        rest = lambda: self._boolop(is_and, vals[1:])
        # short circuit value: for conditions only the truth matters
        if is_and:
            return self.branch(c, rest, lambda: self.boolified(v, False))
        return self.branch(c, lambda: self.boolified(v, True), rest)

    def boolified(self, v, b):
        if isinstance(v, (SBool, bool)) or (isinstance(v, Tensor)):
            return b
        return v

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        return self.unop(type(e.op).__name__, v, e)

    def unop(self, op, v, e):
        v = self.resolve(v)
        if isinstance(v, Gamma):
            return self.lift(v, lambda x: self.unop(op, x, e))
        if isinstance(v, Unknown):
            return v
        if op == 'Not':
            c = self.truth(v, e)
            return (not c) if isinstance(c, bool) else mkbool(T.not_(c))
        if isinstance(v, (Tensor, Masked)):
            return self.tl.unary(self, op, v)
        if isinstance(v, (bool, int, float)):
            if op == 'USub':
                return -v
            if op == 'Invert':
                return ~v
            return +v
        if isinstance(v, Num):
            if op == 'USub':
                return Num(T.neg(v.t), v.kind)
            if op == 'UAdd':
                return v
        if isinstance(v, SBool) and op == 'Invert':
            return mkbool(T.not_(v.t))
        return self.unk('unary %s on %s' % (op, type(v).__name__))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, Gamma):
            return self.lift(a, lambda x: self.binop(op, x, b, node))
        if isinstance(b, Gamma):
            return self.lift(b, lambda x: self.binop(op, a, x, node))
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, (Tensor, Masked)) or isinstance(b, (Tensor, Masked)):
            return self.tl.binary(self, op, a, b, node)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return self.pl.pyop(op, a, b)
            except ZeroDivisionError:
                raise AbsRaise('ZeroDivisionError', node)
            except TypeError:
                raise AbsRaise('TypeError', node)
        if isinstance(a, str) and isinstance(b, str) and op == 'Add':
            return a + b
        if isinstance(a, Custom) and op == 'Add' and hasattr(a, 'add'):
            return a.add(self, b, False)
        if isinstance(b, Custom) and op == 'Add' and hasattr(b, 'add'):
            return b.add(self, a, True)
        if isinstance(a, (str, SStr, Text)) and isinstance(b, (str, SStr, Text)) and op == 'Add':
            return text_of([a, b])
        if isinstance(a, str) and op == 'Mod':
            c = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (int, float, str)) for x in c):
                try:
                    return a % b
                except Exception:
                    raise AbsRaise('TypeError', node)
            ps = percent_pieces(a, [self.resolve(x) for x in c])
            return SStr(T.unknown('str %', 'S')) if ps is None else text_of(ps)
        if isinstance(a, SStr) and op == 'Mod':
            return SStr(T.unknown('str %', 'S'))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(b, tuple) and isinstance(a, int) and op == 'Mult':
            return a * b
        if isinstance(a, ListV) and isinstance(b, ListV) and op == 'Add':
            return self.new_list(self.segs(a) + self.segs(b))
        if isinstance(a, ListV) and isinstance(b, int) and op == 'Mult':
            return self.new_list(self.segs(a) * b)
        if isinstance(a, ListV) and isinstance(b, Num) and op == 'Mult':
            sg = self.segs(a)
            if len(sg) == 1 and sg[0].kind == 'item':
                var = T.fresh('i', rng=b.t)
                return self.new_list([Seg('map', var, b.t, TRUE, sg[0].v)])
        if isinstance(a, ListV) and a.kind == 'set' and isinstance(b, ListV) and op in ('BitOr', 'BitAnd', 'Sub'):
            if op == 'BitOr':
                ca, cb = self.concrete_list(a), self.concrete_list(b)
                if ca is not None and cb is not None:
                    return self.list_of(self.dedup(ca + cb), 'set')
                return self.new_list(self.segs(a) + self.segs(b), 'set')
            ca, cb = self.concrete_list(a), self.concrete_list(b)
            if ca is not None and cb is not None and all(isinstance(x, (str, int)) for x in ca + cb):
                r = [x for x in ca if (x in cb) == (op == 'BitAnd')]
                return self.list_of(r, 'set')
            return self.unk('set op')
        if isinstance(a, DictV) and isinstance(b, DictV) and op == 'BitOr':
            return self.merge_dicts([a, b])
        if isinstance(a, str) and isinstance(b, int) and op == 'Mult':
            return a * b
        if isinstance(b, str) and isinstance(a, int) and op == 'Mult':
            return a * b
        if type(a) is bool and type(b) is int or type(a) is int and type(b) in (bool, int):
            if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b, 'LShift': a << b if 0 <= b < 64 else 0, 'RShift': a >> b if b >= 0 else 0}[op]
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in ('BitAnd', 'BitOr'):
            f = T.and_ if op == 'BitAnd' else T.or_
            return mkbool(f(bterm(a), bterm(b)))
        if isnumv(a) and isnumv(b):
            return self.numop(op, a, b, node)
        if isinstance(a, Obj) or isinstance(b, Obj):
            nm = {'Add': '__add__', 'Mult': '__mul__', 'MatMult': '__matmul__', 'Sub': '__sub__'}.get(op)
            if nm and isinstance(a, Obj) and a.cls.lookup(nm):
                return self.call(Bound(a.cls.lookup(nm), a), [b], {}, node)
        if isinstance(a, (type(None), str)) and isinstance(b, (int, float, type(None))) or \
                isinstance(b, (type(None), str)) and isinstance(a, (int, float, type(None))):
            raise AbsRaise('TypeError', node)
        return self.unk('binop %s %s %s' % (op, type(a).__name__, type(b).__name__))

    def numop(self, op, a, b, node):
        ta, tb = nterm(a), nterm(b)
        k = 'i' if numkind(a) == 'i' and numkind(b) == 'i' else 'f'
        if op == 'Add':
            return Num(T.add(ta, tb), k)
        if op == 'Sub':
            return Num(T.sub(ta, tb), k)
        if op == 'Mult':
            return Num(T.mul(ta, tb), k)
        if op == 'Div':
            return Num(T.div(ta, tb), 'f')
        if op == 'FloorDiv' and k == 'i':
            r = T.fn('idiv', ta, tb)
            return dval(r) if r.op != 'num' else int(r.args[0])
        if op == 'Mod' and k == 'i':
            r = T.fn('mod', ta, tb)
            return Num(r, 'i') if r.op != 'num' else int(r.args[0])
        if op == 'Pow' and isinstance(b, int):
            return Num(T.pw(ta, b), k)
        return self.unk('numop %s' % op)

    def e_Compare(self, e):
        l = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r)
            x = self.compare(type(op).__name__, l, rv, e)
            res = x if res is None else self._and2(res, x, e)
            l = rv
        return res

    def _and2(self, a, b, e):
        ca, cb = self.truth(a, e), self.truth(b, e)
        return mkbool(T.and_(bterm(ca), bterm(cb)))

    def compare(self, op, a, b, node):
        a, b = self.resolve(a), self.resolve(b)
        if op in ('Is', 'IsNot'):
            r = self.is_same(a, b, node)
            if op == 'IsNot':
                r = (not r) if isinstance(r, bool) else T.not_(r)
            return r if isinstance(r, bool) else mkbool(r)
        if op in ('In', 'NotIn'):
            r = self.pl.contains(self, a, b, node)
            if op == 'NotIn':
                r = (not r) if isinstance(r, bool) else T.not_(r)
            return r if isinstance(r, bool) else mkbool(r)
        if isinstance(a, Gamma):
            return self.lift(a, lambda x: self.compare(op, x, b, node))
        if isinstance(b, Gamma):
            return self.lift(b, lambda x: self.compare(op, a, x, node))
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, (Tensor, Masked)) or isinstance(b, (Tensor, Masked)):
            if (a is None or b is None or isinstance(a, str) or isinstance(b, str)) and op in ('Eq', 'NotEq'):
                return op == 'NotEq'
            return self.tl.compare(self, op, a, b, node)
        nm = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        if isinstance(a, Obj) and a.cls.lookup(nm) is not None and isinstance(a.cls.lookup(nm), FuncV):
            return self.call(Bound(a.cls.lookup(nm), a), [b], {}, node)
        if op == 'NotEq' and isinstance(a, Obj) and isinstance(a.cls.lookup('__eq__'), FuncV):
            r = self.call(Bound(a.cls.lookup('__eq__'), a), [b], {}, node)
            return (not r) if isinstance(r, bool) else mkbool(T.not_(bterm(r))) if not isinstance(r, Unknown) else r
        if op in ('Eq', 'NotEq'):
            r = self.equals(a, b)
            if r is None:
                return self.unk('compare %s %s' % (type(a).__name__, type(b).__name__))
            if op == 'NotEq':
                r = (not r) if isinstance(r, bool) else T.not_(r)
            return r if isinstance(r, bool) else mkbool(r)
        if isinstance(a, (int, float, str)) and type(a) is type(b) or (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isnumv(a) and isnumv(b):
            ta, tb = nterm(a), nterm(b)
            f = {'Lt': T.lt, 'LtE': T.le, 'Gt': T.gt, 'GtE': T.ge}[op]
            return mkbool(self.int_cond(f(ta, tb), op, ta, tb))
        if a is None or b is None:
            raise AbsRaise('TypeError', node)
        if isinstance(a, ListV) and isinstance(b, ListV) and a.kind == 'set' and b.kind == 'set':
            x, y = (a, b) if op in ('LtE', 'Lt') else (b, a)
            cs = [self.pl.contains(self, v, y, node) for v in self.concrete_list(x) or []] if self.concrete_list(x) is not None else [None]
            if any(c is not True and c is not False for c in cs):
                return self.unk('compare sets')
            return all(cs) and (op in ('LtE', 'GtE') or len(self.concrete_list(x)) < len(self.concrete_list(y) or []))
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, ListV) and isinstance(b, ListV):
            x, y = self.concrete_list(a), self.concrete_list(b)
            if x is not None and y is not None:
                for u, v in zip(x, y):
                    q = self.equals(self.resolve(u), self.resolve(v))
                    if q is True:
                        continue
                    if q is False:
                        return self.compare(op, u, v, node)
                    return self.unk('compare %s' % op)
                return {'Lt': len(x) < len(y), 'LtE': len(x) <= len(y), 'Gt': len(x) > len(y), 'GtE': len(x) >= len(y)}[op]
        return self.unk('compare %s' % op)

    def int_cond(self, c, op, ta, tb):
        # a size is at least one
        from .sizes import size_cond
        return size_cond(c, op, ta, tb)

    def is_same(self, a, b, node):
        if isinstance(a, Gamma):
            x, y = self.is_same(a.a, b, node), self.is_same(a.b, b, node)
            return T.ite(a.c, bterm(x), bterm(y))
        if isinstance(b, Gamma):
            return self.is_same(b, a, node)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return T.unknown((a if isinstance(a, Unknown) else b).reason, 'B')
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Rec):
                return T.atom('rec_isnone', self.rec_key(o), sort='B')
            if isinstance(o, FirstOf):
                return T.unknown('search result is None', 'B')
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.equals(a, b)
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.id == b.id
        if isinstance(a, (ListV, DictV)) and type(a) is type(b):
            return a.id == b.id
        if isinstance(a, Tensor) and isinstance(b, Tensor):
            return a is b
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.kind != b.kind or a.copy != b.copy:
                return False
            return T.and_(*[T.eq(x, y) for x, y in zip(a.idx, b.idx)])
        r = self.equals(a, b)
        if r is None:
            return a is b
        return r

    def equals(self, a, b):
        """bool, Term or None (unknown)"""
        if a is b:
            return True
        if isinstance(a, Rec) or isinstance(b, Rec):
            return None
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return unb(T.eq(bterm(a), bterm(b)))
        if isnumv(a) and isnumv(b):
            ta, tb = nterm(a), nterm(b)
            from .sizes import size_eq
            return unb(size_eq(ta, tb))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return unb(T.eq(sterm(a), sterm(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = TRUE
            for x, y in zip(a, b):
                q = self.equals(x, y)
                if q is None:
                    return None
                r = T.and_(r, bterm(q))
            return unb(r)
        if isinstance(a, DT) and isinstance(b, DT):
            if a.name.startswith('sym:') or b.name.startswith('sym:'):
                x, y = sorted((a.name, b.name))
                return T.atom('dtype_eq(%s,%s)' % (x, y), sort='B')
            return a is b
        if isinstance(a, (Dev, str)) and isinstance(b, (Dev, str)) and (isinstance(a, Dev) or isinstance(b, Dev)):
            na, nb = getattr(a, 'name', a), getattr(b, 'name', b)
            if na == nb:
                return True
            if na.startswith('sym:') or nb.startswith('sym:'):
                x, y = sorted((na, nb))
                return T.atom('device_eq(%s,%s)' % (x, y), sort='B')
            return False
        if isinstance(a, Sym) and isinstance(b, Sym):
            return self.is_same(a, b, None)
        if isinstance(a, ListV) and isinstance(b, ListV):
            ca, cb = self.concrete_list(a), self.concrete_list(b)
            if ca is not None and cb is not None:
                return self.equals(tuple(ca), tuple(cb))
            return None
        if isinstance(a, Obj) and isinstance(b, Obj):
            f = a.cls.lookup('__eq__')
            if f is None:
                return a.id == b.id
            return None
        if a is None or b is None:
            return a is b
        if isinstance(a, Prim) and isinstance(b, Prim) or isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, (ClassV, FuncV, Custom)) and isinstance(b, (ClassV, FuncV, Custom)):
            return False
        if isinstance(a, Dev) and isinstance(b, Dev):
            return a is b
        consts = (bool, int, float, str, type(None), tuple)
        if isinstance(a, consts) and isinstance(b, consts):
            return a == b
        if type(a) is not type(b):
            kinds = (Num, SBool, SStr, Tensor, Unknown, Sym)
            if isinstance(a, Sym) or isinstance(b, Sym):
                return None
            return False
        return None

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test), e.test)
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Lambda(self, e):
        f = FuncV(e, self.cur_module(), self.frames[-1].env, '<lambda>')
        f.defaults = [self.ev(x) for x in e.args.defaults]
        f.kwdefaults = [self.ev(x) if x is not None else NODEFAULT for x in e.args.kw_defaults]
        return f

    def e_Subscript(self, e):
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        return self.getitem(o, k, e)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.ev(x) if x is not None else None
            return Slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.concrete_list(self.ev(x.value)))
                else:
                    out.append(self.ev_index(x))
            return tuple(out)
        return self.ev(s)

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_Starred(self, e):
        raise Giveup('starred expression')

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else None
        self.frames[-1].yields.append(Seg('item', v=v, cond=self.st.guard))
        return None

    def e_YieldFrom(self, e):
        v = self.ev(e.value)
        if isinstance(v, Rec):
            self.frames[-1].yields.append(Seg('rec', v=v, cond=self.st.guard))
            return Rec(v.fn, ('return',) + v.args, v.kwargs)
        if isinstance(v, GenResult):
            for s in v.segs:
                self.frames[-1].yields.append(s)
            return v.value
        sg = self.iter_segs(v)
        if sg is None:
            return self.unk('yield from')
        self.frames[-1].yields.extend(sg)
        return None

    # comprehensions
    def e_ListComp(self, e):
        return self.comp(e, 'list')

    def e_SetComp(self, e):
        return self.comp(e, 'set')

    def e_GeneratorExp(self, e):
        return self.comp(e, 'list')

    def e_DictComp(self, e):
        from . import loops
        return loops.dict_comp(self, e)

    def comp(self, e, kind):
        from . import loops
        return loops.list_comp(self, e, kind)

    # ------------------------------------------------------------ attribute access
    def getattr(self, o, name, node=None):
        o = self.resolve(o)
        if isinstance(o, Gamma):
            return self.lift(o, lambda x: self.getattr(x, name, node))
        if isinstance(o, Unknown):
            return o
        if isinstance(o, Obj):
            d = self.get(o.id)[1]
            if name in d:
                v = d[name]
                if isinstance(v, Maybe):
                    v = v.v
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return self.new_dict([('item', k, v) for k, v in d.items()])
            a = o.cls.lookup(name)
            if a is not None:
                return self.bind(a, o, node)
            if any(isinstance(b, Ext) for c in o.cls.mro() for b in c.bases):
                return self.unk('inherited external attribute %s' % name)
            if any(e[0] == 'giveup' for e in self.events):
                return self.unk('attribute %s of an object whose construction was not followed' % name)
            raise AbsRaise('AttributeError', node)
        if isinstance(o, (Tensor, Masked)):
            return self.tl.tensor_attr(self, o, name, node)
        if isinstance(o, ModV):
            try:
                return self.modattr(o, name)
            except AbsRaise as r:
                r.node = node
                raise
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            a = o.lookup(name)
            if a is not None:
                if isinstance(a, FuncV) and any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in a.deco):
                    return Bound(a, o)
                return a
            for b in o.mro():
                for c in b.bases:
                    if isinstance(c, Ext):
                        return Ext(c.name + '.' + name) if not c.name.startswith('torch.autograd') else Bound(Prim(name, self.tl.autograd_apply), o)
            raise AbsRaise('AttributeError', node)
        if isinstance(o, Ext):
            if o.name in STDLIB and not hasattr(STDLIB[o.name], name):
                raise AbsRaise('AttributeError', node)
            return self.pl.ext_attr(self, o, name)
        if isinstance(o, Super):
            mro = (o.self.cls if isinstance(o.self, Obj) else o.self).mro() if isinstance(o.self, (Obj, ClassV)) else o.cls.mro()
            k = mro.index(o.cls) + 1 if o.cls in mro else 0
            for c in mro[k:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], o.self, node)
            if name == '__init__':
                return Prim('object.__init__', lambda I, a, kw, n: None)
            raise AbsRaise('AttributeError', node)
        if isinstance(o, Sym):
            return self.sym_attr(o, name, node)
        if isinstance(o, (ListV, DictV, str, SStr, tuple, Num, SymSeq, FuncV, int, float, SBool, range, GenResult, DT, Dev, Bound)) or o is None:
            return self.pl.py_attr(self, o, name, node)
        if isinstance(o, Rec):
            return self.unk('attribute of recursive result')
        if isinstance(o, Custom):
            return o.getattr(self, name, node)
        if isinstance(o, Prim) and name in ('__name__', '__qualname__'):
            return o.name
        if isinstance(o, Prim) and o.name in ('str', 'list', 'dict', 'tuple', 'set', 'int', 'float'):
            if o.name == 'dict' and name == 'fromkeys':
                return Prim('dict.fromkeys', self.pl.dict_fromkeys)
            return Prim(o.name + '.' + name, lambda I, a, k, n: I.call(I.getattr(a[0], name, n), list(a[1:]), k, n))
        return self.unk('attr %s of %s' % (name, type(o).__name__))

    def bind(self, a, o, node=None):
        if isinstance(a, PropV):
            f = a.fget
            if isinstance(f, FuncV):
                return self.call_func(f, [o], {}, node)
            return self.call(f, [o], {}, node)
        if isinstance(a, FuncV):
            for d in a.deco:
                n = ast.unparse(d)
                if n == 'staticmethod':
                    return a
                if n == 'classmethod':
                    return Bound(a, o.cls if isinstance(o, Obj) else o)
                if n == 'property':
                    return self.call(Bound(a, o), [], {}, node)
            return Bound(a, o)
        return a

    def sym_attr(self, o, name, node):
        sc = self.schema.get(o.kind, {})
        ov = self.st.heap.get(('sym', o.kind, o.idx, o.copy, name))
        if ov is not None:
            return ov[1]
        if name in sc:
            return sc[name](self, o)
        if '*' in sc:
            v = sc['*'](self, o, name)
            if v is not None:
                return v
        cls = self.sym_class.get(o.kind)
        if cls is not None:
            a = cls.lookup(name)
            if a is not None:
                return self.bind(a, o, node)
        return self.unk('attribute %s of external %s' % (name, o.kind))

    def setattr(self, o, name, v, node=None):
        o = self.resolve(o)
        if isinstance(o, Gamma):
            self.lift(o, lambda x: self.setattr(x, name, v, node))
            return
        if isinstance(o, Obj):
            p = o.cls.lookup(name)
            if isinstance(p, PropV):
                if p.fset is None:
                    raise AbsRaise('AttributeError', node)
                self.call(p.fset, [o, v], {}, node)
                return
            self.oset(o, name, v)
            return
        if isinstance(o, Sym):
            self.event('sym_setattr', node, obj=o, attr=name, value=v)
            self.put(('sym', o.kind, o.idx, o.copy, name), ('S', v))
            return
        if isinstance(o, Unknown):
            self.event('unknown_setattr', node, attr=name)
            return
        if isinstance(o, ClassV):
            o.attrs[name] = v
            return
        if isinstance(o, Custom):
            return o.setattr(self, name, v, node)
        if isinstance(o, (Tensor,)):
            self.event('tensor_setattr', node, attr=name, tensor=o)
            return
        if isinstance(o, Ext):
            return
        self.event('unknown_setattr', node, attr=name)

    def getitem(self, o, k, node=None):
        o = self.resolve(o)
        k = self.resolve(k)
        if isinstance(o, Gamma):
            return self.lift(o, lambda x: self.getitem(x, k, node))
        if isinstance(k, Gamma):
            return self.lift(k, lambda x: self.getitem(o, x, node))
        if isinstance(o, Unknown):
            return o
        if isinstance(k, Unknown):
            return k
        if isinstance(o, (Tensor, Masked)):
            return self.tl.getitem(self, o, k, node)
        if isinstance(o, Custom):
            return o.getitem(self, k, node)
        if isinstance(o, Obj):
            f = o.cls.lookup('__getitem__')
            if f is not None:
                return self.call(Bound(f, o), [k], {}, node)
        return self.pl.getitem(self, o, k, node)

    def setitem(self, o, k, v, node=None):
        o = self.resolve(o)
        k = self.resolve(k)
        if isinstance(o, Gamma):
            self.lift(o, lambda x: self.setitem(x, k, v, node))
            return
        if isinstance(k, Gamma):
            self.lift(k, lambda x: self.setitem(o, x, v, node))
            return
        if isinstance(v, Gamma):
            v = self.resolve(v)
        if isinstance(o, Tensor):
            if isinstance(v, Gamma):
                self.lift(v, lambda x: self.tl.setitem(self, o, k, x, node))
                return
            self.tl.setitem(self, o, k, v, node)
            return
        if isinstance(o, Unknown):
            self.event('unknown_setitem', node)
            return
        self.pl.setitem(self, o, k, v, node)

    def length(self, v):
        v = self.resolve(v)
        if isinstance(v, Gamma):
            return self.lift(v, self.length)
        if isinstance(v, Unknown):
            return v
        if isinstance(v, (tuple, str, range)):
            return len(v)
        if isinstance(v, Tensor):
            if not v.shape:
                raise AbsRaise('TypeError')
            return dval(v.shape[0])
        if isinstance(v, (ListV, SymSeq)):
            segs = self.segs(v) if isinstance(v, ListV) else v.segs
            if isinstance(v, ListV) and v.kind == 'set' and len(segs) > 1:
                return self.unk('len of set')
            t = T.ZERO
            from .loops import seg_count
            for s in segs:
                c = seg_count(self, s)
                if c is None:
                    return self.unk('len of symbolic list')
                t = T.add(t, c)
            return int(t.args[0]) if t.op == 'num' else Num(t, 'i')
        if isinstance(v, DictV):
            items = self.get(v.id)[1]
            if all(i[0] == 'item' and not isinstance(i[2], Maybe) for i in items):
                return len(items)
            if len(items) == 1 and items[0][0] == 'map':
                return Num(items[0][2], 'i')
            return self.unk('len of dict')
        if isinstance(v, Obj):
            f = v.cls.lookup('__len__')
            if f is not None:
                return self.call(Bound(f, v), [], {}, None)
        if isinstance(v, Custom):
            return v.length(self)
        return self.unk('len of %s' % type(v).__name__)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if not e.args:
                for fr in reversed(self.frames):
                    if fr.fn is not None and fr.fn.cls is not None:
                        first = fr.fn.node.args.args[0].arg
                        return Super(fr.fn.cls, self.get(fr.env)[1][first])
            else:
                return Super(self.ev(e.args[0]), self.ev(e.args[1]))
        f = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                c = self.concrete_list(v)
                if c is None:
                    if isinstance(v, Unknown):
                        args.append(StarUnknown(v))
                        continue
                    args.append(StarSeq(v))
                    continue
                args.extend(c)
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                d = self.resolve(d)
                if isinstance(d, DictV):
                    for it in self.get(d.id)[1]:
                        if it[0] == 'item' and isinstance(it[1], str):
                            v = it[2]
                            kwargs[it[1]] = v
                        else:
                            return self.unk('**kwargs')
                else:
                    return self.unk('**kwargs')
            else:
                kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs, e)

    def call(self, f, args, kwargs, node=None):
        self.calls += 1
        f = self.resolve(f)
        if isinstance(f, Gamma):
            return self.lift(f, lambda x: self.call(x, args, kwargs, node))
        if isinstance(f, Unknown):
            self.escape(args, kwargs, f.reason)
            return f
        if isinstance(f, Prim):
            return f.f(self, args, kwargs, node)
        if isinstance(f, Bound):
            if isinstance(f.fn, FuncV):
                return self.call_func(f.fn, [f.self] + list(args), kwargs, node)
            if isinstance(f.fn, Prim):
                return f.fn.f(self, [f.self] + list(args), kwargs, node)
            return self.call(f.fn, [f.self] + list(args), kwargs, node)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, Ext):
            return self.pl.call_ext(self, f, args, kwargs, node)
        if isinstance(f, Obj):
            g = f.cls.lookup('__call__')
            if g is not None:
                return self.call_func(g, [f] + list(args), kwargs, node)
        if isinstance(f, Sym):
            sc = self.schema.get(f.kind, {})
            if '()' in sc:
                return sc['()'](self, f, args, kwargs)
        if isinstance(f, DT):
            return self.unk('dtype call')
        return self.unk('call of %s' % type(f).__name__)

    def escape(self, args, kwargs, reason):
        """mutable values handed to an unknown callee: contents become unknown"""
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, Obj):
                self.event('escape', None, obj=a, why=reason)

    def instantiate(self, cls, args, kwargs, node):
        if any(isinstance(b, Ext) and b.name.split('.')[-1] in EXC_PARENTS for c in cls.mro() for b in c.bases):
            return self.unk('exception object')
        o = self.new_obj(cls)
        self.event('construct', node, cls=cls)
        nw = cls.lookup('__init__')
        if nw is not None:
            self.call_func(nw, [o] + list(args), kwargs, node)
        return o

    def call_func(self, f, args, kwargs, node):
        q = f.mod.name + ':' + f.qual
        if q in self.overrides:
            return self.overrides[q](self, args, kwargs, node)
        if len(self.frames) > self.MAX_DEPTH:
            return self.unk('call depth')
        # recursion
        for fr in self.frames:
            if fr.fn is not None and fr.fn.node is f.node and self.break_recursion:
                if any(isinstance(a, (Sym, Rec)) for a in args) or self._depth_of(f) > 24:
                    return Rec(f, args, kwargs)
        if f.deco and self.lru and not f.qual.startswith('<'):
            for dec in f.deco:
                n = ast.unparse(dec)
                if n.split('(')[0] in ('lru_cache', 'functools.lru_cache', 'cache', 'functools.cache'):
                    key = self.lru_key(args, kwargs)
                    if key is not None:
                        key = ('lru', id(f.node), key)
                        hit = self.st.heap.get(key)
                        if hit is not None:
                            return hit[1]
                        g = FuncV(f.node, f.mod, f.env, f.name, f.cls, [d for d in f.deco if d is not dec], f.qual)
                        g.defaults, g.kwdefaults = f.defaults, f.kwdefaults
                        v = self.call_func(g, args, kwargs, node)
                        self.put(key, ('S', v))
                        return v
        if any(isinstance(a, (StarUnknown, StarSeq)) for a in args):
            if f.node.args.vararg is None:
                return self.unk('*args of unknown length')
        env = self.newid()
        d = {'__parent__': f.env}
        try:
            self.bind_args(f, args, kwargs, d, node)
        except AbsRaise:
            raise
        self.put(env, ('E', d))
        if f.mod.name != self.tl.PRELUDE:
            self.functions_seen.add(f.mod.name + ':' + f.qual)
        for dec in f.deco:
            n = ast.unparse(dec)
            if 'contextmanager' in n:
                return self.unk('context manager')
        fr = Frame(f, env)
        if self.is_generator(f):
            fr.yields = []
        self.frames.append(fr)
        entry = self.st
        eguard, efacts = entry.guard, entry.facts
        self.guards.append(eguard)
        self.st = State(entry.heap, TRUE, efacts)
        nog = getattr(self, 'no_grad', 0)
        if any('no_grad' in ast.unparse(d_) for d_ in f.deco):
            self.no_grad = nog + 1
        loops_saved = None
        ok = False
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body)
                fr.returns.append((self.st.guard, v, self.st, f.node))
                self.st.dead = 'return'
            else:
                self.exec_block(f.node.body)
            ok = True
        except Giveup as g:
            # unmodelled construct: result unknown, effects of the executed prefix kept
            self.unknown_ops['giveup: ' + str(g)] = self.unknown_ops.get('giveup: ' + str(g), 0) + 1
            self.guards.pop()
            self.frames.pop()
            self.no_grad = nog
            self.st = State(self.st.heap, eguard, efacts)
            self.event('giveup', node, why=str(g), callee=f.qual)
            for a in list(args) + list(kwargs.values()):
                self.havoc_value(a, str(g))
            return Unknown('giveup in %s: %s' % (f.qual, g))
        finally:
            if not ok and self.frames and self.frames[-1] is fr:
                self.guards.pop()
                self.frames.pop()
                self.no_grad = nog
                self.st = State(self.st.heap, eguard, efacts)
        self.guards.pop()
        self.frames.pop()
        self.no_grad = nog
        outs = list(fr.returns)
        if not self.st.dead:
            outs.append((self.st.guard, None, self.st, f.node))
        if not outs:
            self.st = State(self.st.heap, eguard, efacts)
            raise AbsRaise('Exception', node)
        g, v, st, _ = outs[-1]
        acc, val = st, v
        for g, v2, s2, _ in reversed(outs[:-1]):
            new = State(dict(acc.heap), T.or_(s2.guard, acc.guard), efacts)
            self.st = new
            self.join_heaps(g, s2, acc)
            acc = self.st
            if v2 is None and val is None:
                continue
            self.st.facts = efacts
            val = self.join(g, v2, val)
        self.st = State(acc.heap, eguard if not acc.guard.unk else eguard, efacts)
        if fr.yields is not None:
            return GenResult(tuple(fr.yields), val)
        return val

    def lru_key(self, args, kwargs):
        out = []
        for k, a in list(enumerate(args)) + sorted(kwargs.items()):
            a = self.resolve(a)
            if isinstance(a, Obj):
                out.append((k, 'o', a.id))
            elif isinstance(a, (str, bool, int, float, type(None))):
                out.append((k, type(a).__name__, a))
            elif isinstance(a, (DT, Dev)):
                out.append((k, repr(a)))
            elif isinstance(a, (ListV, DictV)):
                raise AbsRaise('TypeError')
            else:
                return None
        return tuple(out)

    def havoc_value(self, v, reason):
        if isinstance(v, Tensor) and v.leaf is None:
            pass

    def _depth_of(self, f):
        return sum(1 for fr in self.frames if fr.fn is not None and fr.fn.node is f.node)

    def is_generator(self, f):
        r = _gen_cache.get(id(f.node))
        if r is None:
            r = False
            if not isinstance(f.node, ast.Lambda):
                stack = list(f.node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.Yield, ast.YieldFrom)):
                        r = True
                        break
                    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    stack.extend(ast.iter_child_nodes(n))
            _gen_cache[id(f.node)] = r
            _gen_keep.append(f.node)
        return r

    def bind_args(self, f, args, kwargs, d, node):
        a = f.node.args
        params = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        args = list(args)
        kwargs = dict(kwargs)
        star = [x for x in args if isinstance(x, (StarSeq, StarUnknown))]
        if star:
            pos = [x for x in args if not isinstance(x, (StarSeq, StarUnknown))]
            if len(pos) > len(params):
                raise Giveup('star args')
            for p, v in zip(params, pos):
                d[p] = v
            if len(pos) < len(params):
                raise Giveup('star args')
            d[a.vararg.arg] = star[0].v
        else:
            n = min(len(args), len(params))
            for p, v in zip(params, args):
                d[p] = v
            if len(args) > len(params):
                if a.vararg is None:
                    raise AbsRaise('TypeError', node)
                d[a.vararg.arg] = tuple(args[n:])
            elif a.vararg is not None:
                d[a.vararg.arg] = ()
        for k in list(kwargs):
            if k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    raise AbsRaise('TypeError', node)
                d[k] = kwargs.pop(k)
        nd = len(f.defaults or [])
        for p, v in zip(params[len(params) - nd:], f.defaults or []):
            if p not in d:
                d[p] = v
        for p, v in zip([x.arg for x in a.kwonlyargs], f.kwdefaults or []):
            if p not in d and v is not NODEFAULT:
                d[p] = v
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in d:
                raise AbsRaise('TypeError', node)
        if a.kwarg is not None:
            d[a.kwarg.arg] = self.new_dict([('item', k, v) for k, v in kwargs.items()])
        elif kwargs:
            raise AbsRaise('TypeError', node)


_gen_cache = {}
_gen_keep = []
NODEFAULT = object()


class Maybe:
    """value bound only under a condition"""
    __slots__ = ('c', 'v')

    def __init__(self, c, v):
        self.c, self.v = c, v


class GenResult:
    __slots__ = ('segs', 'value')

    def __init__(self, segs, value):
        self.segs, self.value = segs, value


class StarUnknown:
    def __init__(self, v):
        self.v = v


class StarSeq:
    def __init__(self, v):
        self.v = v


class CtxVal:
    def __init__(self, name):
        self.name = name


class TaggedOutcome:
    pass


def _stdlib():
    import collections, collections.abc, copy, functools, itertools, math, operator
    return {m.__name__.lstrip('_'): m for m in (collections, collections.abc, copy, functools, itertools, math, operator)}


STDLIB = _stdlib()      # their public names (of the interpreter that runs the analyser)


class Custom:
    """base of rule-specific abstract objects"""
    truth = None

    def getattr(self, I, name, node):
        return I.unk('attr %s' % name)

    def setattr(self, I, name, v, node):
        pass

    def getitem(self, I, k, node):
        return I.unk('getitem')

    def length(self, I):
        return I.unk('len')


class Text(Custom):
    """text some of whose words are numbers with a symbolic value: concrete pieces and NumStr"""
    pytype = 'str'

    def __init__(self, parts, words=None):
        self.parts = parts
        self.words = words if words is not None else tokens(parts)
        self.truth = bool(self.words)

    def getattr(self, I, name, node):
        if name == 'split':
            return Prim('str.split', lambda I, a, k, n: (I.list_of(list(self.words)) if self.words is not None else I.unk('words of a text')) if not a and not k or (a and a[0] in (None, ' ')) else I.list_of([self]))
        if name in ('strip', 'lstrip', 'rstrip'):
            return Prim('str.' + name, lambda I, a, k, n: text_of(strip(self.parts, name, *a)) if not a or isinstance(a[0], str) else I.unk('strip'))
        if not hasattr(str, name):
            raise AbsRaise('AttributeError', node)
        return I.unk('str.%s of a text with symbolic numbers' % name)

    def length(self, I):
        return I.unk('length of text')


def tokens(parts):
    """words of a text; None when a number is glued to something else"""
    out, glued = [], False
    for p in parts:
        if isinstance(p, str):
            if not p:
                continue
            ws = p.split()
            if glued and not p[0].isspace() or (ws and not p[-1].isspace() and p is not parts[-1]):
                return None
            out += ws
            glued = False
        else:
            if glued:
                return None
            out.append(p)
            glued = True
    return out


def strip(parts, how, *chars):
    parts = list(parts)
    if parts and how in ('strip', 'lstrip') and isinstance(parts[0], str):
        parts[0] = parts[0].lstrip(*chars)
    if parts and how in ('strip', 'rstrip') and isinstance(parts[-1], str):
        parts[-1] = parts[-1].rstrip(*chars)
    return parts


def text_of(parts):
    """concatenation of str, SStr, NumStr and Text"""
    flat = []
    for p in parts:
        flat += p.parts if isinstance(p, Text) else [p]
    flat = [p for p in flat if p != '']
    out = []
    for p in flat:
        if out and isinstance(p, str) and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    if all(isinstance(p, (str, NumStr)) for p in out):
        return Text(out)
    return SStr(concat([sterm(p) for p in out]))


EXACT = {'', 'r', 's', '!r', '!s', '.17g', '.17e', '.16e', '.18e', '.18g', 'd'}


def numtext(v, spec=''):
    """decimal text of a number; a format that may lose digits gives the text of another number"""
    t = v.t if spec in EXACT else T.fn('rounded ' + spec, v.t)
    return NumStr(T._mk('fn', ('text', t), 'S'), t)


def format_pieces(fmt, args, kwargs):
    """pieces of str.format on a concrete format; None when not understood"""
    import string
    out, auto = [], 0
    try:
        fields = list(string.Formatter().parse(fmt))
    except ValueError:
        return None
    for lit, name, spec, conv in fields:
        out.append(lit)
        if name is None:
            continue
        if name == '':
            name, auto = auto, auto + 1
        elif name.isdigit():
            name = int(name)
        try:
            v = args[name] if isinstance(name, int) else kwargs[name]
        except (IndexError, KeyError):
            return None
        p = piece(v, spec or ('!' + conv if conv else ''))
        if p is None:
            return None
        out.append(p)
    return out


def percent_pieces(fmt, args):
    import re
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%(%|([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z]))', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            out.append('%')
            continue
        if k >= len(args):
            return None
        p = piece(args[k], (m.group(2) + m.group(3)) if m.group(2) or m.group(3) not in 'sr' else '')
        k += 1
        if p is None:
            return None
        out.append(p)
    out.append(fmt[pos:])
    return out if k == len(args) else None


def piece(v, spec):
    if isinstance(v, Num):
        return numtext(v, spec if not (spec == 'd' and v.kind != 'i') else '.0d')
    if spec in ('', '!s', 's') and isinstance(v, (str, SStr, Text)):
        return v
    if isinstance(v, (str, int, float, bool)) or v is None:
        try:
            return '{!r}'.format(v) if spec == '!r' else str(v) if spec == '!s' else format(v, spec)
        except (ValueError, TypeError):
            return None
    return None


def memo(fn):
    if getattr(fn, '_memo', False):
        return fn
    cache = {}

    def g(idx):
        k = tuple(i.id for i in idx)
        r = cache.get(k)
        if r is None:
            r = fn(idx)
            cache[k] = r
        return r
    g._memo = True
    return g


def isnumv(v):
    return isinstance(v, (int, float, Num)) or isinstance(v, SBool)


def numkind(v):
    if isinstance(v, Num):
        return v.kind
    return 'i' if isinstance(v, (int, bool, SBool)) else 'f'


def nterm(v):
    if isinstance(v, Num):
        return v.t
    if isinstance(v, SBool):
        return T.ite(v.t, T.ONE, T.ZERO)
    if isinstance(v, bool):
        return num(int(v))
    return num(v)


def bterm(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, Term):
        return v
    return TRUE if v else FALSE


def sterm(v):
    return v.t if isinstance(v, SStr) else T.string(v)


def unb(t):
    return True if t is TRUE else False if t is FALSE else t


def mkbool(t):
    return True if t is TRUE else False if t is FALSE else SBool(t)


def concat(ts):
    out = []
    for t in ts:
        if t.op == 'fn' and t.args[0] == 'concat':
            out.extend(t.args[1:])
        else:
            out.append(t)
    res = []
    for t in out:
        if t.op == 'str' and t.args[0] == '':
            continue
        if res and t.op == 'str' and res[-1].op == 'str':
            res[-1] = T.string(res[-1].args[0] + t.args[0])
        else:
            res.append(t)
    if not res:
        return T.string('')
    if len(res) == 1:
        return res[0]
    return T._mk('fn', ('concat',) + tuple(res), 'S')
