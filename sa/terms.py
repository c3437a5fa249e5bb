"""Scalar terms of the value graph and their normal form.

A term is a hash-consed DAG node.  The normal form of a real/int term is an algebraic decision diagram whose inner
nodes are canonical atomic conditions and whose leaves are polynomials (with integer exponents) over canonical atoms;
the normal form of a boolean term is the same diagram with leaves 0/1.
"""
from fractions import Fraction
import math
import sys

sys.setrecursionlimit(200000)

F = Fraction


class Term:
    __slots__ = ('op', 'args', 'id', 'sort', 'unk', '__weakref__')

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def _mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, Term) else ('#', a) for a in args), sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        _count[0] += 1
        t.id = _count[0]
        t.unk = op == 'unknown' or any(isinstance(a, Term) and a.unk for a in args)
        _table[key] = t
    return t


# ---------------------------------------------------------------- constructors
def num(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if math.isinf(x):
            return _mk('inf', (), 'R') if x > 0 else mul(num(-1), _mk('inf', (), 'R'))
        if math.isnan(x):
            return NAN
        for k, t in ((math.pi, PI),):
            if x == k:
                return t
            for m in (2, F(1, 2), -1, F(-1, 2), F(1, 180), 180, 4, F(1, 4), -2):
                if x == float(m) * k or x == k * float(m):
                    return mul(num(F(m)), t)
        x = F(repr(x))
    return _mk('num', (F(x),), 'R')


def atom(name, *idx, sort='R'):
    return _mk('atom', (name,) + tuple(num(i) if not isinstance(i, Term) else i for i in idx), sort)


_fresh = [0]
RANGE = {}     # term id of an index variable -> number of values (Term)
NONNEG = set()   # ids of int atoms known to be >= 0


def fresh(prefix, sort='R', rng=None):
    _fresh[0] += 1
    t = atom('%s!%d' % (prefix, _fresh[0]), sort=sort)
    if rng is not None:
        RANGE[t.id] = num(rng)
    return t


PI = _mk('pi', (), 'R')
NAN = _mk('nan', (), 'R')
TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')
INF = _mk('inf', (), 'R')
ZERO = _mk('num', (F(0),), 'R')
ONE = _mk('num', (F(1),), 'R')


def unknown(reason, sort='R'):
    return _mk('unknown', (reason,), sort)


def isnum(t):
    return t.op == 'num'


def val(t):
    return t.args[0]


def add(*xs):
    c = F(0)
    out = []
    for x in xs:
        if x.sort == 'B':
            x = ite(x, ONE, ZERO)
        if x.op == 'num':
            c += x.args[0]
        elif x.op == 'add':
            for y in x.args:
                if y.op == 'num':
                    c += y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0 or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return _mk('add', tuple(out), 'R')


def mul(*xs):
    c = F(1)
    out = []
    for x in xs:
        if x.sort == 'B':
            x = ite(x, ONE, ZERO)
        if x.op == 'num':
            c *= x.args[0]
        elif x.op == 'mul':
            for y in x.args:
                if y.op == 'num':
                    c *= y.args[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        if any(x.op in ('inf', 'nan') for x in out):
            return NAN
        # 0 * term is taken as 0 (structural zeros of matrices)
        return ZERO
    if c != 1 or not out:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return _mk('mul', tuple(out), 'R')


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def pw(x, n):
    if n == 0:
        return ONE
    if n == 1:
        return x
    if x.op == 'num' and (x.args[0] != 0 or n > 0):
        return num(x.args[0] ** n)
    if x.op == 'pw':
        return pw(x.args[0], x.args[1] * n)
    if x.op == 'ite' and x.args[1].op == 'num' and x.args[2].op == 'num' and x.args[1].args[0] and x.args[2].args[0]:
        return ite(x.args[0], pw(x.args[1], n), pw(x.args[2], n))
    return _mk('pw', (x, n), 'R')


def div(a, b):
    if b.op == 'num' and b.args[0] == 0:
        return NAN if (a.op == 'num' and a.args[0] == 0) else unknown('division by zero')
    return mul(a, pw(b, -1))


_over = {}


def over(t, limit):
    """more than `limit` nodes"""
    r = _over.get(t.id)
    if r is not None and r[0] == limit:
        return r[1]
    seen = set()
    st = [t]
    res = False
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if len(seen) > limit:
            res = True
            break
        st.extend(a for a in x.args if isinstance(a, Term))
    _over[t.id] = (limit, res)
    return res


def sg(x):
    """the value x as a constant: reverse-mode differentiation stops here"""
    if x.op in ('num', 'true', 'false', 'str', 'pi', 'inf', 'nan', 'unknown') or x.op == 'fn' and x.args[0] == 'sg':
        return x
    return _mk('fn', ('sg', x), 'R')


def unstop(t, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == 'fn' and t.args[0] == 'sg':
        r = unstop(t.args[1], memo)
    elif not t.args:
        return t
    else:
        new = tuple(unstop(a, memo) if isinstance(a, Term) else a for a in t.args)
        r = rebuild(t, new) if any(a is not b for a, b in zip(new, t.args)) else t
    memo[t.id] = r
    return r


_FN1 = {'sin': 0, 'tan': 0, 'asin': 0, 'atan': 0, 'sqrt': 0, 'abs': 0, 'sign': 0}


def fn(name, *args, sort='R'):
    args = tuple(num(a) if not isinstance(a, Term) else a for a in args)
    if len(args) == 1 and args[0].op == 'num':
        v = args[0].args[0]
        if v == 0:
            if name in _FN1:
                return ZERO
            if name in ('cos', 'exp'):
                return ONE
        if name == 'abs':
            return num(abs(v))
        if name == 'sign':
            return num((v > 0) - (v < 0))
        if name == 'sqrt' and v >= 0:
            r = F(math.isqrt(v.numerator), math.isqrt(v.denominator))
            if r * r == v:
                return num(r)
        if name == 'floor':
            return num(math.floor(v))
    if name == 'atan2' and args[0].op == 'num' and args[1].op == 'num':
        y, x = args[0].args[0], args[1].args[0]
        if y == 0 and x > 0:
            return ZERO
    if name == 'abs' and args[0].op == 'fn' and args[0].args[0] in ('abs', 'sqrt'):
        return args[0]
    if name in ('idiv', 'mod'):
        return _divmod(name, args[0], args[1])
    if name == 'int' and len(args) == 1 and args[0].op in ('atom', 'num'):
        pass
    return _mk('fn', (name,) + args, sort)


def _bounded(y, b):
    """0 <= y < b known?"""
    if y.op == 'num' and b.op == 'num':
        return 0 <= y.args[0] < b.args[0]
    if y.op == 'num' and y.args[0] == 0:
        return True
    r = RANGE.get(y.id)
    if r is not None and nf_same(r, b):
        return True
    if r is not None and r.op == 'num' and b.op == 'num' and r.args[0] <= b.args[0]:
        return True
    if y.op == 'fn' and y.args[0] == 'mod' and nf_same(y.args[2], b):
        return True
    return False


def _split(x, b):
    """write x = b*q + r syntactically (monomials divisible by b go into q)"""
    xs = list(x.args) if x.op == 'add' else [x]
    q, r = [], []
    bl = [b.id] if b.op not in ('mul', 'num') else None
    for m in xs:
        d = _mono_div(m, b)
        if d is not None:
            q.append(d)
        else:
            r.append(m)
    return add(*q) if q else ZERO, add(*r) if r else ZERO


def _mono_div(m, b):
    if b.op == 'num':
        bv = b.args[0]
        if m.op == 'num':
            return num(m.args[0] / bv) if (m.args[0] / bv).denominator == 1 else None
        if m.op == 'mul' and m.args[0].op == 'num' and (m.args[0].args[0] / bv).denominator == 1:
            return mul(num(m.args[0].args[0] / bv), *m.args[1:])
        return None
    mf = list(m.args) if m.op == 'mul' else [m]
    bf = list(b.args) if b.op == 'mul' else [b]
    for g in bf:
        if g.op == 'num':
            hit = None
            for i, h in enumerate(mf):
                if h.op == 'num' and (h.args[0] / g.args[0]).denominator == 1:
                    hit = i
            if hit is None:
                return None
            mf[hit] = num(mf[hit].args[0] / g.args[0])
            continue
        for i, h in enumerate(mf):
            if h is g:
                del mf[i]
                break
        else:
            return None
    return mul(*mf) if mf else ONE


def _distribute(x):
    """expand products over sums (index expressions only)"""
    if x.op == 'mul':
        parts = [[]]
        for f in x.args:
            f = _distribute(f)
            if f.op == 'add':
                parts = [p + [g] for p in parts for g in f.args]
            else:
                parts = [p + [f] for p in parts]
        if len(parts) > 1:
            return add(*[mul(*p) for p in parts])
        return mul(*parts[0])
    if x.op == 'add':
        return add(*[_distribute(a) for a in x.args])
    return x


def _divmod(name, x, b):
    x = _distribute(x)
    if b.op == 'num' and b.args[0] == 1:
        return x if name == 'idiv' else ZERO
    if x.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(x.args[0] // b.args[0]) if name == 'idiv' else num(x.args[0] % b.args[0])
    q, r = _split(x, b)
    # recombine (y div b)*b + (y mod b)
    if _bounded(r, b):
        return q if name == 'idiv' else r
    if q is not ZERO and not (r is x):
        if name == 'idiv':
            return add(q, _mk('fn', ('idiv', r, b), 'R'))
        return _mk('fn', ('mod', r, b), 'R')
    # nested: (x idiv a) idiv b, (x idiv a) mod b kept as atoms
    return _mk('fn', (name, x, b), 'R')


def lift_flat(x):
    """simplify  b*(y idiv b) + (y mod b)  ->  y   inside a sum"""
    x = _distribute(x)
    if x.op != 'add':
        return x
    xs = list(x.args)
    changed = True
    while changed:
        changed = False
        for i, m in enumerate(xs):
            if m.op == 'fn' and m.args[0] == 'mod':
                y, b = m.args[1], m.args[2]
                want = mul(b, _mk('fn', ('idiv', y, b), 'R')) if True else None
                for j, g in enumerate(xs):
                    if j != i and (g is want or nf_same(g, want)):
                        rest = [h for k, h in enumerate(xs) if k not in (i, j)]
                        xs = list(add(*(rest + [y])).args) if len(rest) else [y]
                        changed = True
                        break
                if changed:
                    break
    return add(*xs)


# ---- booleans
def lt(a, b):
    d = sub(a, b)
    if d.op == 'num':
        return TRUE if d.args[0] < 0 else FALSE
    return _mk('lt', (a, b), 'B')


def gt(a, b):
    return lt(b, a)


def le(a, b):
    return not_(lt(b, a))


def ge(a, b):
    return not_(lt(a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'S' or b.sort == 'S':
        if a.op == 'str' and b.op == 'str':
            return FALSE
        if a.op == 'ite':
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == 'ite':
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if b.id < a.id:
            a, b = b, a
        return _mk('seq', (a, b), 'B')
    if a.sort == 'B' and b.sort == 'B':
        return ite(a, b, not_(b))
    d = sub(a, b)
    if d.op == 'num':
        return TRUE if d.args[0] == 0 else FALSE
    if a.op == 'ite' and b.op == 'num':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    # index variables vs out of range constants
    for x, y in ((a, b), (b, a)):
        if y.op == 'num' and x.id in RANGE and (y.args[0] < 0 or (RANGE[x.id].op == 'num' and y.args[0] >= RANGE[x.id].args[0])):
            return FALSE
    if b.id < a.id:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', (a,), 'B')


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.args:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), 'B')


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 'B' and b.sort == 'B':
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    return _mk('ite', (c, a, b), a.sort if a.sort == b.sort else 'R')


def string(s):
    return _mk('str', (s,), 'S')


def tosum(var, n, body):
    if body is ZERO:
        return ZERO
    return _mk('sum', (var, n, body), 'R')


def exists(var, n, body):
    if body in (TRUE, FALSE):
        return body
    if var.id not in free_ids(body) and var.id in RANGE:
        return body      # a batch is taken to be non-empty
    return _mk('exists', (var, n, body), 'B')


def forall(var, n, body):
    return not_(exists(var, n, not_(body)))


def extremum(kind, var, n, body):
    if var.id not in free_ids(body):
        return body
    return _mk('extr', (kind, var, n, body), 'R')


def select_last(var, n, cond, body, default):
    """value of body at the last var with cond, or default"""
    if var.id not in free_ids(cond) and cond is FALSE:
        return default
    return _mk('sel', (var, n, cond, body, default), body.sort)


# ---------------------------------------------------------------- traversal
BINDERS = {'sum': 0, 'exists': 0, 'extr': 1, 'sel': 0}
_free = {}


def free_ids(t):
    """ids of all atom sub-terms of t that occur free"""
    r = _free.get(t.id)
    if r is not None:
        return r
    s = set()
    if t.op == 'atom':
        s.add(t.id)
    for a in t.args:
        if isinstance(a, Term):
            s |= free_ids(a)
    if t.op in BINDERS:
        v = t.args[BINDERS[t.op]]
        s = set(s)
        s.discard(v.id)
        if isinstance(t.args[BINDERS[t.op] + 1], Term):
            s |= free_ids(t.args[BINDERS[t.op] + 1])
    r = frozenset(s)
    _free[t.id] = r
    return r


def atom_names(t, seen=None, out=None):
    if seen is None:
        seen, out = set(), set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'atom':
            out.add(x.args[0])
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)
    return out


def unknown_reasons(t):
    seen, out = set(), set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen or not x.unk:
            continue
        seen.add(x.id)
        if x.op == 'unknown':
            out.add(x.args[0])
        for a in x.args:
            if isinstance(a, Term):
                stack.append(a)
    return out


def rebuild(t, args):
    op = t.op
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'pw':
        return pw(args[0], args[1])
    if op == 'fn':
        return fn(*args, sort=t.sort)
    if op == 'lt':
        return lt(*args)
    if op in ('eq', 'seq'):
        return eq(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'atom':
        return atom(*args, sort=t.sort)
    if op == 'sum':
        return tosum(*args)
    if op == 'exists':
        return exists(*args)
    if op == 'extr':
        return extremum(*args)
    if op == 'sel':
        return select_last(*args)
    return _mk(op, tuple(args), t.sort)


def subst(t, mapping, memo=None):
    """mapping: {id of term -> Term}"""
    if not mapping:
        return t
    if memo is None:
        memo = {}
    return _subst(t, mapping, memo)


def _subst(t, mp, memo):
    r = mp.get(t.id)
    if r is not None:
        return r
    r = memo.get(t.id)
    if r is not None:
        return r
    if not t.args:
        return t
    new = []
    ch = False
    for a in t.args:
        if isinstance(a, Term):
            b = _subst(a, mp, memo)
            ch |= b is not a
            new.append(b)
        else:
            new.append(a)
    r = rebuild(t, tuple(new)) if ch else t
    memo[t.id] = r
    return r


def map_atoms(t, f, memo=None):
    """rebuild t with f applied to every atom (after its indices); f returns a Term or None"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    new, ch = [], False
    for a in t.args:
        if isinstance(a, Term):
            b = map_atoms(a, f, memo)
            ch |= b is not a
            new.append(b)
        else:
            new.append(a)
    r = rebuild(t, tuple(new)) if ch else t
    if r.op == 'atom':
        s = f(r)
        if s is not None:
            r = s
    memo[t.id] = r
    return r


def assume(t, facts, memo=None):
    """simplify t under facts: {cond term id: bool}"""
    if not facts:
        return t
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.id in facts:
            r = TRUE if facts[x.id] else FALSE
        elif not x.args:
            r = x
        else:
            new, ch = [], False
            for a in x.args:
                if isinstance(a, Term):
                    b = go(a)
                    ch |= b is not a
                    new.append(b)
                else:
                    new.append(a)
            r = rebuild(x, tuple(new)) if ch else x
        memo[x.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- normal form
class Poly:
    __slots__ = ('d', '_key')

    def __init__(self, d):
        self.d = d
        self._key = None

    def key(self):
        if self._key is None:
            self._key = ('P',) + tuple(sorted(self.d.items()))
        return self._key


class Ite:
    __slots__ = ('c', 'hi', 'lo', '_key')

    def __init__(self, c, hi, lo):
        self.c, self.hi, self.lo = c, hi, lo
        self._key = None

    def key(self):
        if self._key is None:
            self._key = ('I', self.c, self.hi.key(), self.lo.key())
        return self._key


class TooBig(Exception):
    pass


_atoms = {}      # key -> id
_akeys = []      # id -> (key, info)
_conds = {}
_ckeys = []
UNIT_RULES = {}  # atom name -> index (last concrete position) rules: name -> dim : x[...,dim-1]^2 -> 1 - sum others^2
SIZE_LIMIT = 60000
_budget = [None]


def _aid(key, info=None):
    i = _atoms.get(key)
    if i is None:
        i = len(_akeys)
        _atoms[key] = i
        _akeys.append((key, info))
    return i


def _cid(key, info=None):
    i = _conds.get(key)
    if i is None:
        i = len(_ckeys)
        _conds[key] = i
        _ckeys.append((key, info))
    return i


P0 = Poly({})
P1 = Poly({(): F(1)})


def pconst(c):
    return Poly({(): F(c)}) if c else P0


def padd(a, b):
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m)
        if v is None:
            d[m] = c
        else:
            v += c
            if v:
                d[m] = v
            else:
                del d[m]
    if len(d) > SIZE_LIMIT:
        raise TooBig()
    return Poly(d)


def pscale(a, c):
    if c == 0:
        return P0
    return Poly({m: k * c for m, k in a.d.items()})


def mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        e2 = d.get(a, 0) + e
        if e2:
            d[a] = e2
        else:
            del d[a]
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a.d) * len(b.d) > 4 * SIZE_LIMIT:
        raise TooBig()
    if len(b.d) < len(a.d):
        a, b = b, a
    out = {}
    red = False
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mono_mul(m1, m2) if m1 and m2 else (m1 or m2)
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            if not red and _needs_reduce(m):
                red = True
    if len(out) > SIZE_LIMIT:
        raise TooBig()
    p = Poly(out)
    return _reduce(p) if red else p


_special = {}    # atom id -> function(exp) -> (Poly, remaining exp) or None


def _needs_reduce(m):
    for a, e in m:
        if (e >= 2 or e <= -2) and a in _special:
            return True
        if a in _iverson and e != 1:
            return True
    return False


_iverson = set()


def _reduce(p):
    """apply x^2 -> poly rules of special atoms until none applies"""
    out = P0
    work = [p]
    while work:
        q = work.pop()
        plain = {}
        for m, c in q.d.items():
            for k, (a, e) in enumerate(m):
                if a in _iverson and e > 1:
                    m2 = m[:k] + ((a, 1),) + m[k + 1:]
                    work.append(Poly({m2: c}))
                    break
                r = _special.get(a)
                if r is not None and e >= 2:
                    rest = m[:k] + (((a, e - 2),) if e > 2 else ()) + m[k + 1:]
                    work.append(pmul(Poly({rest: c}), r))
                    break
                if r is not None and e <= -2 and a in _invsq:
                    rest = m[:k] + (((a, e + 2),) if e < -2 else ()) + m[k + 1:]
                    work.append(pmul(Poly({rest: c}), _pinv(r)))
                    break
            else:
                plain[m] = plain.get(m, 0) + c
        out = padd(out, Poly({m: c for m, c in plain.items() if c}))
    return out


_invsq = set()   # special atoms for which x^-2 -> 1/rule as well (square roots)


def _content(p):
    """leading coefficient in a canonical order"""
    m = min(p.d)
    return p.d[m]


def _pinv(p):
    """1/p for a polynomial leaf"""
    if not p.d:
        return Poly({((_aid(('undef', '1/0')), 1),): F(1)})
    if len(p.d) == 1:
        (m, c), = p.d.items()
        q = Poly({tuple((a, -e) for a, e in m): 1 / c})
        return _reduce(q) if _needs_reduce(next(iter(q.d))) else q
    c = _content(p)
    q = pscale(p, 1 / c)
    a = _aid(('inv', q.key()), q)
    return Poly({((a, 1),): 1 / c})


def node(c, hi, lo):
    if hi is lo or hi.key() == lo.key():
        return hi
    return Ite(c, hi, lo)


def apply(f, *xs, memo=None):
    """apply f to leaves of ADDs"""
    if memo is None:
        memo = {}
    key = tuple(x.key() if len(xs) > 1 else id(x) for x in xs)
    r = memo.get(key)
    if r is not None:
        return r[0]
    cs = [x.c for x in xs if isinstance(x, Ite)]
    if not cs:
        r = f(*xs)
    else:
        c = min(cs)
        r = node(c, apply(f, *[x.hi if isinstance(x, Ite) and x.c == c else x for x in xs], memo=memo),
                 apply(f, *[x.lo if isinstance(x, Ite) and x.c == c else x for x in xs], memo=memo))
    if len(memo) > 20000:
        raise TooBig()
    memo[key] = (r, xs)
    return r


def leaves(x, path=()):
    if isinstance(x, Ite):
        yield from leaves(x.hi, path + ((x.c, True),))
        yield from leaves(x.lo, path + ((x.c, False),))
    else:
        yield path, x


def restrict(x, c, v):
    if not isinstance(x, Ite):
        return x
    if x.c == c:
        return restrict(x.hi if v else x.lo, c, v)
    return node(x.c, restrict(x.hi, c, v), restrict(x.lo, c, v))


_nf = {}


def nf(t):
    r = _nf.get(t.id)
    if r is None:
        r = _nf_compute(t)
        _nf[t.id] = r
    return r


def _nf_compute(t):
    op = t.op
    if op == 'num':
        return pconst(t.args[0])
    if op == 'true':
        return P1
    if op == 'false':
        return P0
    if op in ('pi', 'inf', 'nan'):
        return Poly({((_aid((op,)), 1),): F(1)})
    if op == 'unknown':
        return Poly({((_aid(('unknown', t.id)), 1),): F(1)})
    if op == 'add':
        if all(not isinstance(nf(a), Ite) for a in t.args):
            r = P0
            for a in t.args:
                r = padd(r, nf(a))
            return r
        r = P0
        for a in t.args:
            r = apply(padd, r, nf(a))
        return r
    if op == 'mul':
        r = P1
        for a in t.args:
            r = apply(pmul, r, nf(a))
        return r
    if op == 'pw':
        n = t.args[1]
        b = nf(t.args[0])
        if n < 0:
            b = apply(_pinv, b)
            n = -n
        r = P1
        for _ in range(n):
            r = apply(pmul, r, b)
        return r
    if op == 'ite':
        if t.sort == 'S':
            return Poly({((_aid(('S', t.id)), 1),): F(1)})
        c = nf(t.args[0])
        return apply(_sel3, c, nf(t.args[1]), nf(t.args[2]))
    if op == 'not':
        return apply(lambda x: P0 if x.d else P1, nf(t.args[0]))
    if op == 'and':
        r = P1
        for a in t.args:
            r = apply(lambda x, y: y if x.d else P0, r, nf(a))
        return r
    if op == 'lt':
        return apply(_pos, nf(sub(t.args[1], t.args[0])))
    if op == 'eq':
        return apply(_zero, nf(sub(t.args[0], t.args[1])))
    if op == 'seq':
        ks = [nf_str(a) for a in t.args]
        return _condnode(('seq',) + tuple(sorted(ks)))
    if op == 'atom':
        args = [nf(a) if a.sort != 'S' else Poly({((_aid(('S', nf_str(a))), 1),): F(1)}) for a in t.args[1:]]
        name = t.args[0]

        def leaf(*ps):
            key = ('at', name) + tuple(p.key() for p in ps)
            if t.sort == 'B':
                return _condnode(key)
            a = _aid(key, None)
            _unit_rule(name, a, ps)
            return Poly({((a, 1),): F(1)})
        return apply(leaf, *args) if args else leaf()
    if op == 'fn':
        name = t.args[0]
        args = [nf(a) for a in t.args[1:]]
        if t.sort == 'B':
            return apply(lambda *ps: _condnode(('fn', name) + tuple(p.key() for p in ps)), *args)
        return apply(lambda *ps: _fn_leaf(name, ps), *args)
    if op in ('sum', 'exists', 'extr', 'sel'):
        return _nf_binder(t)
    if op == 'str':
        return Poly({((_aid(('S', nf_str(t))), 1),): F(1)})
    raise TypeError(op)


def nf_str(t):
    """key of a string-sorted term"""
    if t.op == 'str':
        return ('str', t.args[0])
    if t.op == 'atom':
        return ('at', t.args[0]) + tuple(nf(a).key() if a.sort != 'S' else nf_str(a) for a in t.args[1:])
    if t.op == 'ite':
        return ('ite', nf(t.args[0]).key(), nf_str(t.args[1]), nf_str(t.args[2]))
    if t.op == 'fn':
        return ('fn', t.args[0]) + tuple((nf(a).key() if a.sort != 'S' else nf_str(a)) for a in t.args[1:])
    if t.op == 'sel':
        return ('sel', nf(select_last(t.args[0], t.args[1], t.args[2], ONE, ZERO)).key(), t.id)
    return ('o', t.id)


def _sel3(c, a, b):
    return a if c.d else b


def _condnode(key, info=None):
    return Ite(_cid(key, info), P1, P0)


def _known_sign(p):
    """sign of an int polynomial that is an index difference: very partial"""
    return None


def _pos(p):
    """canonical condition p > 0"""
    if not p.d:
        return P0
    if len(p.d) == 1 and () in p.d:
        return P1 if p.d[()] > 0 else P0
    inf = _atoms.get(('inf',))
    if inf is not None:
        for m, c in p.d.items():
            if m == ((inf, 1),):
                return P1 if c > 0 else P0
    c = abs(_content(p))
    q = pscale(p, 1 / c)
    # for -x > 0 keep as its own condition
    return _condnode(('pos', q.key()), q)


def _zero(p):
    if not p.d:
        return P1
    if len(p.d) == 1 and () in p.d:
        return P0
    inf = _atoms.get(('inf',))
    q = pscale(p, 1 / _content(p))
    if len(q.d) == 1:
        # product = 0 : strip exponents
        (m, c), = q.d.items()
        if len(m) == 1 and m[0][1] > 0:
            q = Poly({((m[0][0], 1),): F(1)})
    return _condnode(('zero', q.key()), q)


def _unit_rule(name, a, ps):
    r = UNIT_RULES.get(name)
    if r is None or a in _special:
        return
    dim = r
    last = ps[-1]
    if len(last.d) <= 1 and (not last.d or () in last.d):
        k = last.d.get((), F(0))
        if k == dim - 1:
            p = P1
            for i in range(dim - 1):
                b = _aid(('at', name) + tuple(q.key() for q in ps[:-1]) + (pconst(i).key(),))
                p = padd(p, Poly({((b, 2),): F(-1)}))
            _special[a] = p


def _pneg(p):
    return pscale(p, F(-1))


def _leadneg(p):
    return bool(p.d) and _content(p) < 0


ODD = {'sin', 'tan', 'asin', 'atan', 'sign'}
EVEN = {'cos', 'abs'}


def _fn_leaf(name, ps):
    if name in ODD and len(ps) == 1 and _leadneg(ps[0]):
        return _pneg(_fn_leaf(name, (_pneg(ps[0]),)))
    if name in EVEN and len(ps) == 1 and _leadneg(ps[0]):
        return _fn_leaf(name, (_pneg(ps[0]),))
    p = ps[0] if ps else None
    if len(ps) == 1 and not p.d:
        if name in ('sin', 'tan', 'asin', 'atan', 'sqrt', 'abs', 'sign', 'floor', 'round'):
            return P0
        if name in ('cos', 'exp'):
            return P1
    if len(ps) == 1 and len(p.d) == 1 and () in p.d:
        v = p.d[()]
        if name == 'abs':
            return pconst(abs(v))
        if name == 'sign':
            return pconst((v > 0) - (v < 0))
        if name == 'acos' and v == 1:
            return P0
    if name == 'atan2' and not ps[0].d and len(ps[1].d) == 1 and () in ps[1].d and ps[1].d[()] > 0:
        return P0
    if name == 'atan2':
        # common positive numeric factor
        cs = [abs(_content(q)) for q in ps if q.d]
        if cs and cs[0] != 1:
            ps = tuple(pscale(q, 1 / cs[0]) for q in ps)
    if name == 'abs':
        # |c*m| -> |c| * |m| for monomials of plain atoms ; even powers and roots pass
        if len(p.d) == 1:
            (m, c), = p.d.items()
            out, rest = [], []
            for a, e in m:
                k = _akeys[a][0]
                if e % 2 == 0 or (k[0] == 'fn' and k[1] in ('sqrt', 'abs', 'exp')):
                    out.append((a, e))
                else:
                    rest.append((a, e))
            r = Poly({tuple(sorted(out)): abs(c)})
            if rest:
                q = Poly({tuple(rest): F(1)})
                a = _aid(('fn', 'abs', q.key()), (q,))
                if a not in _special:
                    _special[a] = pmul(q, q)
                r = pmul(r, Poly({((a, 1),): F(1)}))
            return r
    if name == 'sqrt':
        # extract numeric square factors and even monomials
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if all(e % 2 == 0 for a, e in m) and c > 0:
                r = F(math.isqrt(c.numerator), math.isqrt(c.denominator))
                if r * r == c and m:
                    base = Poly({tuple((a, e // 2) for a, e in m): F(1)})
                    return pscale(_fn_leaf('abs', (base,)), r)
                if r * r == c:
                    return pconst(r)
        if p.d:
            c = abs(_content(p))
            r = F(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if r * r == c and c != 1:
                return pscale(_fn_leaf('sqrt', (pscale(p, 1 / c),)), r)
    a = _aid(('fn', name) + tuple(q.key() for q in ps), tuple(ps))
    if a not in _special:
        if name == 'sin':
            _special[a] = P1  # placeholder against recursion
            ca = _aid(('fn', 'cos', ps[0].key()), tuple(ps))
            _special[a] = Poly({(): F(1), ((ca, 2),): F(-1)})
        elif name == 'sqrt':
            _special[a] = ps[0]
            _invsq.add(a)
        elif name == 'abs':
            _special[a] = pmul(ps[0], ps[0])
    return Poly({((a, 1),): F(1)})


def _blevel(t):
    """binder nesting level"""
    r = _bl.get(t.id)
    if r is None:
        r = 0
        for a in t.args:
            if isinstance(a, Term):
                r = max(r, _blevel(a))
        if t.op in BINDERS:
            r += 1
        _bl[t.id] = r
    return r


_bl = {}


def _nf_binder(t):
    k = BINDERS[t.op]
    v, n = t.args[k], t.args[k + 1]
    lvl = _blevel(t)
    bv = atom('#%d' % lvl)
    nn = nf(n)
    key_of = {}

    def sb(x):
        return subst(x, {v.id: bv})
    bid_key = ('at', '#%d' % lvl)
    dep = _DepTest(bid_key)
    if t.op == 'sum':
        body = nf(sb(t.args[2]))
        # lift conditions that do not depend on the variable
        return apply(lambda q: q, _lift(body, dep, lambda b: apply(lambda n_: _sum_poly(b, n_, dep, lvl), nn)))
    if t.op == 'exists':
        body = nf(sb(t.args[2]))

        def leafx(b):
            if not isinstance(b, Ite):
                return b
            return apply(lambda n_: _condnode(('exists', lvl, n_.key(), b.key())), nn)
        return _lift(body, dep, leafx)
    if t.op == 'extr':
        body = nf(sb(t.args[3]))
        a = _aid(('extr', t.args[0], lvl, nn.key(), body.key()))
        return Poly({((a, 1),): F(1)})
    if t.op == 'sel':
        c = nf(sb(t.args[2]))
        if t.sort == 'S':
            return Poly({((_aid(('S', t.id)), 1),): F(1)})
        b = nf(sb(t.args[3]))
        d = nf(t.args[4])
        if t.sort == 'B':
            return _condnode(('sel', lvl, nn.key(), c.key(), b.key(), d.key()))
        a = _aid(('sel', lvl, nn.key(), c.key(), b.key(), d.key()))
        return Poly({((a, 1),): F(1)})


class _DepTest:
    def __init__(self, key):
        self.key = key
        self.memo = {}

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = _mentions(_akeys[a][0], self.key)
            self.memo[a] = r
        return r

    def cond(self, c):
        r = self.memo.get(('c', c))
        if r is None:
            r = _mentions(_ckeys[c][0], self.key)
            self.memo[('c', c)] = r
        return r


def _mentions(key, what):
    """does the (nested) key mention atom key `what` (directly or through atom/cond ids)"""
    stack = [key]
    seen = set()
    while stack:
        k = stack.pop()
        if k == what:
            return True
        if isinstance(k, tuple):
            if k and k[0] == 'P':
                for m, c in k[1:]:
                    for a, e in m:
                        if ('a', a) not in seen:
                            seen.add(('a', a))
                            stack.append(_akeys[a][0])
            elif k and k[0] == 'I':
                if ('c', k[1]) not in seen:
                    seen.add(('c', k[1]))
                    stack.append(_ckeys[k[1]][0])
                stack.append(k[2])
                stack.append(k[3])
            else:
                stack.extend(x for x in k if isinstance(x, tuple))
    return False


def _lift(x, dep, f):
    """lift conditions independent of the bound variable out of the binder"""
    if not isinstance(x, Ite):
        return f(x)
    indep = [c for c in _all_conds(x) if not dep.cond(c)]
    if not indep:
        return f(x)
    c = min(indep)
    return apply(_sel3, Ite(c, P1, P0), _lift(restrict(x, c, True), dep, f), _lift(restrict(x, c, False), dep, f))


def _all_conds(x, acc=None):
    if acc is None:
        acc = set()
    if isinstance(x, Ite):
        acc.add(x.c)
        _all_conds(x.hi, acc)
        _all_conds(x.lo, acc)
    return acc


def _iv(c):
    a = _aid(('iv', c))
    _iverson.add(a)
    return Poly({((a, 1),): F(1)})


def _to_poly(x):
    if not isinstance(x, Ite):
        return x
    i = _iv(x.c)
    hi, lo = _to_poly(x.hi), _to_poly(x.lo)
    return padd(lo, pmul(i, padd(hi, pscale(lo, F(-1)))))


def _sum_poly(body, n, dep, lvl):
    p = _to_poly(body)
    for m in p.d:
        pass
    out = P0
    for m, c in p.d.items():
        inn = tuple((a, e) for a, e in m if dep.atom(a) or (_akeys[a][0][0] == 'iv' and dep.cond(_akeys[a][0][1])))
        ext = tuple((a, e) for a, e in m if (a, e) not in inn)
        if not inn:
            s = n
        else:
            a = _aid(('sum', lvl, n.key(), inn))
            s = Poly({((a, 1),): F(1)})
        out = padd(out, pmul(Poly({ext: c}), s))
    return out


def nf_same(a, b):
    if a is b:
        return True
    if a.unk or b.unk:
        return False
    try:
        return nf(a).key() == nf(b).key()
    except TooBig:
        return False


# ---------------------------------------------------------------- equality
def _clear_inverses(p):
    """multiply p by the denominators until no 'inv' atom remains; True if it reduces to zero"""
    for _ in range(40):
        if not p.d:
            return P0
        inv = None
        for m in p.d:
            for a, e in m:
                k = _akeys[a][0]
                if k[0] == 'inv' and e > 0:
                    inv = a
                    break
                if e < 0:
                    inv = a
                    break
            if inv is not None:
                break
        if inv is None:
            return p
        k, q = _akeys[inv]
        if k[0] == 'inv':
            mx = max((dict(m).get(inv, 0) for m in p.d))
            out = P0
            powers = [P1]
            for _i in range(mx):
                powers.append(pmul(powers[-1], q))
            groups = {}
            for m, c in p.d.items():
                e = dict(m).get(inv, 0)
                rest = tuple((a, x) for a, x in m if a != inv)
                groups.setdefault(e, {})[rest] = groups.setdefault(e, {}).get(rest, 0) + c
            for e, d in groups.items():
                out = padd(out, pmul(Poly({m: c for m, c in d.items() if c}), powers[mx - e]))
            p = out
        else:
            mn = min((dict(m).get(inv, 0) for m in p.d))
            p = pmul(p, Poly({((inv, -mn),): F(1)}))
    return p


def equal(a, b, eqs=()):
    """True if the normal forms coincide (after clearing denominators on every leaf); else list of differing leaves.
    Raises TooBig."""
    x, y = nf(a), nf(b)
    if x.key() == y.key():
        return True
    d = apply(lambda p, q: padd(p, pscale(q, F(-1))), x, y)
    bad = []
    for path, leaf in leaves(d):
        if not leaf.d:
            continue
        r = _clear_inverses(leaf)
        if r.d:
            if not _infeasible(path):
                bad.append((path, leaf))
    return True if not bad else bad


def _infeasible(path):
    """contradictory path of atomic conditions (sign reasoning on a single polynomial only)"""
    pos = {}
    zero = {}
    for c, v in path:
        k, q = _ckeys[c]
        if k[0] == 'pos':
            pos[k[1]] = v
        elif k[0] == 'zero':
            zero[k[1]] = v
        elif k[0] == 'seq' and v:
            pass
    for k, v in pos.items():
        q = Poly(dict(k[1:]))
        nk = pscale(q, F(-1)).key()
        if v and pos.get(nk):
            return True
        zk = pscale(q, 1 / _content(q)).key()
        if v and zero.get(zk):
            return True
        if not v and pos.get(nk) is False and zero.get(zk) is False:
            return True
    # string equalities: same symbolic string equal to two different constants
    eqs = {}
    for c, v in path:
        k, _ = _ckeys[c]
        if k[0] == 'seq' and v:
            consts = [x for x in k[1:] if x[0] == 'str']
            syms = [x for x in k[1:] if x[0] != 'str']
            if len(consts) == 1 and len(syms) == 1:
                if eqs.setdefault(syms[0], consts[0]) != consts[0]:
                    return True
    # domain of string atoms
    neq = {}
    for c, v in path:
        k, _ = _ckeys[c]
        if k[0] == 'seq' and not v:
            consts = [x for x in k[1:] if x[0] == 'str']
            syms = [x for x in k[1:] if x[0] != 'str']
            if len(consts) == 1 and len(syms) == 1:
                neq.setdefault(syms[0], set()).add(consts[0][1])
    for s, vals in neq.items():
        dom = STR_DOMAIN.get(s[1]) if s[0] == 'at' else None
        if dom and set(dom) <= vals:
            return True
    return False


STR_DOMAIN = {}   # symbolic string atom name -> tuple of possible values


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 12:
        return '...'
    op = t.op
    s = lambda a: show(a, depth + 1) if isinstance(a, Term) else str(a)
    if op == 'num':
        v = t.args[0]
        return str(v) if v.denominator < 1000 else repr(float(v))
    if op == 'str':
        return repr(t.args[0])
    if op in ('pi', 'inf', 'nan', 'true', 'false'):
        return op
    if op == 'atom':
        return t.args[0] + ('[%s]' % ','.join(s(a) for a in t.args[1:]) if len(t.args) > 1 else '')
    if op == 'add':
        return '(' + ' + '.join(s(a) for a in t.args) + ')'
    if op == 'mul':
        return '*'.join(s(a) for a in t.args)
    if op == 'pw':
        return '%s^%d' % (s(t.args[0]), t.args[1])
    if op == 'fn':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if op == 'ite':
        return 'if(%s; %s; %s)' % tuple(s(a) for a in t.args)
    if op == 'lt':
        return '%s < %s' % (s(t.args[0]), s(t.args[1]))
    if op in ('eq', 'seq'):
        return '%s == %s' % (s(t.args[0]), s(t.args[1]))
    return '%s(%s)' % (op, ', '.join(s(a) for a in t.args))


# ---------------------------------------------------------------- numeric interpretation of terms (filter only)
class Undefined(Exception):
    pass


def _h(*xs):
    """deterministic hash to [0,1)"""
    import hashlib
    m = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(m, 'big') / 2.0 ** 64


class Env:
    """an interpretation of atoms: provider(env, name, idx) -> value.  A provider is selected by full atom name or by a prefix ending in
    '*'; atoms without a provider get pseudo-random generic values."""

    def __init__(self, seed, scale=1.0, providers=None, fixed=None, where=frozenset(), norms=frozenset()):
        self.seed, self.scale = seed, scale
        self.providers = providers or {}
        self.prefix = [(k[:-1], v) for k, v in self.providers.items() if k.endswith('*')]
        self.fixed = fixed or {}
        self.memo = {}
        self.dmemo = {}
        self.sizes = {}
        self.where, self.norms = where, norms

    def child(self):
        e = Env(self.seed, self.scale, self.providers, dict(self.fixed), self.where, self.norms)
        e.sizes = self.sizes
        return e

    def h(self, *k):
        return _h(self.seed, *k)

    def atom(self, name, idx, sort):
        p = self.providers.get(name)
        if p is None:
            for pre, f in self.prefix:
                if name.startswith(pre):
                    p = f
                    break
        if p is not None:
            return p(self, name, idx)
        if sort == 'B':
            return _h(self.seed, name, idx) < 0.5
        if sort == 'S':
            dom = STR_DOMAIN.get(name)
            if dom:
                return dom[int(_h(self.seed, name, idx) * len(dom))]
            return 'str%d' % int(_h(self.seed, name, idx) * 4)
        if sort == 'I':
            return self.sizes.get(name, 2 + int(_h(self.seed, name, idx) * 3))
        if name.startswith('rand!'):
            return _h(self.seed, name, idx)
        if name.startswith('randn!'):
            u, v = _h(self.seed, name, idx, 0), _h(self.seed, name, idx, 1)
            return math.sqrt(-2 * math.log(u + 1e-12)) * math.cos(2 * math.pi * v)
        if name.startswith('uninit!'):
            raise Undefined('uninitialised memory')
        return (_h(self.seed, name, idx) * 2 - 1) * 1.7 * self.scale

    def dim(self, n):
        v = self.ev(n)
        return max(0, min(8, int(round(abs(v))))) if v == v else 2

    def ev(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = self._ev(t)
        self.memo[t.id] = r
        return r

    def _ev(self, t):
        op = t.op
        if op == 'num':
            return float(t.args[0])
        if op == 'add':
            return sum([self.ev(a) for a in t.args])
        if op == 'mul':
            r = 1.0
            for a in t.args:
                r *= self.ev(a)
            return r
        if op == 'atom':
            if t.id in self.fixed:
                return self.fixed[t.id]
            idx = tuple(_rnd(self.ev(a)) for a in t.args[1:])
            if t.id in RANGE and len(t.args) == 1:
                n = self.dim(RANGE[t.id])
                return int(_h(self.seed, t.args[0]) * n)
            return self.atom(t.args[0], idx, t.sort)
        if op == 'ite':
            return self.ev(t.args[1] if self.ev(t.args[0]) else t.args[2])
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'pi':
            return math.pi
        if op == 'inf':
            return math.inf
        if op == 'nan':
            return math.nan
        if op == 'str':
            return t.args[0]
        if op == 'pw':
            b = self.ev(t.args[0])
            if b == 0 and t.args[1] < 0:
                return math.inf if t.args[1] % 2 == 0 else math.copysign(math.inf, b)
            try:
                return b ** t.args[1]
            except OverflowError:
                return math.inf
        if op == 'not':
            return not self.ev(t.args[0])
        if op == 'and':
            return all(self.ev(a) for a in t.args)
        if op == 'lt':
            return self.ev(t.args[0]) < self.ev(t.args[1])
        if op in ('eq', 'seq'):
            a, b = self.ev(t.args[0]), self.ev(t.args[1])
            return a == b
        if op == 'fn':
            return self.fn(t.args[0], [self.ev(a) for a in t.args[1:]], t)
        if op in BINDERS:
            k = BINDERS[op]
            v, n = t.args[k], t.args[k + 1]
            N = self.dim(n)
            outs = []
            for i in range(N):
                e = self.child()
                e.fixed[v.id] = i
                if op == 'sel':
                    outs.append((e.ev(t.args[2]), e))
                elif op == 'extr':
                    outs.append(e.ev(t.args[3]))
                else:
                    outs.append(e.ev(t.args[2]))
            if op == 'sum':
                return sum(outs)
            if op == 'exists':
                return any(outs)
            if op == 'extr':
                return max(outs) if t.args[0] == 'max' else min(outs)
            for c, e in reversed(outs):
                if c:
                    return e.ev(t.args[3])
            return self.ev(t.args[4])
        if op == 'unknown':
            raise Undefined(t.args[0])
        raise Undefined(op)

    def fn(self, name, a, t):
        if name == 'sg':
            return a[0]
        try:
            if name == 'sin':
                return math.sin(a[0])
            if name == 'cos':
                return math.cos(a[0])
            if name.startswith('rounded '):     # the number whose text a format gives
                try:
                    return float(('%' + name[8:] if name[-1] != 'd' else '%d') % a[0])
                except ValueError:
                    return float(format(a[0], name[8:]))
            if name == 'tan':
                return math.tan(a[0])
            if name == 'asin':
                return math.asin(a[0]) if abs(a[0]) <= 1 else math.nan
            if name == 'acos':
                return math.acos(a[0]) if abs(a[0]) <= 1 else math.nan
            if name == 'atan':
                return math.atan(a[0])
            if name == 'atan2':
                return math.atan2(a[0], a[1])
            if name == 'sqrt':
                return math.sqrt(a[0]) if a[0] >= 0 else math.nan
            if name == 'abs':
                return abs(a[0])
            if name == 'sign':
                return float((a[0] > 0) - (a[0] < 0))
            if name == 'exp':
                return math.exp(a[0])
            if name == 'log':
                return math.log(a[0]) if a[0] > 0 else (-math.inf if a[0] == 0 else math.nan)
            if name == 'sinh':
                return math.sinh(a[0])
            if name == 'cosh':
                return math.cosh(a[0])
            if name == 'tanh':
                return math.tanh(a[0])
            if name == 'floor':
                return float(math.floor(a[0]))
            if name == 'ceil':
                return float(math.ceil(a[0]))
            if name == 'trunc':
                return float(math.trunc(a[0]))
            if name == 'round':
                return float(round(a[0]))
            if name == 'pow':
                return a[0] ** a[1] if a[0] >= 0 or a[1] == int(a[1]) else math.nan
            if name == 'idiv':
                return a[0] // a[1]
            if name == 'mod':
                return a[0] % a[1]
            if name == 'argmax':
                return max(range(len(a)), key=lambda i: (a[i], -i))
            if name == 'argmin':
                return min(range(len(a)), key=lambda i: (a[i], i))
            if name == 'isfinite':
                return math.isfinite(a[0])
            if name == 'isinf':
                return math.isinf(a[0])
            if name == 'isnan':
                return math.isnan(a[0])
            if name == 'parsefloat':
                return _h(self.seed, 'parsefloat', a[0]) * 2 - 1
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan
        if name == 'solve':
            return self._solve(a)
        if name in ('svdU', 'svdS', 'svdV'):
            return self._svd(name, a)
        # uninterpreted: smooth pseudo-random function of the arguments
        acc = 0.0
        for i, x in enumerate(a):
            if isinstance(x, str):
                acc += _h('s', x, i) * 7
            elif isinstance(x, bool):
                acc += _h('b', x, i) * 7
            elif x == x and abs(x) != math.inf:
                acc += x * (0.3 + _h(name, i)) + x * x * 0.1 * _h(name, i, 2)
            else:
                acc += _h('n', repr(x), i)
        r = math.sin(acc + 10 * _h(self.seed, name)) * 1.3
        if t.sort == 'B':
            return r > 0
        return r

    def _solve(self, a):
        i, j, n, m = (int(round(x)) for x in a[:4])
        import numpy as np
        key = ('solve', tuple(a[2:]))
        X = self.memo.get(key)
        if X is None:
            A = np.array(a[4:4 + n * n], dtype=float).reshape(n, n)
            B = np.array(a[4 + n * n:4 + n * n + n * m], dtype=float).reshape(n, m)
            try:
                X = np.linalg.solve(A, B)
            except Exception:
                X = np.full((n, m), math.nan)
            self.memo[key] = X
        return float(X[i, j])

    def _svd(self, name, a):
        i, j, r, c = (int(round(x)) for x in a[:4])
        import numpy as np
        key = ('svd', tuple(a[2:]))
        X = self.memo.get(key)
        if X is None:
            A = np.array(a[4:4 + r * c], dtype=float).reshape(r, c)
            X = np.linalg.svd(A, full_matrices=True)
            self.memo[key] = X
        U, S, V = X
        if name == 'svdS':
            return float(S[i])
        return float((U if name == 'svdU' else V)[i, j])

    # -------------------------------------------------------- derivatives with the conventions of reverse-mode autograd
    def dual(self, t, wrt, memo=None):
        """(value, derivative) of t along the atom wrt (a term).  A non-finite derivative inside a branch that torch.where did not
        select still poisons the result (0 * inf = nan), as it does in reverse-mode differentiation."""
        if memo is None:
            memo = self.dmemo.setdefault(wrt.id, {})
        r = memo.get(t.id)
        if r is None:
            r = self._dual(t, wrt, memo)
            memo[t.id] = r
        return r

    def _dual(self, t, w, memo):
        v = self.ev(t)
        if t is w:
            return v, 1.0
        op = t.op
        if op == 'add':
            return v, sum(self.dual(a, w, memo)[1] for a in t.args)
        if op == 'mul':
            ds = [self.dual(a, w, memo) for a in t.args]
            tot = 0.0
            for i, (_, d) in enumerate(ds):
                if d == 0:
                    continue
                p = d
                for j, (x, _) in enumerate(ds):
                    if j != i:
                        p *= x
                tot += p
            return v, tot
        if op == 'pw':
            x, d = self.dual(t.args[0], w, memo)
            n = t.args[1]
            if d == 0:
                return v, 0.0
            if x == 0 and n - 1 < 0:
                return v, math.nan if d == 0 else math.inf
            return v, n * x ** (n - 1) * d
        if op == 'ite':
            c = self.ev(t.args[0])
            if ('clamp', t.id) in self.where and self.ev(t.args[1]) == self.ev(t.args[2]):
                return v, 0.0
            da = self.dual(t.args[1], w, memo)[1] if (c or t.id in self.where) else 0.0
            db = self.dual(t.args[2], w, memo)[1] if (not c or t.id in self.where) else 0.0
            if t.id in self.where:
                return v, (da if c else da * 0.0) + (db * 0.0 if c else db)
            return v, da if c else db
        if op == 'fn':
            n = t.args[0]
            ds = [self.dual(a, w, memo) for a in t.args[1:]]
            if all(d == 0 for _, d in ds):
                return v, 0.0
            x, d = ds[0]
            if n == 'sg':
                return v, 0.0
            try:
                if n == 'sin':
                    return v, math.cos(x) * d
                if n == 'cos':
                    return v, -math.sin(x) * d
                if n == 'tan':
                    return v, (1 + v * v) * d
                if n == 'sqrt':
                    if x == 0:
                        return v, 0.0 if t.id in self.norms else (math.inf * d if d else math.nan)
                    return v, d / (2 * v)
                if n in ('acos', 'asin'):
                    q = 1 - x * x
                    g = math.inf if q == 0 else (math.nan if q < 0 else 1 / math.sqrt(q))
                    return v, (-g if n == 'acos' else g) * d
                if n == 'atan':
                    return v, d / (1 + x * x)
                if n == 'atan2':
                    y, e = ds[1]
                    q = x * x + y * y
                    return v, math.nan if q == 0 else (y * d - x * e) / q
                if n == 'abs':
                    return v, d * ((x > 0) - (x < 0))
                if n == 'exp':
                    return v, v * d
                if n == 'log':
                    return v, d / x if x else math.inf
                if n in ('sign', 'floor', 'ceil', 'trunc', 'round', 'argmax', 'argmin', 'isnan', 'isfinite', 'isinf', 'idiv'):
                    return v, 0.0
                if n == 'mod':
                    return v, d
                if n == 'tanh':
                    return v, (1 - v * v) * d
            except (OverflowError, ValueError, ZeroDivisionError):
                return v, math.nan
            raise Undefined('derivative of ' + n)
        if op == 'sum':
            var, n, body = t.args[0], t.args[1], t.args[2]
            tot = 0.0
            for i in range(self.dim(n)):
                e = self.child()
                e.fixed[var.id] = i
                tot += e.dual(body, w)[1]
            return v, tot
        return v, 0.0


def _rnd(x):
    if isinstance(x, (bool, str)):
        return x
    if isinstance(x, float):
        if x != x or abs(x) == math.inf:
            return repr(x)
        if abs(x - round(x)) < 1e-9:
            return int(round(x))
        return round(x, 9)
    return x


# ---------------------------------------------------------------- symbolic derivative
def diff(t, w, memo=None):
    """derivative of the term t with respect to the atom w"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        r = _diff(t, w, memo)
        memo[t.id] = r
    return r


def _diff(t, w, memo):
    if t is w:
        return ONE
    op = t.op
    if op in ('num', 'pi', 'inf', 'nan', 'atom', 'str', 'true', 'false'):
        return ZERO
    if op == 'unknown':
        return t
    if op == 'add':
        return add(*[diff(a, w, memo) for a in t.args])
    if op == 'mul':
        out = []
        for i, a in enumerate(t.args):
            d = diff(a, w, memo)
            if d is not ZERO:
                out.append(mul(d, *[b for j, b in enumerate(t.args) if j != i]))
        return add(*out) if out else ZERO
    if op == 'pw':
        d = diff(t.args[0], w, memo)
        return ZERO if d is ZERO else mul(num(t.args[1]), pw(t.args[0], t.args[1] - 1), d)
    if op == 'ite':
        return ite(t.args[0], diff(t.args[1], w, memo), diff(t.args[2], w, memo))
    if op == 'fn':
        n = t.args[0]
        ds = [diff(a, w, memo) for a in t.args[1:]]
        if all(d is ZERO for d in ds):
            return ZERO
        x = t.args[1]
        if n == 'sg':
            return ZERO
        if n == 'sin':
            return mul(fn('cos', x), ds[0])
        if n == 'cos':
            return mul(num(-1), fn('sin', x), ds[0])
        if n == 'sqrt':
            return div(ds[0], mul(num(2), t))
        if n == 'abs':
            return mul(fn('sign', x), ds[0])
        if n == 'atan2':
            y = t.args[2]
            return div(sub(mul(y, ds[0]), mul(x, ds[1])), add(mul(x, x), mul(y, y)))
        return unknown('derivative of ' + n)
    if op == 'sum':
        return tosum(t.args[0], t.args[1], diff(t.args[2], w, memo))
    return unknown('derivative of ' + op)
