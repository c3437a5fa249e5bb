"""Conditions on sizes (dimensions are positive integers; a symbolic batch size is treated as generic, i.e. larger than LIMIT)."""
from . import terms as T
from .terms import TRUE, FALSE, num

GENERIC = set()   # atom names of symbolic sizes that are generic (larger than any small constant they are compared to)
LIMIT = 64         # small constants a generic size is assumed to differ from (and exceed)


def _generic(t):
    if t.op == 'atom' and t.args[0] in GENERIC:
        return True
    if t.op == 'mul' and all(_generic(a) or (a.op == 'num' and a.args[0] >= 1) for a in t.args):
        return True
    return False


def size_eq(a, b):
    for x, y in ((a, b), (b, a)):
        if _generic(x) and y.op == 'num' and y.args[0] <= LIMIT:
            return FALSE
    return T.eq(a, b)


def size_cond(c, op, a, b):
    if _generic(a) and b.op == 'num' and b.args[0] <= LIMIT:
        if op in ('Gt', 'GtE'):
            return TRUE
        return FALSE
    if _generic(b) and a.op == 'num' and a.args[0] <= LIMIT:
        if op in ('Lt', 'LtE'):
            return TRUE
        return FALSE
    return c
