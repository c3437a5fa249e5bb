"""Loops and comprehensions: unrolled over statically known sequences, summarised (map) or havocked otherwise."""
import ast
from . import terms as T
from .terms import num, TRUE, FALSE
from .values import *

MAX_UNROLL = 4000
MAX_WHILE = 400


def seg_count(I, s):
    if s.kind == 'item':
        return T.ONE if s.cond is TRUE else T.ite(s.cond, T.ONE, T.ZERO)
    if s.kind == 'map':
        if s.cond is TRUE:
            return s.n
        return T.tosum(s.var, s.n, T.ite(s.cond, T.ONE, T.ZERO))
    return None


def assigned_names(stmts):
    out = set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


def havoc_loop(I, s, reason):
    """result of a loop the engine does not summarise: everything it can assign becomes unknown"""
    I.event('havoc_loop', s, why=reason)
    I.unknown_ops['loop: ' + reason] = I.unknown_ops.get('loop: ' + reason, 0) + 1
    raise Giveup('loop: ' + reason)


def _iterate(I, step, entries, facts):
    """join the states in entries and continue"""
    live = [e for e in entries if e is not None]
    if not live:
        return None
    if len(live) == 1:
        st = live[0][1]
        st.dead = None
        st.facts = facts if st.facts is None else {k: v for k, v in st.facts.items() if facts.get(k) == v} if False else st.facts
        return st
    return I.merge_states(live, facts)


def exec_for(I, s, it):
    from .interp import GenResult
    if isinstance(it, GenResult):
        segs = list(it.segs)
    else:
        if isinstance(it, Obj):
            f = it.cls.lookup('__iter__')
            if f is not None:
                from .values import Bound as B
                return I.for_over(s, I.call(B(f, it), [], {}, s))
            f = it.cls.lookup('__getitem__')
            ln = I.length(it)
            if f is not None and isinstance(ln, int):
                segs = [Seg('item', v=I.getitem(it, j, s)) for j in range(ln)]
            else:
                return havoc_loop(I, s, 'iteration over %s' % it.cls.name)
        else:
            if isinstance(it, (int, float, Num, type(None), bool)):
                raise AbsRaise('TypeError', s)
            segs = I.iter_segs(it)
            if segs is None and isinstance(it, DictV):
                from .pylib import _dseg
                segs = list(I.segs(_dseg(I, it, lambda x, y: x)))
    if segs is None:
        return havoc_loop(I, s, 'iteration over %s' % type(it).__name__)
    if any(x.kind != 'item' for x in segs):
        return symbolic_for(I, s, segs)
    if len(segs) > MAX_UNROLL:
        return havoc_loop(I, s, 'too many iterations')
    from .interp import LoopCtx
    fr = I.frames[-1]
    depth = len(fr.loops)
    breaks = []
    for sg in segs:
        ctx = LoopCtx()
        fr.loops.append(ctx)

        def body():
            I.assign(s.target, sg.v)
            I.exec_block(s.body)
        try:
            if sg.cond is TRUE:
                run_body(I, body, ctx)
            else:
                def body2():
                    run_body(I, body, ctx)
                I.branch(sg.cond, body2, lambda: None, s)
        finally:
            del fr.loops[depth:]
        breaks.extend(ctx.breaks)
        if I.st.dead:
            break
    finish(I, breaks, s.orelse)


def run_body(I, body, ctx):
    """one iteration; states that hit continue are joined with the normal exit"""
    facts = I.st.facts
    err = None
    try:
        body()
    except AbsRaise as e:
        if not ctx.conts and not ctx.breaks:
            raise
        # some paths left the iteration before the definite exception on the remaining path
        I.note_raise(e)
        I.st.dead = 'raise'
    conts, ctx.conts = ctx.conts, []
    if conts:
        entries = list(conts)
        if not I.st.dead:
            entries.append((I.st.guard, I.st))
        I.st = I.merge_states(entries, facts)


def finish(I, breaks, orelse):
    if orelse and not I.st.dead:
        I.exec_block(orelse)
    if breaks:
        entries = list(breaks)
        facts = I.st.facts if not I.st.dead else {}
        if not I.st.dead:
            entries.append((I.st.guard, I.st))
        if len(entries) == 1:
            st = entries[0][1]
            st.dead = None
            I.st = st
        else:
            common = dict(entries[0][1].facts)
            for _, st in entries[1:]:
                common = {k: v for k, v in common.items() if st.facts.get(k) == v}
            I.st = I.merge_states(entries, common)


def exec_while(I, s):
    from .interp import LoopCtx
    fr = I.frames[-1]
    depth = len(fr.loops)
    breaks = []
    exits = []
    for n in range(MAX_WHILE + 1):
        if n == MAX_WHILE:
            del fr.loops[depth:]
            return havoc_loop(I, s, 'while loop does not terminate abstractly')
        c = I.truth(I.ev(s.test), s.test)
        if not isinstance(c, bool):
            d = I.decide(c)
            if d is not None:
                c = d
        if c is False:
            break
        if c is not True:
            if n > 60:
                return havoc_loop(I, s, 'symbolic while condition')
            base = I.st
            out = base.copy()
            out.guard = T.and_(base.guard, T.not_(c))
            out.facts = I.add_fact(base.facts, c, False)
            exits.append((out.guard, out))
            ent = base.copy()
            ent.guard = T.and_(base.guard, c)
            ent.facts = I.add_fact(base.facts, c, True)
            I.st = ent
        ctx = LoopCtx()
        fr.loops.append(ctx)
        try:
            run_body(I, lambda: I.exec_block(s.body), ctx)
        finally:
            del fr.loops[depth:]
        breaks.extend(ctx.breaks)
        if I.st.dead:
            break
    if exits:
        entries = list(exits)
        if not I.st.dead:
            entries.append((I.st.guard, I.st))
        common = dict(entries[0][1].facts)
        for _, st in entries[1:]:
            common = {k: v for k, v in common.items() if st.facts.get(k) == v}
        I.st = entries[0][1] if len(entries) == 1 else I.merge_states(entries, common)
        I.st.dead = None
    finish(I, breaks, s.orelse)


def symbolic_for(I, s, segs):
    return havoc_loop(I, s, 'symbolic iteration space')


# ------------------------------------------------------------------ comprehensions
class _Sub:
    """comprehension scope"""

    def __init__(self, I):
        self.I = I

    def __enter__(self):
        from .interp import Frame
        I = self.I
        fr = I.frames[-1]
        self.env = I.newid()
        I.put(self.env, ('E', {'__parent__': fr.env}))
        self.saved = fr.env
        fr.env = self.env
        self.fr = fr

    def __exit__(self, *a):
        self.fr.env = self.saved


def list_comp(I, e, kind):
    out = []
    with _Sub(I):
        _gen(I, e.generators, 0, TRUE, lambda cond: out.append(Seg('item', v=I.ev(e.elt), cond=cond)), out, e.elt)
    if any(not isinstance(x, Seg) for x in out):
        return next(x for x in out if not isinstance(x, Seg))
    if kind == 'set':
        from .pylib import b_set
        if all(x.kind == 'item' and x.cond is TRUE for x in out):
            return b_set(I, [I.new_list(out)], {}, e)
    return I.new_list(out, kind)


def _gen(I, gens, k, cond, emit, out, elt):
    if k == len(gens):
        emit(cond)
        return
    g = gens[k]
    it = I.resolve(I.ev(g.iter))
    from .interp import GenResult
    if isinstance(it, Gamma):
        # the alternatives are iterated one after the other under their condition
        for c, v in ((it.c, it.a), (T.not_(it.c), it.b)):
            _gen_over(I, g, v, gens, k, T.and_(cond, c), emit, out, elt, c)
        return
    _gen_over(I, g, it, gens, k, cond, emit, out, elt, TRUE)


def _gen_over(I, g, it, gens, k, cond, emit, out, elt, extra):
    from .interp import GenResult, bterm
    if isinstance(it, Unknown):
        out.append(it)
        return
    if isinstance(it, (int, float, Num, type(None), bool)):
        raise AbsRaise('TypeError', g.iter)
    segs = list(it.segs) if isinstance(it, GenResult) else I.iter_segs(it)
    if segs is None and isinstance(it, DictV):
        from .pylib import _dseg
        segs = list(I.segs(_dseg(I, it, lambda x, y: x)))
    if segs is None and isinstance(it, Obj):
        ln = I.length(it)
        if isinstance(ln, int):
            segs = [Seg('item', v=I.getitem(it, j, g.iter)) for j in range(ln)]
    if segs is None:
        out.append(I.unk('comprehension over %s' % type(it).__name__))
        return
    for sg in segs:
        if sg.kind == 'map' and len(gens) == 1 and not g.ifs and sg.cond is TRUE:
            I.assign(g.target, sg.v)
            v = I.ev(elt)
            out.append(Seg('map', sg.var, sg.n, TRUE, v))
            continue
        if sg.kind != 'item':
            out.append(I.unk('comprehension over symbolic sequence'))
            return
        c = T.and_(cond, sg.cond)

        def one():
            I.assign(g.target, sg.v)
            cc = c
            for f in g.ifs:
                b = I.truth(I.ev(f), f)
                if b is False:
                    return
                if b is True:
                    continue
                d = I.decide(b)
                if d is False:
                    return
                if d is None:
                    cc = T.and_(cc, b)
            if cc is TRUE or cc is c and sg.cond is TRUE and extra is TRUE:
                _gen(I, gens, k + 1, cc, emit, out, elt)
            else:
                base = I.st.facts
                I.st.facts = I.add_fact(base, cc, True)
                try:
                    _gen(I, gens, k + 1, cc, emit, out, elt)
                finally:
                    I.st.facts = base
        one()


def dict_comp(I, e):
    pairs = []

    class E:
        pass
    with _Sub(I):
        def emit(cond):
            kk = I.ev(e.key)
            pairs.append((kk, I.ev(e.value), cond))
        _gen(I, e.generators, 0, TRUE, emit, pairs, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
    d = I.new_dict(())
    from .interp import Maybe
    for p in pairs:
        if isinstance(p, Unknown):
            return p
        if isinstance(p, Seg):
            return I.unk('dict comprehension over symbolic sequence')
        k, v, c = p
        if c is TRUE:
            I.setitem(d, k, v, e)
        else:
            I.put(d.id, ('D', I.get(d.id)[1] + (('item', k, Maybe(c, v)),)))
    return d
