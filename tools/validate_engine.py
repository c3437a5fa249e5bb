"""Compares the analyser's models of torch, numpy and Python with the real ones on snippets (validate/*.txt, one expression or `def` body per line).
A development aid, not a check: run  /opt/venv/bin/python tools/validate_engine.py [file] [filter].
Each snippet is interpreted abstractly (twice: with a batch of known and of symbolic size), the resulting value graph is evaluated at a random point and
compared in kind, shape, dtype and value with what torch computes there."""
import os, sys, tempfile, math, glob
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
SRC = os.environ.get('SA_REPO_SRC', '/repo/src')

HEAD = '''
import math, typing, functools, itertools, operator, copy, collections
from dataclasses import dataclass, field
from functools import partial, reduce
from collections import OrderedDict, defaultdict, namedtuple, deque
from itertools import chain, product
import numpy as np
import torch
import torch.nn.functional as F
from torch import nn
'''
ARGS = 'a, b, m, n, s, k, e, i, c, h'
SHAPES = dict(a=('B', 3), b=('B', 3), m=('B', 3, 3), n=('B', 3, 3), s=('B',), k=(3,), e=(3, 3), i=('B',), c=('B',), h=('B', 2, 4))


def body(line):
    if '\n' in line:
        return line
    return '    return ' + line


def main():
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    files = [sys.argv[1]] if len(sys.argv) > 1 and sys.argv[1] != '-' else sorted(glob.glob(os.path.join(V, 'tools', 'validate', '*.txt')))
    snips = []
    for f in files:
        for block in open(f).read().split('\n'):
            if block.strip() and not block.startswith('#'):
                snips.append(block.replace('\\n', '\n'))
    snips = [s for s in snips if pat in s]
    d = tempfile.mkdtemp()
    os.symlink(os.path.join(SRC, 'pytorch_kinematics'), os.path.join(d, 'pytorch_kinematics'))
    with open(os.path.join(d, 'snip.py'), 'w') as f:
        f.write(HEAD)
        for j, s in enumerate(snips):
            if s.startswith('!'):
                f.write('%s\n' % s[1:].replace('FN', 'f%d' % j).replace('ARGS', ARGS))
            elif '\n' in s or s.lstrip().startswith(('for ', 'if ', 'with ', 'x =')) or ';' in s:
                f.write('def f%d(%s):\n' % (j, ARGS))
                lines = s.split('\n') if '\n' in s else [p.strip() for p in s.split(';')]
                for q in lines[:-1]:
                    f.write('    %s\n' % q)
                f.write('    %s%s\n' % ('' if lines[-1].lstrip().startswith('return') or lines[-1].startswith(' ') else 'return ', lines[-1]))
            else:
                f.write('def f%d(%s):\n    return %s\n' % (j, ARGS, s))
    sys.path.insert(0, d)
    os.environ['SA_REPO_SRC'] = d
    import torch, snip
    import numpy as np
    from sa import api
    from sa.api import Sess, Outcome, indices, T, num
    from sa.values import Tensor, ListV, DictV, Gamma, Num, Unknown, SBool
    import sa.torchlib as tl
    from sa import values
    I64, BOOL, F64 = values.I64, values.BOOL, values.F64
    stat = dict(ok=0, bad=0, unknown=0)
    for sym in (False, True):
        BN = 2
        S = Sess(d)
        I = S.I
        if len(I.module('snip').ns if hasattr(I.module('snip'), 'ns') else [1]) == 0:
            print('no module')
        for j, sn in enumerate(snips):
            B = 'B' if sym else BN
            ins = {}
            for nm, sh in SHAPES.items():
                sh = tuple(B if q == 'B' else q for q in sh)
                if nm == 'i':
                    ins[nm] = S.t('in_i', sh, I64, sort='I')
                elif nm == 'c':
                    ins[nm] = S.t('in_c', sh, BOOL, sort='B')
                else:
                    ins[nm] = S.t('in_' + nm, sh, F64)
            for seed in range(2):
                prov = {'in_i': lambda e, name, idx: int(e.h(name, idx) * 3)}
                e = T.Env('v%d' % seed, 1.0, prov, None, I.where_ites, I.norms)
                BV = 2 if not sym else 3
                e.sizes = {'B': BV}

                def feed(nm):
                    sh = tuple(BV if q == 'B' else q for q in SHAPES[nm])
                    sort = 'I' if nm == 'i' else 'B' if nm == 'c' else 'R'
                    out = np.zeros(sh, dtype={'I': np.int64, 'B': bool, 'R': np.float64}[sort])
                    for ix in np.ndindex(*sh):
                        out[ix] = e.atom('in_' + nm, tuple(int(q) for q in ix), sort)
                    return torch.tensor(out)
                fed = {nm: feed(nm) for nm in SHAPES}
                try:
                    want = getattr(snip, 'f%d' % j)(**fed)
                    wexc = None
                except Exception as ex:
                    want, wexc = None, ex
                if seed == 0:
                    try:
                        # a fresh set of cells for every snippet
                        o = S.call('snip:f%d' % j, *[ins[q.strip()] for q in ARGS.split(',')])
                    except Exception as ex:
                        print('CRASH  %s [%s]: %s: %s' % (sn.replace('\n', '\\n'), 'sym' if sym else 'con', type(ex).__name__, str(ex)[:150]))
                        stat['bad'] += 1
                        break
                msg = compare(I, o, want, wexc, e, BV, torch, np, T, num)
                if msg is None:
                    stat['ok'] += 1
                elif msg.startswith('?'):
                    if seed == 0:
                        stat['unknown'] += 1
                        print('unk    %s [%s]: %s' % (sn.replace('\n', '\\n'), 'sym' if sym else 'con', msg[1:]))
                    break
                else:
                    stat['bad'] += 1
                    print('BAD    %s [%s]: %s' % (sn.replace('\n', '\\n'), 'sym' if sym else 'con', msg))
                    break
    print(stat)


def compare(I, o, want, wexc, e, BV, torch, np, T, num):
    from sa.values import Tensor, ListV, DictV, Gamma, Num, Unknown, SBool, SStr
    if o.exc is not None:
        if wexc is None:
            return 'analysed as raising %s' % o.exc.exc
        return None if o.exc.exc == type(wexc).__name__ or True else 'raises'
    if wexc is not None:
        try:
            rc = e.ev(o.raises_under())
        except T.Undefined as u:
            return '?' + str(u)
        if rc:
            return None
        if isinstance(o.v, Unknown):
            return '?' + str(o.v.reason)
        return 'torch raises %s: %s; analysed as returning %r' % (type(wexc).__name__, str(wexc)[:80], str(o.v)[:80])
    try:
        if e.ev(o.raises_under()):
            return 'analysed as raising here'
    except T.Undefined as u:
        return '?' + str(u)

    def cmp(v, w, path):
        v = I.resolve(v)
        while isinstance(v, Gamma):
            v = I.resolve(v.a if e.ev(v.c) else v.b)
        if isinstance(v, Unknown):
            return '?' + str(v.reason)
        if isinstance(w, torch.Tensor) or isinstance(w, np.ndarray) or isinstance(w, np.generic):
            if isinstance(w, np.generic) and not isinstance(v, Tensor):
                return cmp(v, w.item(), path)
            if type(v).__name__ == 'Masked':
                return '?masked selection'
            if not isinstance(v, Tensor):
                return '%s: %r instead of a tensor' % (path, v)
            sh = tuple(q if isinstance(q, int) else int(e.ev(q)) for q in v.shape)
            if sh != tuple(w.shape):
                return '%s: shape %s instead of %s' % (path, sh, tuple(w.shape))
            dn = str(getattr(v.dtype, 'name', v.dtype))
            if dn.split('.')[-1] != str(w.dtype).split('.')[-1]:
                return '%s: dtype %s instead of %s' % (path, dn, w.dtype)
            r = I.reader(v)
            for ix in np.ndindex(*sh):
                t = r(tuple(num(int(q)) for q in ix))
                g = e.ev(t)
                ww = w[ix].item() if sh else w.item()
                if isinstance(ww, complex):
                    return '?complex'
                if isinstance(ww, bool) != isinstance(g, (bool, np.bool_)) and not (isinstance(ww, bool) and g in (0, 1)):
                    return '%s%s: %r instead of %r' % (path, ix, g, ww)
                if isinstance(g, float) and math.isnan(g) and isinstance(ww, float) and math.isnan(ww):
                    continue
                if g != ww and not abs(float(g) - float(ww)) <= 1e-9 * (1 + abs(float(ww))):
                    return '%s%s: %r instead of %r' % (path, ix, g, ww)
            return None
        if isinstance(w, (list, tuple, torch.Size)) or type(w).__name__ in ('dict_keys', 'dict_values', 'deque'):
            c = I.concrete_list(v) if isinstance(v, (ListV, tuple, DictV)) else None
            if c is None and isinstance(v, ListV):
                out = []
                for sg in I.segs(v):
                    if sg.kind != 'item':
                        return '?list of symbolic length'
                    if e.ev(sg.cond):
                        out.append(sg.v)
                c = out
            if c is None:
                return '%s: %r instead of a sequence' % (path, v)
            if isinstance(w, (list,)) and isinstance(v, tuple) or isinstance(w, tuple) and isinstance(v, ListV):
                return '%s: sequence of another type' % path
            if len(c) != len(w):
                return '%s: %d elements instead of %d' % (path, len(c), len(w))
            for q, (x, y) in enumerate(zip(c, w)):
                r = cmp(x, y, '%s[%d]' % (path, q))
                if r:
                    return r
            return None
        if isinstance(w, dict):
            if not isinstance(v, DictV):
                return '%s: %r instead of a dict' % (path, v)
            ks = I.concrete_list(v)
            if ks is None:
                return '?dict'
            if [str(q) for q in ks] != [str(q) for q in w]:
                return '%s: keys %s instead of %s' % (path, ks, list(w))
            for q in ks:
                r = cmp(I.getitem(v, q, None) if hasattr(I, 'getitem') else None, w[q], '%s[%r]' % (path, q))
                if r:
                    return r
            return None
        if isinstance(w, bool):
            if isinstance(v, SBool):
                v = bool(e.ev(v.t))
            if isinstance(v, bool):
                return None if v == w else '%s: %r instead of %r' % (path, v, w)
            return '%s: %r instead of %r' % (path, v, w)
        if isinstance(w, (int, float)):
            if isinstance(v, Num):
                v = e.ev(v.t)
            elif isinstance(v, T.Term):
                v = e.ev(v)
            if isinstance(v, (int, float)) and not isinstance(v, bool) or type(v).__name__ == 'Fraction':
                v = float(v)
                if v != v and w != w or v == w or abs(v - w) <= 1e-9 * (1 + abs(w)):
                    return None
            return '%s: %r instead of %r' % (path, v, w)
        if isinstance(w, str):
            if isinstance(v, SStr):
                return '?string'
            return None if v == w else '%s: %r instead of %r' % (path, v, w)
        if w is None:
            return None if v is None else '%s: %r instead of None' % (path, v)
        if isinstance(w, (torch.dtype,)):
            return None if str(w).split('.')[-1] == str(getattr(v, 'name', v)).split('.')[-1] else '%s: %r instead of %r' % (path, v, w)
        if isinstance(w, (set, frozenset)):
            c = I.concrete_list(v)
            return '?set' if c is None else None if set(map(str, c)) == set(map(str, w)) else '%s: %s instead of %s' % (path, c, w)
        return '?result of type %s' % type(w).__name__
    try:
        return cmp(o.v, want, 'result')
    except T.Undefined as u:
        return '?' + str(u)


if __name__ == '__main__':
    main()
