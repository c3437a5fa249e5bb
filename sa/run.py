"""Driver: python3-vt -m sa.run C01 [--tier quick|thorough] [--only SUBSTR] [-v]

Runs the scenarios of one rule over /repo's current source, writes evidence/<id>.json, prints one line per finding.
exit 0: no violation; 1: VIOLATION; 2: the analysis itself is broken (a public anchor vanished, instance floor not met, internal error)."""
import sys
import os
import time
import json
import signal
import threading
import importlib
import traceback
import multiprocessing as mp
import ast
import hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sa.api import *          # noqa
from sa import interp as _in

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ctx:
    """one scenario: the facts it establishes about the abstract values"""

    def __init__(self, name, at, tier, pid):
        self.name, self.at, self.tier, self.pid = name, at, tier, pid
        self.S = Sess()
        self.I = self.S.I
        self.recs = []          # dicts
        self.fns = set()
        self.ncalls = 0
        self.cells = []

    def fresh(self):
        self.collect()
        self.S = Sess()
        self.I = self.S.I
        return self.S

    def collect(self):
        self.fns |= self.I.functions_seen

    # ---- facts
    def rec(self, status, what, msg='', at=None, **k):
        self.recs.append(dict(status=status, what=what, msg=msg, at=at or self.at, **k))

    def eq(self, what, t, shape, spec, prov=None, n=4, tol=1e-7, prove=False, at=None, seed0=0, scale=1.0, es=None):
        c = Cmp()
        if es is None:
            es = envs(self.I, n if self.tier == 'quick' else 3 * n, prov, seed0, scale)
        cmp_tensor(c, self.I, what, t, shape, spec, es, tol, prove)
        return self.cmp(c, what, at)

    def terms(self, what, pairs, prov=None, n=4, tol=1e-7, prove=False, at=None, es=None, seed0=0):
        """pairs of (got, want)"""
        c = Cmp()
        if es is None:
            es = envs(self.I, n if self.tier == 'quick' else 3 * n, prov, seed0)
        cmp_terms(c, [(what, (num(i),), g, w) for i, (g, w) in enumerate(pairs)], es, tol, prove)
        return self.cmp(c, what, at)

    def deriv(self, what, t, wrt, spec, prov=None, n=3, tol=1e-6, at=None, es=None, seed0=0, order=1):
        """partial derivatives of every element of t along the atoms wrt(idx) against spec(idx, atom) -> (value, derivative) of a term;
        the session must have been evaluated with gradient cuts marked (I.sg)"""
        if es is None:
            es = envs(self.I, n if self.tier == 'quick' else 3 * n, prov, seed0)
        c = Cmp()
        r = tl_reader(self.I, t)
        for idx in indices(t.shape):
            g = r(idx)
            for w in wrt(idx):
                c.n += 1
                s = spec(idx)
                bad = False
                for e in es:
                    try:
                        want = e.dual(s, w)[1]
                    except T.Undefined as u:
                        c.unknown.append('%s: specification undefined: %s' % (what, u))
                        bad = True
                        break
                    try:
                        got = e.dual(g, w)[1]
                    except T.Undefined as u:
                        c.unknown.append('%s%s: %s' % (what, [T.show(i) for i in idx], u))
                        bad = True
                        break
                    c.points += 1
                    if not close(got, want, tol):
                        c.bad.append(Mismatch('%s d/d %s of element ' % (what, T.show(w)), [T.show(i) for i in idx], got, want, e, g, s))
                        bad = True
                        break
                if not bad:
                    c.ri += 1
        return self.cmp(c, what, at)

    def cmp(self, c, what, at=None):
        if c.bad:
            m = c.bad[0]
            self.rec('bad', what, '%s (%d of %d entries differ)' % (m, len(c.bad), c.n), at, n=c.n)
        elif c.unknown:
            self.rec('unknown', what, c.unknown[0], at, n=c.n)
        else:
            self.rec('ok', what, '', at, n=c.n, proved=c.proved, ri=c.ri, points=c.points)
        return not c.bad and not c.unknown

    def holds(self, cond, what, msg='', at=None):
        """cond: True / False / None (unknown)"""
        if cond is None:
            self.rec('unknown', what, msg or 'not decided', at, n=1)
        elif cond:
            self.rec('ok', what, '', at, n=1, proved=1, ri=0, points=0)
        else:
            self.rec('bad', what, msg, at, n=1)
        return cond

    def val(self, out, what, at=None):
        """value of a call that must not raise"""
        if out.exc is not None:
            n = out.exc.node
            raise ScenarioBad(what, 'raises %s%s' % (out.exc.exc, ' at line %d' % n.lineno if hasattr(n, 'lineno') else ''), at)
        if isinstance(out.v, Unknown):
            raise Undecided('%s: %s' % (what, out.v.reason))
        return out.v

    def refused(self, out, what, at=None):
        """the call must raise on every path"""
        if out.exc is not None:
            return self.holds(True, what, at=at)
        r = out.raises_under()
        if r is T.TRUE:
            return self.holds(True, what, at=at)
        if isinstance(out.v, Unknown) or out.unknown:
            return self.holds(None, what, 'unknown result: %s' % (getattr(out.v, 'reason', None) or list(out.unknown)[:1]), at)
        if r is not T.FALSE and r.unk:
            return self.holds(None, what, 'raise condition unknown', at)
        return self.holds(False, what, 'accepted: returns a value instead of raising', at)


    def raise_cond(self, out, what, es, want, at=None):
        """under the given interpretations the call must (want) / must not raise"""
        c = T.TRUE if out.exc is not None else out.raises_under()
        for e in es:
            try:
                v = bool(e.ev(c))
            except T.Undefined as u:
                if isinstance(out.v, Unknown):
                    u = out.v.reason
                return self.holds(None, what, 'raise condition undefined: %s' % u, at)
            if v != want:
                return self.holds(False, what, 'the call %s for %s' % ('raises' if v else 'does not raise', what), at)
        if not want and isinstance(out.v, Unknown):
            return self.holds(None, what, out.v.reason, at)
        return self.holds(True, what, at=at)


def tl_reader(I, t):
    t = I.resolve(t)
    if isinstance(t, Unknown):
        raise Undecided(t.reason)
    if not isinstance(t, Tensor):
        raise Undecided('not a tensor: %r' % (t,))
    return I.reader(t)


class ScenarioBad(Exception):
    def __init__(self, what, msg, at=None):
        Exception.__init__(self, msg)
        self.what, self.msg, self.at = what, msg, at


class TimeUp(BaseException):
    pass


BUDGET = 660      # seconds of a quick run


def _alarm(*a):
    raise TimeUp()


def run_one(job):
    pid, mod, idx, tier, limit, seed, deadline = job
    left = limit if deadline is None else min(limit, int(deadline - time.time()))
    os.environ['VERIF_SEED'] = str(seed)
    m = importlib.import_module('sa.rules.' + mod)
    name, fn, args, at = m.scenarios(tier)[idx]
    t0 = time.time()
    res = {}
    box = {}

    def body():
        x = None
        try:
            x = Ctx(name, at, tier, pid)
            box['x'] = x
            if left <= 0:
                raise Undecided('the time of the whole check is used up')
            fn(x, *args)
        except ScenarioBad as e:
            x.rec('bad', e.what, e.msg, e.at, n=1)
        except Raised as e:
            n = e.e.node
            x.rec('bad', 'raises', 'the call raises %s%s' % (e.e.exc, ' (line %d)' % n.lineno if hasattr(n, 'lineno') else ''), n=1)
        except AbsRaise as e:
            x.rec('bad', 'raises', 'raises %s%s' % (e.exc, ' (line %d)' % e.node.lineno if hasattr(e.node, 'lineno') else ''), n=1)
        except Undecided as e:
            x.rec('unknown', 'scenario', str(e), n=1)
        except Giveup as e:
            x.rec('unknown', 'scenario', 'not modelled: %s' % e, n=1)
        except (T.Undefined, T.TooBig, RecursionError) as e:
            x.rec('unknown', 'scenario', '%s: %s' % (type(e).__name__, e), n=1)
        except Anchor as e:
            box['anchor'] = str(e)
        except TimeUp:
            if x is not None:
                x.rec('unknown', 'scenario', 'time limit %ds' % limit, n=1)
        except Exception as e:
            box['crash'] = traceback.format_exc()
    signal.signal(signal.SIGALRM, _alarm)
    if left > 0:
        signal.alarm(left)
    try:
        body()
    except TimeUp:
        if box.get('x') is not None:
            box['x'].rec('unknown', 'scenario', 'time limit %ds' % limit, n=1)
    finally:
        signal.alarm(0)
    x = box.get('x')
    if x is not None:
        x.collect()
    return dict(name=name, at=at, recs=x.recs if x else [], fns=sorted(x.fns) if x else [], anchor=box.get('anchor'), crash=box.get('crash'), wall=round(time.time() - t0, 2))


def known():
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            l = l.strip()
            if l.startswith('known:'):
                f = l[len('known:'):].strip().split(None, 2)
                pid = f[0].split('=', 1)[1]
                key = f[1].split('=', 1)[1]
                out[(pid, key)] = f[2] if len(f) > 2 else ''
    return out


def key_of(name, what):
    return (name + '/' + what).replace(' ', '_')


def worker_init():
    sys.setrecursionlimit(20000)


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    i = 1
    jobs_n = 8
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 1
        elif argv[i] == '--thorough':
            tier = 'thorough'
        elif argv[i] == '--only':
            only = argv[i + 1]
            i += 1
        elif argv[i] == '-v':
            verbose = True
        elif argv[i] == '-j':
            jobs_n = int(argv[i + 1])
            i += 1
        i += 1
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    modname = pid.lower()
    m = importlib.import_module('sa.rules.' + modname)
    scs = m.scenarios(tier)
    limit = getattr(m, 'LIMIT', 120) if tier == 'quick' else 400
    # a check which changed code makes slow still answers: what is left when its time is up is undecided
    deadline = t0 + BUDGET if tier == 'quick' else None
    jobs = [(pid, modname, k, tier, limit, seed, deadline) for k in range(len(scs)) if only is None or only in scs[k][0]]
    if jobs_n > 1 and len(jobs) > 1:
        ctx = mp.get_context('fork')
        with ctx.Pool(min(jobs_n, len(jobs)), initializer=worker_init, maxtasksperchild=8) as pool:
            results = pool.map(run_one, jobs, chunksize=1)
    else:
        results = [run_one(j) for j in jobs]
    kn = known()
    viol, unk, knownhits, anchors, crashes = [], [], [], [], []
    n = ok = proved = ri = points = facts = 0
    fns = set()
    samples = []
    for r in results:
        fns |= set(r['fns'])
        if r['anchor']:
            anchors.append((r['name'], r['anchor']))
        if r['crash']:
            crashes.append((r['name'], r['crash']))
        for k in r['recs']:
            facts += 1
            n += k.get('n', 1)
            if k['status'] == 'ok':
                ok += k.get('n', 1)
                proved += k.get('proved', 0)
                ri += k.get('ri', 0)
                points += k.get('points', 0)
                if len(samples) < 12 and (facts % 7 == 1):
                    samples.append('%s: %s at %s: %d obligations hold' % (r['name'], k['what'], k['at'], k.get('n', 1)))
            elif k['status'] == 'bad':
                kk = key_of(r['name'], k['what'])
                if (pid, kk) in kn:
                    knownhits.append((kk, k, kn[(pid, kk)]))
                else:
                    viol.append((kk, k, r))
            else:
                unk.append('%s: %s: %s' % (r['name'], k['what'], k['msg']))
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(wall, 2), violations=len(viol),
              coverage=dict(
                  explanation=(getattr(m, 'EXPLAIN', m.__doc__ or '') + ' Rule: the abstract interpreter (sa/interp.py) evaluates the public entry points below on the syntax tree of the current source over the value-graph domain; every obligation is an equality or a side condition on the resulting value graph, decided by normal form or by random interpretation of the graph; no repository code is executed.').strip(),
                  scenarios=len(results), facts=facts, obligations=n, obligations_held=ok, decided_by_normal_form=proved, decided_by_random_interpretation=ri,
                  interpretation_points=points, undecided=unk[:60], scenarios_not_followed=[c[0] for c in crashes] + [a[0] for a in anchors], undecided_count=len(unk), functions_analysed=len(fns),
                  functions=sorted(f for f in fns)[:400], scenario_list=[dict(name=r['name'], at=r['at'], facts=len(r['recs']), wall_s=r['wall']) for r in results],
                  samples=samples or ['none']),
              assumptions=['library semantics of torch/numpy/lxml operations as modelled in sa/torchlib.py and sa/pylib.py', 'real arithmetic in place of floating point'] + list(getattr(m, 'ASSUME', [])))
    ed = os.path.join(VERIF, 'evidence')
    os.makedirs(ed, exist_ok=True)
    if only is None:
        with open(os.path.join(ed, pid + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d scenarios, %d obligations (%d hold: %d by normal form, %d by random interpretation), %d undecided, %d functions analysed, %.1fs'
          % (pid, len(results), n, ok, proved, ri, len(unk), len(fns), wall))
    if verbose:
        for u in unk:
            print('  UNDECIDED', u)
        for r in sorted(results, key=lambda r: -r['wall'])[:5]:
            print('  slow', r['name'], r['wall'])
    for kk, (k, why) in {kk: (k, why) for kk, k, why in reversed(knownhits)}.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kk, why or k['msg']))
    if crashes:
        for nm, tb in crashes[:5 if not verbose else 100]:
            print('INTERNAL ERROR in %s\n%s' % (nm, tb))
    if anchors:
        for nm, a in anchors:
            print('ANALYSIS BROKEN: scenario %s: public name %s not found' % (nm, a))
    if viol:
        replay = os.path.join(ed, pid + '.violation.json')
        with open(replay, 'w', encoding='utf-8') as f:
            json.dump([dict(key=kk, at=k['at'], what=k['what'], scenario=r['name'], message=k['msg'], functions=r['fns'],
                            replay='python3-vt -m sa.run %s --only %s -v' % (pid, r['name'])) for kk, k, r in viol], f, indent=1)
        for kk, k, r in viol[:40]:
            print('  %s: [%s] %s' % (k['at'], kk, k['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(replay, VERIF)))
        return 1
    # a scenario the rules cannot follow is undecided, like any other unknown; the check gives no answer only when hardly anything is left
    if len(crashes) + len(anchors) > max(3, len(results) // 2):
        return 2
    if only is None and facts < getattr(m, 'FLOOR', 1):
        print('ANALYSIS BROKEN: %d facts checked, expected at least %d' % (facts, m.FLOOR))
        return 2
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(1 << 28)
    import resource
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors='backslashreplace')
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except Exception:
        pass
    sys.exit(main(sys.argv[1:]))
