"""Running a property: exploration in parallel, verdicts, known findings, evidence."""
import hashlib
import json
import multiprocessing
import os
import re
import signal
import sys
import time
import traceback

from . import dump
from .interp import (Prog, Path, Interp, Panic, Cut, Unknown, Infeasible, explore)
from . import lang as L
from . import facts as F
from .models import MODELS, prefixes_ok

sys.setrecursionlimit(30000)
VERIF = dump.VERIF
PROPS = {}
KNOWN = os.path.join(VERIF, 'known_findings.txt')
_progs = {}


def prop(pid, crates=('libronda',), level='other'):
    def d(f):
        PROPS[pid] = (f, crates, level)
        return f
    return d


class Missing(Exception):
    """a public anchor of the property is gone"""


class Undecided(Exception):
    """the rule does not apply to the code as it is written"""


class Anchors:
    """the items the rules are about, found by their public names"""

    def __init__(self, p, also=None):
        self.p, self.also = p, also

    def mine(self, f):
        return f['local'] or self.also is not None and f['path'].lstrip('<').startswith(self.also)

    def adt(self, name):
        c = [i for i, t in enumerate(self.p.types)
             if t and t['k'] == 'adt' and t['path'].split('::')[-1] == name and (
                 t.get('local') or self.also is not None and t['path'].startswith(self.also))]
        if len(c) != 1:
            raise Missing('type %s (%d found)' % (name, len(c)))
        return c[0]

    def lib_adt(self, path, args=None):
        for i, t in enumerate(self.p.types):
            if t and t['k'] == 'adt' and t['path'] == path and (args is None or t['args'] == args):
                return i
        raise Missing('type %s' % path)

    def method(self, adt, name):
        ty = self.adt(adt)
        c = [f['id'] for f in self.p.fns if self.mine(f) and f['self'] == ty and not f['tm']
             and f['path'].split('::')[-1] == name and f.get('blocks')]
        if len(c) != 1:
            raise Missing('%s::%s (%d found)' % (adt, name, len(c)))
        return c[0]

    def trait(self, trait_method, adt, arg=None):
        """implementation of a trait method (last two path components) for a local type"""
        ty = self.adt(adt)
        c = [f['id'] for f in self.p.fns if f['tm'] and '::'.join(f['tm'].split('::')[-2:]) == trait_method
             and f['self'] == ty and f.get('blocks') and (arg is None or arg in f['path'])]
        if len(c) != 1:
            raise Missing('%s for %s (%d found)' % (trait_method, adt, len(c)))
        return c[0]

    def fn(self, name):
        c = [f['id'] for f in self.p.fns if self.mine(f) and f['self'] is None and not f['tm']
             and not f['closure'] and f['path'].split('::')[-1] == name and f.get('blocks')]
        if len(c) != 1:
            raise Missing('function %s (%d found)' % (name, len(c)))
        return c[0]

    def argty(self, fid, i):
        return self.p.fns[fid]['locals'][i + 1]

    def ret(self, fid):
        return self.p.fns[fid]['locals'][0]


def prog(crate):
    if crate not in _progs:
        _progs[crate] = Prog(os.path.join(_progs['dir'], crate + '.json'))
    return _progs[crate]


PATH_S = 60


def _late(*_):
    raise Unknown('a path took more than %d s' % PATH_S)


signal.signal(signal.SIGALRM, _late)


def _step(job, pre):
    """explore one path: (outcome dict, new prefixes)"""
    P, run, hooks, loops, facts0 = job
    p = Path(list(pre))
    it = Interp(P, p, MODELS, hooks, loops)
    bad, kind, why = [], 'ret', None
    val = None
    try:
        try:
            signal.setitimer(signal.ITIMER_REAL, PATH_S)
            val = run(it)
            h = hooks.get('end') if hooks else None
            if h is not None:
                h(it)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Infeasible:
        kind = None
    except Panic as e:
        kind, why = 'panic', '%s (in %s)' % (e.msg, where(e.where))
        h = hooks.get('end') if hooks else None
        if h is not None:
            h(it)
        val = [('panic:' + e.msg.split('(')[0].strip()[:60], 'no answer: panics: ' + why)]
    except Cut as e:
        kind, why = ('recurrent' if e.recurrent else 'cut'), str(e.where)
    except Unknown as e:
        kind, why = 'unknown', str(e)[:200]
    except L.Unsupported as e:
        kind, why = 'unknown', 'regular expression: %s' % e
    except RecursionError:
        kind, why = 'unknown', 'recursion limit'
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, NameError, ArithmeticError, NotImplementedError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        kind, why = 'unknown', 'internal %s %s at %s' % (type(e).__name__, str(e)[:80], '/'.join('%s:%s' % (x.name, x.lineno) for x in tb[-3:]))
    base = [c for c, _ in p.trail]
    new = []
    for i in range(len(p.trail) - 1, len(pre) - 1, -1):
        c, k = p.trail[i]
        for alt in range(k - 1, c, -1):
            new.append(base[:i] + [alt])
    r = None
    if kind is not None:
        if kind in ('ret', 'panic') and val and prefixes_ok(it):
            bad = val
        r = {'kind': kind, 'why': why, 'exact': not it.f.inexact, 'bad': bad, 'taint': list(it.f.inexact)[:2] if it.f.inexact else None,
             'used': it.used, 'notes': it.notes}
    return r, new


def where(w):
    return w[0] if isinstance(w, tuple) else str(w)


_job = None


def _worker(args):
    prefix, budget, deadline = args
    return _drain([prefix], budget, deadline, False)


def _drain(stack, budget, deadline, bfs):
    out = {'n': 0, 'kinds': {}, 'why': {}, 'bad': [], 'used': set(), 'taint': {}, 'left': []}
    while stack:
        if out['n'] >= budget or time.time() > deadline:
            break
        pre = stack.pop(0) if bfs else stack.pop()
        r, new = _step(_job, pre)
        stack += new
        if r is None:
            continue
        out['n'] += 1
        k = r['kind'] + ('' if r['exact'] else '~')
        out['kinds'][k] = out['kinds'].get(k, 0) + 1
        out['used'] |= r['used']
        if r['why']:
            kk = r['kind'] + ': ' + r['why']
            out['why'][kk] = out['why'].get(kk, 0) + 1
        if r['taint']:
            for t in r['taint']:
                out['taint'][str(t)] = out['taint'].get(str(t), 0) + 1
        for b in r['bad']:
            if r['exact']:
                out['bad'].append(tuple(b) + (len(pre),))
            else:
                out['why']['inexact difference: ' + b[0]] = out['why'].get('inexact difference: ' + b[0], 0) + 1
        if bfs and len(stack) > 48:
            break
    out['left'] = stack
    return out


def merge(a, b):
    a['n'] += b['n']
    for f in ('kinds', 'why', 'taint'):
        for k, v in b[f].items():
            a[f][k] = a[f].get(k, 0) + v
    a['bad'] += b['bad']
    a['used'] |= b['used']
    return a


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != 'thorough'
        self.t0 = time.time()
        self.viol = {}
        self.rules = []
        self.assume = []
        self.used = set()

    # -- programs
    def prog(self, crate='libronda'):
        return prog(crate)

    def anchors(self, crate='libronda'):
        return Anchors(prog(crate), 'ronda::' if crate != 'libronda' else None)

    def note(self, *a):
        self.assume += [x for x in a if x not in self.assume]

    # -- verdicts
    def violation(self, key, msg):
        self.viol.setdefault(key, msg)

    def fact(self, rule, ok, n=1, detail=None):
        """a syntactic obligation, already decided"""
        self.rules.append({'rule': rule, 'obligations': n, 'discharged': n if ok else 0, 'detail': detail})

    def explore(self, rule, run, hooks=None, loops=4, crate='libronda', budget=None, seconds=None, need=1, floor=None):
        """run(I) -> list of (key, message) on every path. Differences on inexact paths are recorded only.
        need: least number of paths that must be decided exactly (else the rule lost its subject)."""
        global _job
        q = self.quick
        budget = budget or (40000 if q else 400000)
        seconds = seconds or (60 if q else 600)
        seconds = max(2, min(seconds, (480 if q else 780) - (time.time() - self.t0)))
        if self.viol and time.time() - self.t0 > 120:
            seconds = min(seconds, 5)  # the verdict is clear
        deadline = time.time() + seconds
        _job = (prog(crate), run, hooks, loops, None)
        t = time.time()
        res = _drain([[]], budget, deadline, True)
        stack = res['left']
        complete = True
        if stack:
            tot = res
            with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
                for r in pool.imap_unordered(_worker, [(s, max(200, budget // 8), deadline) for s in stack]):
                    merge(tot, r)
                    if r['left']:
                        complete = False
            res = tot
        for key, msg, depth in sorted(res['bad'], key=lambda b: (b[2], b[0], b[1])):
            self.violation(key, msg)
        P = prog(crate)
        self.used |= {P.fns[i]['path'] for i in res['used'] if P.fns[i]['local'] or P.fns[i]['path'].lstrip('<').startswith('ronda::')}
        k = res['kinds']
        done = k.get('ret', 0)
        rec = {'rule': rule, 'obligations': sum(k.values()), 'discharged': done - len({b[0] for b in res['bad']}),
               'paths': k, 'complete': complete and not any(x.startswith(('unknown', 'cut')) for x in k),
               'loop_bound': loops, 'wall_s': round(time.time() - t, 2)}
        if res['why']:
            rec['not_followed'] = dict(sorted(res['why'].items(), key=lambda x: -x[1])[:8])
        if res['taint']:
            rec['approximated'] = dict(sorted(res['taint'].items(), key=lambda x: -x[1])[:6])
        if not complete:
            rec['left'] = 'path or time budget reached'
        self.rules.append(rec)
        if sum(k.values()) == 0:
            rec['lost'] = 'no path reaches the subject of the rule'
        elif done < need:
            rec['undecided'] = 'fewer exactly decided paths (%d) than confirmed by hand (%d)' % (done, need)
        return res

    # -- end
    def finish(self, level, fatal=None):
        known, fixed = load_known()
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
        new, seen = [], []
        for key in sorted(self.viol):
            (seen if (self.pid, key) in known else new).append(key)
        for k in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[(self.pid, k)]))
        paths = {}
        p = prog('libronda') if 'dir' in _progs else None
        fns = sorted({str(u) for u in self.used})
        ob = sum(r['obligations'] for r in self.rules)
        di = sum(max(0, r['discharged']) for r in self.rules)
        cov = {'explanation': EXPL.get(self.pid, ''), 'obligations': ob, 'discharged': di,
               'rules': self.rules, 'functions_analysed': len(fns), 'functions': fns[:80],
               'checker_cmd': 'bin/check %s %s' % (self.pid, self.tier),
               'trusted_base': TRUSTED, 'known_findings_seen': seen}
        out = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
               'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(out, f, indent=1, sort_keys=True)
            f.write('\n')
        new.sort(key=lambda k: (len(k), k))
        for i, k in enumerate(new[:20]):
            rp = os.path.join('evidence', 'replay', '%s-%s.txt' % (self.pid, hashlib.sha256(k.encode()).hexdigest()[:8]))
            with open(os.path.join(VERIF, rp), 'w') as f:
                f.write('property %s\nkey %s\n\n%s\n' % (self.pid, k, self.viol[k]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            print('  key: %s\n  %s' % (k, self.viol[k].replace('\n', '\n  ')))
        if len(new) > 20:
            print('  (%d more violations of the same property are not listed)' % (len(new) - 20))
        for r in self.rules:
            print('rule: %s  %s' % (r['rule'], json.dumps({a: b for a, b in r.items() if a not in ('rule',)})[:1500]))
        print('%s %s: %d violation(s), %d known, %.1f s' % (self.pid, self.tier, len(new), len(seen), time.time() - self.t0))
        return 1 if new else 0


EXPL = {}
TRUSTED = ['rustc nightly front end and MIR', 'the MIR export in driver/main.rs', 'the library models in lv/models.py',
           'the abstract domains in lv/lang.py and lv/facts.py', 'the interpreter lv/interp.py']


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r'known: property=(\S+) key=(.+?) :: (.*)$', line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
            elif line.startswith('fixed:'):
                fixed.append(line)
    return known, fixed


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import props  # noqa: F401  (registers the properties)
    f, crates, level = PROPS[pid]
    try:
        _progs['dir'] = dump.dump()
    except dump.BuildFailed as e:
        print('error: %s' % e)
        return 2
    c = Check(pid, tier, seed)
    try:
        f(c)
        for r in c.rules:
            if r.get('lost'):
                c.violation('lost:' + r['rule'], 'rule "%s": %s\n%s' % (r['rule'], r['lost'], json.dumps(r.get('not_followed', {}))))
    except Undecided as e:
        c.rules.append({'rule': 'the rest of the property', 'obligations': 1, 'discharged': 0, 'undecided': str(e)})
    except Missing as e:
        c.violation('anchor:' + str(e), 'the public item the property is about is gone: %s' % e)
    except Exception as e:
        # the rules so far stand; the rest of the property is not decided
        traceback.print_exc()
        c.rules.append({'rule': 'the rest of the property', 'obligations': 1, 'discharged': 0, 'undecided': 'internal %s: %s' % (type(e).__name__, e)})
    return c.finish(level)
