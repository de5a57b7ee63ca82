"""Interpreter against the machine: python3 selftest/run.py [GROUP[.CASE]] [-v]

Not one of the registered checks: it tests the analyser, not the repository. Every function of cases.rs is run natively on a
list of arguments and interpreted (a) on each of them and (b) on an arbitrary member of the list; the interpreter must not
contradict the native answers. What it does not follow is listed."""
import multiprocessing
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
W = '/tmp/lvself'
os.environ['LV_REPO'] = W + '/repo'
os.environ['LV_CACHE'] = W + '/cache'
sys.path.insert(0, os.path.dirname(HERE))
from lv import dump, lang as L  # noqa: E402
from lv.interp import Prog, Str, Seq, Lin, Sym, explore, ref  # noqa: E402
from lv.models import MODELS  # noqa: E402
from lv.facts import RANGES  # noqa: E402

WORDS = ['', '1', '1.2', '1.2.3', '=1', '==1.2', '1.2.*', '*', '1.2*', 'a.b', '1.dev2', 'Dev', '\u00e9.1', '..', '.1-', '1-2.3', '^1$', '0012', '2147483648',
         '-5', '70000', '(1|2)', '1!2+a', ' 1 ', '2', '!=', '1.DEV', 'dev.']


def prepare():
    os.makedirs(W, exist_ok=True)
    shutil.rmtree(W + '/repo', ignore_errors=True)
    shutil.copytree('/repo', W + '/repo', symlinks=True, ignore=shutil.ignore_patterns('target', '.git'))
    shutil.copy(HERE + '/cases.rs', W + '/repo/core/src/lvcases.rs')
    open(W + '/repo/core/src/lvwords.txt', 'w').write('\x01'.join(WORDS))
    with open(W + '/repo/core/src/lib.rs', 'a') as f:
        f.write('\npub mod lvcases;\n')
    e = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=W + '/native', LV_NATIVE=W + '/native.txt')
    r = subprocess.run(['cargo', 'test', '--offline', '--locked', '-p', 'libronda', '--lib', 'lv_print'], cwd=W + '/repo', env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('\n'.join(x for x in r.stdout.split('\n') if 'error' in x or '-->' in x)[:3000])
        sys.exit(2)
    out = {}
    for line in open(W + '/native.txt'):
        g, n, a, v = line.rstrip('\n').split('\t')
        out.setdefault((g, n), {})[a] = None if v == 'PANIC' else ''.join(chr(int(x.split('}')[0], 16)) for x in v.split('\\u{')[1:])
    return out


def args_of(I, fn, g, a):
    P = I.p
    if g == 'text':
        return [ref(Str(('lit', WORDS[int(a)])))]
    if g == 'pair':
        return [ref(Str(('lit', WORDS[int(x)]))) for x in a.split(',')]
    if g == 'num':
        return [int(x) for x in a.split(',')]
    return [ref(Seq(tuple(('i', int(x)) for x in a.split(',') if x)))]


def one(job):
    (g, n), native = job
    t0 = time.time()
    f = PATHS['lvcases::%s::%s' % (g, n)]
    res = []
    keys = list(native)
    if g == 'pair':
        keys = keys[::7]
    for a in keys:
        want = native[a]
        k = 0
        try:
            for r in explore(P, MODELS, lambda I: I.call(f, args_of(I, f, g, a)), loops=40, deadline=time.time() + 5):
                k += 1
                if r.kind == 'unknown':
                    res.append(('unknown', str(r.val)[:120], a))
                elif r.kind == 'cut':
                    res.append(('cut', str(r.val)[:80], a))
                elif not r.exact:
                    res.append(('taint', str(r.interp.f.inexact)[:100], a))
                elif r.kind == 'panic':
                    if want is not None:
                        res.append(('WRONG', 'panic %s, native %r' % (r.val.msg[:80], want), a))
                else:
                    t = r.interp.text(r.val)
                    w = r.interp.word(t)
                    if w is None:
                        res.append(('vague', str(t)[:80] + ' native %r' % want, a))
                    elif w != want:
                        res.append(('WRONG', 'got %r native %r' % (w, want), a))
            if k == 0:
                res.append(('WRONG', 'no path', a))
        except Exception as e:
            import traceback
            res.append(('CRASH', repr(e)[:160] + traceback.format_exc()[-400:].replace('\n', '|'), a))
    # an arbitrary member
    sym = {'paths': 0}
    if g in ('text', 'pair', 'num', 'list'):
        seen = {}
        good = set()
        try:
            words = sorted(set(WORDS))
            al = L.L_lits(tuple(words))

            def run(I):
                if g == 'num':
                    ty = P.fns[f]['locals'][1]
                    return I.call(f, [Sym(('sv', 's'), ty), Sym(('sv', 't'), ty)])
                if g == 'list':
                    ty = P.fns[f]['locals'][1]
                    return I.call(f, [Sym(('sv', 's'), ty)])
                for x in ('s', 't')[:1 if g == 'text' else 2]:
                    I.f.assume_lang(('sv', x), al)
                return I.call(f, [ref(Str(('sv', x))) for x in ('s', 't')[:1 if g == 'text' else 2]])
            for r in explore(P, MODELS, run, loops=5, limit=3000, deadline=time.time() + 10):
                sym['paths'] += 1
                k = r.kind + ('' if r.exact else '~')
                sym[k] = sym.get(k, 0) + 1
                if r.kind == 'unknown':
                    sym['why'] = str(r.val)[:90]
                elif r.kind == 'cut':
                    sym['cut why'] = str(r.val)[:60]
                elif not r.exact:
                    sym['approx'] = str(r.interp.f.inexact)[:90]
                if g in ('num', 'pair'):
                    f_ = r.interp.f

                    def fits(k):
                        if g == 'pair':
                            return all(f_.get_lang(('sv', x)).has(WORDS[int(y)]) for x, y in zip('st', k.split(',')))
                        return all((lo is None or lo <= int(y)) and (hi is None or int(y) <= hi)
                                   for y, (lo, hi) in ((y, f_.limits(('sv', x))) for x, y in zip('st', k.split(','))))
                    rest = [k for k in native if k not in good and fits(k)]
                    for k in rest:
                        seen[k] = 1
                    if r.kind == 'ret' and r.exact:
                        l = f_.get_lang(r.interp.text(r.val))
                        good |= {k for k in rest if native[k] is not None and l.has(native[k])}
                    elif r.kind == 'panic' and r.exact:
                        good |= {k for k in rest if native[k] is None}
                    else:
                        good |= set(rest)
                if g == 'text':
                    rest = [x for x in words if r.interp.f.get_lang(('sv', 's')).has(x)]
                    for x in rest:
                        seen[x] = seen.get(x, 0) + 1
                    if r.kind == 'ret' and r.exact:
                        l = r.interp.f.get_lang(r.interp.text(r.val))
                        for x in rest:
                            v = native[str(WORDS.index(x))]
                            if v is not None and l.has(v):
                                good.add(x)
                    elif r.kind == 'panic' and r.exact:
                        good |= {x for x in rest if native[str(WORDS.index(x))] is None}
                    else:
                        good |= set(rest)
            else:
                if g in ('num', 'pair') and sym['paths'] < 3000 and not sym.get('unknown'):
                    for x in native:
                        if x not in good:
                            res.append(('SYM', '%r: native %r on no path' % (x, native[x]), ''))
                if g == 'text' and sym['paths'] < 3000:
                    miss = [x for x in words if x not in seen]
                    for x in seen:
                        if x not in good:
                            res.append(('SYM', '%r: native %r on no path' % (x, native[str(WORDS.index(x))]), ''))
                    if miss:
                        res.append(('SYM', 'no path for %r' % miss[:5], ''))
        except Exception as e:
            import traceback
            res.append(('CRASH', 'sym ' + repr(e)[:160] + traceback.format_exc()[-300:].replace('\n', '|'), ''))
    return g, n, res, sym, time.time() - t0


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if a != '-v']
    native = prepare()
    P = Prog(dump.dump() + '/libronda.json')
    sys.setrecursionlimit(20000)
    PATHS = {f['path']: f['id'] for f in P.fns if f['local'] and 'blocks' in f}
    jobs = [(k, v) for k, v in native.items() if not args or '.'.join(k).startswith(args[0])]
    tot = {}
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for g, n, res, sym, dt in pool.imap_unordered(one, jobs):
            c = {}
            for k, m, a in res:
                c.setdefault(k, []).append((m, a))
                tot[k] = tot.get(k, 0) + 1
            bad = [k for k in c if k in ('WRONG', 'CRASH', 'SYM')]
            if bad or c or '-v' in sys.argv or sym.get('unknown') or sym.get('loose') or dt > 20:
                print('%-26s %s sym %s %.0fs' % (g + '.' + n, {k: (len(v), v[0]) for k, v in c.items()}, sym, dt), flush=True)
    print('cases', len(jobs), tot)
