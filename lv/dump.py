"""Compile /repo with the exporting driver and load the exported programs.

The driver is built from /verif/driver, /repo is compiled with the build's own features into a
target directory under /verif/.cache (never /repo/target), and the export is keyed by the content of
every source file of the workspace, so a changed tree is always compiled again.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LV_REPO', '/repo')
CACHE = os.environ.get('LV_CACHE', os.path.join(VERIF, '.cache'))
CRATES = ('libronda', 'ronda-py')
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings -Zub-checks=no'


class BuildFailed(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') or k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
            del e[k]
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTC_ICE'] = '0'
    return e


def sh(cmd, e, cwd, what):
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildFailed('%s failed (%d):\n%s' % (what, r.returncode, r.stdout[-3000:]))
    return r.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def sources(root):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ('.git', 'target', '__pycache__', 'node_modules')]
        out += [os.path.join(d, f) for f in fs if not os.path.islink(os.path.join(d, f))]
    return out


def driver(e):
    src = [os.path.join(VERIF, 'driver', f) for f in ('main.rs', 'stop.txt')]
    out = os.path.join(CACHE, 'driver-' + digest(src))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        sh(['rustc', '+nightly', '--edition', '2021', '-O', '-o', tmp, src[0]], e, CACHE, 'building the driver')
        os.replace(tmp, out)
    return out


def dump():
    """directory holding the exports of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        e = env()
        drv = driver(e)
        key = digest(sources(REPO)) + os.path.basename(drv)[7:]
        out = os.path.join(CACHE, 'dump-' + hashlib.sha256(key.encode()).hexdigest()[:20])
        if all(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
            return out
        old = [d for d in os.listdir(CACHE) if d.startswith('dump-')]
        old.sort(key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        tgt = os.path.join(CACHE, 'target')
        for sub in ('debug/.fingerprint', 'debug/build', 'debug/deps'):
            p = os.path.join(tgt, sub)
            for d in os.listdir(p) if os.path.isdir(p) else ():
                if d.startswith(('libronda', 'ronda')):
                    q = os.path.join(p, d)
                    shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.unlink(q)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], e, CACHE, 'rustc').strip()
        e.update(CARGO_TARGET_DIR=tgt, LD_LIBRARY_PATH=sysroot + '/lib', LV_CRATES=','.join(CRATES), LV_OUT=tmp,
                 LV_STOP=os.path.join(VERIF, 'driver', 'stop.txt'), RUSTC_WORKSPACE_WRAPPER=drv, RUSTFLAGS=FLAGS)
        sh(['cargo', 'check', '--workspace', '--locked', '--offline'], e, REPO, 'compiling ' + REPO)
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + '.json')):
                raise BuildFailed('no export of ' + c)
        os.replace(tmp, out)
        return out


if __name__ == '__main__':
    t = time.time()
    print(dump(), '%.1f s' % (time.time() - t))
    sys.exit(0)
