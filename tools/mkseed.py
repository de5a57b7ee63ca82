"""Write seeded bugs from a table: python3 tools/mkseed.py TABLE.py [ID...]  (TABLE defines S = [dict(...)]).

Each entry: id, prop, file, edits [(old, new)...], needs, breaks, demo (body of a Rust test module inside the crate).
The change is kept only if it builds, passes the stable tests and its demonstration tells it from the unchanged tree."""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut/seed'
DEMO = '''#!/bin/bash
# Runs the tests of demo.rs inside a scratch copy of the working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 1
trap 'rm -rf "$S"' EXIT
cp -a Cargo.toml Cargo.lock core python "$S/" || exit 1
[ -d target ] && cp -a target "$S/target"
export CARGO_TARGET_DIR="$S/target"
cp "$here/demo.rs" "$S/core/src/seeded_demo.rs"
printf '\\n#[cfg(test)]\\nmod seeded_demo;\\n' >> "$S/core/src/lib.rs"
cd "$S" && cargo test --offline --locked -p libronda --lib seeded_demo -- --test-threads 1
'''
HEAD = '''#![allow(unused_imports)]
use crate::version::matching::*;
use crate::version::spec_trees::*;
use crate::{conda_parser, read_repodata, CompOp, Version, VersionPart};
use std::cmp::Ordering;
use std::convert::{TryFrom, TryInto};

fn v(s: &str) -> Version { s.parse().unwrap() }
fn m(spec: &str, ver: &str) -> bool { VersionSpecOrConstraintTree::try_from(spec).unwrap().test_match_version(&v(ver)) }

'''
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TARGET_DIR=W + '/target', RUSTC_WRAPPER='')


def sh(cmd, cwd=W):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def fresh():
    if not os.path.exists(W):
        shutil.copytree('/repo', W, symlinks=True)
    sh(['git', 'checkout', '-q', '--', '.'])
    sh(['git', 'pull', '-q', '/repo'])


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    b = b.get('tests', b)
    return set(b if isinstance(b, list) else [k for k in b])


def passed(out):
    p, f = set(), set()
    for line in out.split('\n'):
        if line.startswith('test ') and ' ... ' in line:
            n, r = line[5:].rsplit(' ... ', 1)
            (p if r.strip() == 'ok' else f).add(n.strip())
    return p, f


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    fresh()
    base = passed(sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--locked', '--offline'])[1])[1]
    print('failing on the unchanged tree:', len(base))
    for s in ns['S']:
        if want and s['id'] not in want:
            continue
        fresh()
        demo = s.get('demosh') or DEMO
        d = os.path.join('/tmp/mut/seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(demo)
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in s:
            open(d + '/demo.rs', 'w').write(HEAD + s['demo'])
        for n, t in s.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        rc0, o0 = sh(['bash', d + '/demo.sh'])
        for f, old, new in s['edits']:
            t = open(os.path.join(W, f)).read()
            assert t.count(old) >= 1, (s['id'], 'not found', old)
            open(os.path.join(W, f), 'w').write(t.replace(old, new, 1))
        _, diff = sh(['git', 'diff'])
        open(d + '/patch.diff', 'w').write(diff)
        rc1, o1 = sh(['cargo', 'test', '--workspace', '--no-fail-fast', '--locked', '--offline'])
        p, f = passed(o1)
        import re
        nl = lambda x: re.sub(r'line \d+', '', x)
        f = {x for x in f - base if nl(x) not in {nl(y) for y in base}}
        rc2, o2 = sh(['bash', d + '/demo.sh'])
        ok = rc0 == 0 and p and not f and rc2 != 0 and 'error: could not compile' not in o1 and ('test result: FAILED' in o2 or s.get('compile_fail')) or (ok_other(rc0, rc2, f, p, o1) if 'demosh' in s else False)
        print('%-28s base demo %s, tests %d ok %s, patched demo %s -> %s' % (s['id'], rc0, len(p), sorted(f)[:6], rc2, 'KEEP' if ok else 'REJECT'), flush=True)
        if not ok:
            if rc0:
                print(o0[-1500:])
            if not p:
                print(o1[-1500:])
            if rc2 and 'test result' not in o2 and rc0 == 0:
                print(o2[-1500:])
        else:
            t = os.path.join(ROOT, 'seeded', s['id'])
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(d, t)
    sh(['git', 'checkout', '-q', '--', '.'])


def ok_other(rc0, rc2, f, p, o1):
    return rc0 == 0 and rc2 not in (0, 126, 127) and p and not f and 'error: could not compile' not in o1


main()
