#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  <<< JSON {"subs": [[file, old, new]], "demo": rust main body, "needs":..., "breaks":...}
Creates seeded/ID and validates it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = '/verif/seeded'
SH = '''#!/bin/sh
# cwd: the repository under test
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
tofas = { path = "$R/crates/tofas" }
tofas_extras = { path = "$R/crates/tofas_extras" }
EOF
CARGO_TARGET_DIR="$T/target" cargo run --offline -q --manifest-path "$T/Cargo.toml"
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, prop, subs, demo, needs, breaks):
    d = os.path.join(ROOT, id)
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp'); r = tmp + '/repo'
    try:
        sh('git clone -q /repo repo && cp /repo/Cargo.lock repo/ 2>/dev/null; true', tmp)
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.rs', 'w').write(demo); open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
        p = sh('sh %s/demo.sh' % d, r)
        if p.returncode: return 'demo fails on the unchanged tree: ' + p.stdout[-1500:]
        for f, old, new in subs:
            t = open(r + '/' + f).read()
            if t.count(old) != 1: return 'anchor occurs %d times: %r' % (t.count(old), old)
            open(r + '/' + f, 'w').write(t.replace(old, new))
        diff = sh('git diff', r).stdout
        base = {f: sh('git show 89c5065:' + f, '/repo').stdout.split('\n') for f, _, _ in subs}
        cur = None
        for l in diff.split('\n'):
            if l.startswith('--- a/'): cur = l[6:]
            elif l.startswith('-') and l[1:] not in base[cur]: return 'changes a line that is not original: ' + l
        p = sh('cargo test --offline -q', r, env=dict(os.environ, CARGO_TARGET_DIR=tmp + '/t'))
        if p.returncode: return 'tests fail with the change: ' + p.stdout[-1500:]
        p = sh('sh %s/demo.sh' % d, r)
        if p.returncode == 0: return 'demo passes with the change'
        if 'error[' in p.stdout or 'could not compile' in p.stdout: return 'demo does not build with the change ' + p.stdout[-1000:]
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        return None
    finally: shutil.rmtree(tmp)
def main(seeds, only=None):
    for s in seeds:
        if only and s[0] not in only: continue
        e = make(*s)
        print(s[0], 'OK' if e is None else 'REJECTED: ' + e)
        if e: shutil.rmtree(os.path.join(ROOT, s[0]), ignore_errors=True)
