#!/usr/bin/env python3
"""Plants bugs: builds /verif/seeded/<id>/ from a batch file and validates each of them in a scratch copy.

usage: seed.py BATCH.py [ID...]      (no check uses this file nor /verif/seeded)

A batch defines SEEDS = {id: dict(property=, needs=, what_it_breaks=, edits=[(file, old, new[, count])], demo=RUST)}.
Validation: the patch applies to HEAD and changes original lines, builds, passes the stable tests,
and demo.sh exits 0 without and nonzero with the patch.
"""
import json, os, re, shutil, subprocess, sys, textwrap
SCRATCH = '/tmp/seed_scratch'
BASE = '2ef9116'
DEMO = '''#!/bin/bash
# Exit 0 when the behaviour is right, 1 when it is wrong. Run with cwd /repo.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
WORK=$(mktemp -d /tmp/nc3demo.XXXXXX)
trap 'rm -rf "$WORK"' EXIT
mkdir -p "$WORK/crate/src" "$WORK/files"
cp "$HERE/demo.rs" "$WORK/crate/src/main.rs"
cat > "$WORK/crate/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[dependencies]
netcdf3 = { path = "$REPO" }
[workspace]
TOML
cp "$REPO/Cargo.lock" "$WORK/crate/Cargo.lock" 2>/dev/null || true
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$WORK/target"
unset RUSTFLAGS
cd "$WORK/crate"
cargo build --offline -q
cd "$WORK/files"
timeout 120 "$WORK/target/debug/demo"
'''
def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)

def fresh():
    if not os.path.isdir(SCRATCH):
        os.makedirs(SCRATCH)
        sh('cp -a /repo %s/repo' % SCRATCH)
    r = SCRATCH + '/repo'
    sh('git fetch -q /repo && git checkout -q -f FETCH_HEAD && git clean -fdq -e target', cwd=r)
    return r

ENV = dict(os.environ, LC_ALL='C.UTF-8', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true',
           CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never')

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b

def run_tests(r):
    p = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=r, env=ENV)
    out = p.stdout + p.stderr
    ok = sum(int(x) for x in re.findall(r'test result: \w+\. (\d+) passed', out))
    bad = sum(int(x) for x in re.findall(r'; (\d+) failed', out))
    return p.returncode, ok, bad, out

def original_lines(r, patch):
    """at least one removed line comes from the original commit; returns (removed original, removed own)"""
    orig = own = 0
    cur = None
    for f in re.findall(r'^--- a/(.*)$', patch, re.M):
        pass
    old = 0
    blame = {}
    for l in patch.splitlines():
        m = re.match(r'^--- a/(.*)$', l)
        if m:
            cur = m.group(1)
            b = sh('git blame -s HEAD -- %s' % cur, cwd=r).stdout.splitlines()
            blame = {i + 1: x.split()[0].lstrip('^').startswith(BASE[:7]) for i, x in enumerate(b)}
            continue
        m = re.match(r'^@@ -(\d+)', l)
        if m:
            old = int(m.group(1)); continue
        if l.startswith('-'):
            if blame.get(old): orig += 1
            else: own += 1
            old += 1
        elif l.startswith(' '):
            old += 1
    return orig, own

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns['SEEDS'])
    for sid in ids:
        s = ns['SEEDS'][sid]
        r = fresh()
        d = '/verif/seeded/' + sid
        err = None
        for e in s['edits']:
            f, old, new = e[0], e[1], e[2]
            n = e[3] if len(e) > 3 else 1
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != n:
                err = 'edit: %d matches in %s of %r' % (t.count(old), f, old[:60]); break
            open(p, 'w').write(t.replace(old, new))
        if err: print(sid, 'FAIL', err); continue
        patch = sh('git diff', cwd=r).stdout
        o, own = original_lines(r, patch)
        rc, ok, bad, out = run_tests(r)
        if rc != 0 or ok < 182:
            fails = re.findall(r'^test (\S+.*) \.\.\. FAILED', out, re.M)
            print(sid, 'FAIL tests', rc, ok, bad, fails[:8], out[-1500:] if not fails else ''); continue
        if o == 0: print(sid, 'FAIL changes no original line'); continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.rs', 'w').write(textwrap.dedent(s['demo']).lstrip())
        open(d + '/demo.sh', 'w').write(s.get('demo_sh', DEMO))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        p1 = sh('bash %s/demo.sh' % d, cwd=r)
        sh('git checkout -q -f .', cwd=r)
        p0 = sh('bash %s/demo.sh' % d, cwd=r)
        good = p0.returncode == 0 and p1.returncode != 0
        compile_err = 'error[' in p1.stderr or 'could not compile' in p1.stderr
        print(sid, 'OK' if good and not compile_err else 'FAIL demo', 'orig=%d own=%d' % (o, own), 'clean rc', p0.returncode, 'patched rc', p1.returncode,
              '' if good else p0.stderr[-1500:] + p1.stderr[-800:], flush=True)
        if not good or compile_err:
            shutil.move(d, '/tmp/seeds/failed_' + sid) if not os.path.exists('/tmp/seeds/failed_' + sid) else shutil.rmtree(d)
main()
