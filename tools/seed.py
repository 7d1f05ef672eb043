#!/usr/bin/env python3
"""Build and try the planted bugs of /verif/seeded from their descriptions in tools/seeds/*.py.

  seed.py make  ID..   confirm in a scratch copy (builds, tests pass, demo fails only with the patch), write seeded/ID
  seed.py check ID..   apply each to /repo, run its property's quick check, undo

A description defines SEED = dict(property, needs, breaks, edits=[(file, old, new[, nth])], demo=<main.rs>, features=[..],
default_features=True); a demo exits non-zero (panics) exactly when the property is broken.
Nothing here is read by a check.
"""
import json, os, runpy, shutil, subprocess, sys, time
V = '/verif'
W = '/tmp/wt'
DEMO = r'''#!/bin/bash
# Builds the program beside this file against the revision crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin HOME=/root
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[workspace]

[dependencies]
revision = { path = "$repo"%s }
%s
[profile.dev]
debug = false
incremental = false
TOML
cd "$work" && timeout 280 cargo --offline run --quiet --target-dir "$work/target"
'''


def load(i):
    return runpy.run_path(f'{V}/tools/seeds/{i}.py')['SEED']


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def scratch():
    if not os.path.isdir(W):
        sh(f'cp -a /repo {W}')
    sh(f'git -C {W} fetch -q /repo HEAD && git -C {W} checkout -q -f FETCH_HEAD && git -C {W} clean -fdq')
    for n in ('build', 'test'):
        t = open(f'/opt/vp/{n}.sh').read().replace('cd /repo', f'cd {W}').replace('/opt/vp/logs', f'{W}-logs')
        open(f'{W}-{n}.sh', 'w').write(t)


def edit(seed, root):
    for e in seed['edits']:
        f, old, new = e[:3]
        p = f'{root}/{f}'
        s = open(p).read()
        n = s.count(old)
        nth = e[3] if len(e) > 3 else 0
        if n == 0 or (n > 1 and len(e) < 4):
            raise SystemExit(f'{f}: {n} matches of {old[:80]!r}')
        at = -1
        for _ in range(nth + 1):
            at = s.index(old, at + 1)
        s = s[:at] + new + s[at + len(old):]
        open(p, 'w').write(s)


def make(i):
    seed = load(i)
    scratch()
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    edit(seed, W)
    diff = subprocess.run(['git', '-C', W, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    feats = seed.get('features', [])
    spec = ''
    if not seed.get('default_features', True):
        spec += ', default-features = false'
    if feats:
        spec += ', features = [' + ', '.join(f'"{f}"' for f in feats) + ']'
    open(f'{d}/demo.sh', 'w').write(DEMO % (spec, seed.get('deps', '')))
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/main.rs', 'w').write(seed['demo'].lstrip())
    lock = open(f'{V}/tools/seeds/Cargo.lock').read()
    if seed.get('deps'):
        extra = ''.join(f' "{l.split()[0]}",\n' for l in seed['deps'].strip().splitlines())
        names = sorted([l.strip() for l in extra.splitlines()] + ['"revision",'])
        lock = lock.replace('name = "demo"\nversion = "0.0.0"\ndependencies = [\n "revision",\n]',
                            'name = "demo"\nversion = "0.0.0"\ndependencies = [\n ' + '\n '.join(names) + '\n]')
    open(f'{d}/Cargo.lock', 'w').write(lock)
    json.dump({'property': seed['property'], 'needs': seed['needs'], 'what_it_breaks': seed['breaks']},
              open(f'{d}/meta.json', 'w'), indent=1)
    ok = True
    r = sh(f'bash {d}/demo.sh', cwd='/repo')
    if r.returncode:
        print(i, 'DEMO FAILS ON CLEAN', r.stdout[-1500:]); return False
    r = sh(f'bash {d}/demo.sh', cwd=W)
    if not r.returncode:
        print(i, 'DEMO PASSES WITH BUG'); ok = False
    elif 'could not compile' in r.stdout:
        print(i, 'DEMO DOES NOT COMPILE WITH BUG', r.stdout[-1500:]); ok = seed.get('compile_demo', False)
    else:
        print(i, 'demo:', [l for l in r.stdout.splitlines() if l.strip()][-3:][0][:200])
    if not ok:
        return False
    r = sh(f'bash {W}-build.sh')
    if r.returncode:
        print(i, 'BUILD FAILS', r.stdout[-1500:]); return False
    sh(f'bash {W}-test.sh {W}-t.json')
    t = json.load(open(f'{W}-t.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss = [x for x in stable if x not in set(t['passed'])]
    print(i, 'tests missing:', miss[:8])
    return not miss


def check(i, tier='quick', prop=None):
    seed = load(i)
    prop = prop or seed['property']
    assert not sh('git -C /repo status --porcelain').stdout
    r = sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
    if r.returncode:
        print(i, 'patch does not apply', r.stdout); return
    t = time.time()
    try:
        r = sh(f'cd {V} && VERIF_TIER={tier} timeout 900 python3 check.py {prop} {tier}')
    finally:
        sh('git -C /repo checkout -- .')
    lines = r.stdout.splitlines()
    v = [l for l in lines if l.startswith('VIOLATION')]
    print(i, prop, 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', f'{time.time()-t:.0f}s', (v or lines[-3:])[:1])


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        for i in a[1:]:
            print(i, 'OK' if make(i) else 'REJECTED', flush=True)
    elif a[0] == 'check':
        for i in a[1:]:
            i, _, p = i.partition(':')
            check(i, prop=p or None)
            sys.stdout.flush()
