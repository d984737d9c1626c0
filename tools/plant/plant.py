#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs.py after confirming each bug in a scratch copy of /repo.

usage: plant.py [id ...]   (default: all bugs that have no folder yet)
"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs import BUGS

OUT = '/verif/seeded'
SCR = '/tmp/plant_repo'
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('tests', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()

DEMO = '''#!/bin/bash
# Exit 0: the property holds for the inputs tried by main.rs; nonzero: it does not.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
open-dis-rust = { path = "$repo" }
bytes = "1"
TOML
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d"
CARGO_TARGET_DIR="$d/target" cargo run -q --offline
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    want = sys.argv[1:] or [b['id'] for b in BUGS if not os.path.isdir(f"{OUT}/{b['id']}")]
    if os.path.isdir(SCR):
        shutil.rmtree(SCR)
    subprocess.run(['cp', '-a', '/repo', SCR], check=True)
    for b in BUGS:
        if b['id'] not in want:
            continue
        sh('git checkout -- .', SCR)
        ok = True
        for f, old, new in b['edits']:
            p = f'{SCR}/src/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit does not match once:', f, s.count(old), repr(old)[:80]); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff', SCR).stdout
        # every removed line belongs to the original repository
        for f in {e[0] for e in b['edits']}:
            bl = sh(f'git diff -U0 src/{f} | grep "^@@"', SCR).stdout
            for h in bl.splitlines():
                a = h.split()[1][1:].split(',')
                s0, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n:
                    o = sh(f'git blame -s -L {s0},+{n} HEAD -- src/{f}', SCR).stdout
                    for l in o.splitlines():
                        if not l.startswith('^') :
                            print(b['id'], 'NOTE not an original line:', l[:100])
        t = sh('cargo test --workspace --no-fail-fast --offline 2>&1', SCR)
        if t.returncode:
            print(b['id'], 'TESTS FAIL', [l for l in t.stdout.splitlines() if 'FAILED' in l or l.startswith('error')][:6]); continue
        d = f"{OUT}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.sh', 'w').write(DEMO)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/main.rs', 'w').write(b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        bad = sh(f'bash {d}/demo.sh', SCR)
        good = sh(f'bash {d}/demo.sh', '/repo')
        if bad.returncode == 0 or good.returncode != 0 or 'error' in bad.stderr.split('panicked')[0]:
            print(b['id'], 'DEMO WRONG: with', bad.returncode, 'without', good.returncode, bad.stderr[-600:], good.stderr[-600:])
            shutil.rmtree(d)
            continue
        print(b['id'], 'ok')
    shutil.rmtree(SCR)


main()
