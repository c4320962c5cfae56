#!/usr/bin/env python3
"""dev tool: write a planted bug.  seed(id, prop, [(file, old, new)], needs, breaks, demo, cargo=None)
makes the patch against /repo's HEAD in a scratch worktree and lays the demonstration beside it."""
import os, subprocess, json, shutil, tempfile
V = '/verif'
GEN = '''import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
g = vx.Gen(sys.argv[1], 'replay')
sys.stdout.write(g.run(sys.argv[2]).replace('@REPO@', sys.argv[1]))
'''
RUSTC = '''#!/bin/bash
# cwd is the repository; compiles the functions concerned, taken from its current source, and runs them
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$T"' EXIT
python3 "$H/gen.py" "$R" "$H/demo.rs" > "$T/main.rs" || exit 3
rustc +1.82 --edition 2021 -A warnings -o "$T/d" "$T/main.rs" || exit 3
cd "$T" && timeout 120 "$T/d"
'''
CARGO = '''#!/bin/bash
# cwd is the repository; compiles the functions concerned, taken from its current source, and runs them
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$H/Cargo.toml" "$H/Cargo.lock" "$T/"
python3 "$H/gen.py" "$R" "$H/demo.rs" > "$T/src/main.rs" || exit 3
cd "$T" && RUSTFLAGS='-A warnings' CARGO_TARGET_DIR="$T/t" cargo +1.82 build --offline --quiet || exit 3
cd "$T" && timeout 120 "$T/t/debug/demo"
'''
def seed(id, prop, edits, needs, breaks, demo, cargo=None):
    d = f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seedwt.', dir='/tmp')
    for f in {e[0] for e in edits}:
        os.makedirs(os.path.dirname(f'{w}/a/{f}'), exist_ok=True); os.makedirs(os.path.dirname(f'{w}/b/{f}'), exist_ok=True)
        shutil.copy(f'/repo/{f}', f'{w}/a/{f}'); shutil.copy(f'/repo/{f}', f'{w}/b/{f}')
    for f, old, new in edits:
        s = open(f'{w}/b/{f}').read()
        if s.count(old) != 1: raise SystemExit(f'{id}: {f}: {s.count(old)} matches of {old!r}')
        open(f'{w}/b/{f}', 'w').write(s.replace(old, new))
    p = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'], cwd=w, capture_output=True, text=True).stdout
    open(f'{d}/patch.diff', 'w').write(p)
    shutil.rmtree(w)
    r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', f'{d}/patch.diff'], capture_output=True, text=True)
    if r.returncode: raise SystemExit(f'{id}: {r.stderr}')
    open(f'{d}/gen.py', 'w').write(GEN)
    for x in ('vx.py', 'rx.py'): shutil.copy(f'{V}/lib/{x}', f'{d}/{x}')
    open(f'{d}/demo.rs', 'w').write(demo)
    if cargo:
        b = f'{V}/replay/{cargo}'
        t = open(f'{b}/Cargo.toml').read(); import re
        n = re.search(r'name\s*=\s*"([^"]+)"', t).group(1)
        t = t.replace(f'"{n}"', '"demo"', 1)
        open(f'{d}/Cargo.toml', 'w').write(t)
        l = open(f'{b}/Cargo.lock').read().replace(f'name = "{n}"', 'name = "demo"')
        open(f'{d}/Cargo.lock', 'w').write(l)
    open(f'{d}/demo.sh', 'w').write(CARGO if cargo else RUSTC); os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{d}/meta.json', 'w'), indent=1)
    print('seed', id)
