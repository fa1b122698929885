#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/plants.py, confirming each planted change in a scratch copy.

  plant.py [ID ...]    (all of plants.py when no ID is given)

For each: apply the edits in a copy of /repo under /tmp, require that every line removed comes from
the original commit, that it builds and the repository's tests pass, that the demonstration passes
in the unchanged tree and fails in the copy; then write patch.diff, demo.sh, main.rs, meta.json."""
import os, subprocess, sys, json, shutil, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import plants
BASE = '484ed67'
OUT = '/verif/seeded'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')

DEMO = r'''#!/bin/bash
# Run in the root of the crate: exit 0 if the library behaves, nonzero if it does not.
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" || exit 99
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
japanese_law_xml_schema = { path = "$R" }
@DEPS@[profile.dev]
debug = 0
EOF
@LOCK@cd "$T" || exit 99
CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet || exit 98
DEMO_SCRATCH="$T" timeout -k 5 @TIMEOUT@ "$T/target/debug/demo"
'''

def sh(cmd, cwd, timeout=600, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'

def one(p):
    pid = p['id']
    wt = f'/tmp/plant_{pid}'
    shutil.rmtree(wt, ignore_errors=True)
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
        shutil.copy('/repo/Cargo.lock', wt) if os.path.exists('/repo/Cargo.lock') else None
        for e in p['edits']:
            f = f'{wt}/src/{e[0]}'
            s = open(f).read()
            anchor, old, new = e[1], e[2], e[3]
            i = s.index(anchor) if anchor else 0
            j = s.index(old, i)
            s = s[:j] + new + s[j+len(old):]
            open(f, 'w').write(s)
        rc, fmt = sh(['cargo', 'fmt', '--check'], wt)
        if rc: sh(['cargo', 'fmt'], wt)
        rc, diff = sh(['git', 'diff'], wt)
        # blame of removed lines
        rc, d0 = sh(['git', 'diff', '-U0'], wt)
        cur = None; removed = 0; bad = []
        for l in d0.splitlines():
            m = re.match(r'--- a/(.*)', l)
            if m: cur = m.group(1); continue
            m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a+n):
                    removed += 1
                    _, b = sh(['git', 'blame', '-s', '-L', f'{k},{k}', 'HEAD', '--', cur], wt)
                    if BASE not in b.split(')')[0]: bad.append(f'{cur}:{k}')
        if bad: return pid, False, 'not original lines: ' + ' '.join(bad)
        if not removed: return pid, False, 'no original line changed'
        t = f'{wt}/target'
        e2 = dict(ENV, CARGO_TARGET_DIR=t)
        r = subprocess.run(['cargo', 'test', '--offline', '--quiet'], cwd=wt, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        out = r.stdout.decode('utf-8', 'replace')
        if r.returncode: return pid, False, 'build/tests fail:\n' + out[-1500:]
        d = f'{OUT}/{pid}'
        os.makedirs(d, exist_ok=True)
        deps = p.get('deps', '')
        lock = ''
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/main.rs', 'w').write(plants.PRELUDE + p['demo'])
        open(f'{d}/demo.sh', 'w').write(DEMO.replace('@DEPS@', deps).replace('@LOCK@', lock or 'cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null\n').replace('@TIMEOUT@', str(p.get('timeout', 60))))
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(f'{d}/meta.json', 'w'), ensure_ascii=False, indent=1)
        rc0, o0 = sh(['bash', f'{d}/demo.sh'], CLEAN, timeout=290)
        if rc0: return pid, False, f'demo fails on the unchanged tree ({rc0}):\n' + o0[-1500:]
        rc1, o1 = sh(['bash', f'{d}/demo.sh'], wt, timeout=290)
        if rc1 in (0, 98, 99): return pid, False, f'demo gives {rc1} with the change:\n' + o1[-1500:]
        return pid, True, f'ok (demo {rc1})'
    except Exception as ex:
        return pid, False, f'{type(ex).__name__}: {ex}'
    finally:
        shutil.rmtree(wt, ignore_errors=True)

CLEAN = f'/tmp/plant_clean_{os.getpid()}'
shutil.rmtree(CLEAN, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', CLEAN])
if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock', CLEAN)
sel = sys.argv[1:]
todo = [p for p in plants.PLANTS if not sel or p['id'] in sel]
with ThreadPoolExecutor(4) as ex:
    for pid, ok, msg in ex.map(one, todo):
        print(pid, 'OK ' if ok else 'BAD', msg, flush=True)
        if not ok and os.path.isdir(f'{OUT}/{pid}'): shutil.rmtree(f'{OUT}/{pid}')
shutil.rmtree(CLEAN, ignore_errors=True)
