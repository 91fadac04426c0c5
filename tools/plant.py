#!/usr/bin/env python3
"""plant.py DEFS.py [ID...]: build seeded/<id>/ from definitions and confirm each one in a scratch copy of /repo.

A definition has: id, prop, needs, breaks, edits [(file, old, new)], demo (Rust main program), features.
Confirmed means: patch applies to HEAD, builds, all stable tests pass, demo exits 0 without and nonzero with it."""
import json, os, shutil, subprocess, sys, tempfile, importlib.util

SEED = '/verif/seeded'
WORK = '/tmp/plant/repo'
DEMO_SH = '''#!/bin/bash
# Run with the repository as working directory. Exit 0: the property holds on this input.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf -- "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
jpeg-encoder = { path = "$repo"%(feat)s }
[profile.dev]
opt-level = 1
EOF
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cd "$t" || exit 3
cargo %(tool)sbuild --offline -q %(rel)s|| exit 3
cd "$t" && timeout 200 "$t/target/%(prof)s/demo" "$t"
'''

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def main():
    spec = importlib.util.spec_from_file_location('defs', sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    if os.path.exists(WORK):
        sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', WORK)
    else:
        sh(f'cp -a /repo {WORK}')
    for b in m.BUGS:
        if want and b['id'] not in want:
            continue
        if not want and os.path.exists(f"{SEED}/{b['id']}/meta.json"):
            continue
        sh('git checkout -q -- .', WORK)
        bad = None
        for f, old, new in b['edits']:
            p = f'{WORK}/{f}'
            s = open(p).read()
            if s.count(old) < 1 or (s.count(old) > 1 and not b.get('all')):
                bad = f'edit matches {s.count(old)} times in {f}: {old[:60]!r}'
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print(b['id'], 'BAD', bad); continue
        d = f"/tmp/plant/{b['id']}"
        os.makedirs(d, exist_ok=True)
        _, diff = sh('git diff', WORK)
        open(f'{d}/patch.diff', 'w').write(diff)
        feats = b.get('features')
        sub = {'feat': '' if feats is None else f', default-features = false, features = {json.dumps(feats)}',
               'tool': '', 'rel': '--release ' if b.get('release') else '', 'prof': 'release' if b.get('release') else 'debug'}
        open(f'{d}/demo.sh', 'w').write(b.get('demo_sh') or DEMO_SH % sub)
        if 'demo' in b:
            open(f'{d}/demo.rs', 'w').write((m.PRELUDE if b.get('prelude', True) else '') + b['demo'])
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        # with the patch
        env = '. /opt/vp/env.sh; '
        log = ''
        ok = True
        for args in ['--features simd', '', '--no-default-features --tests']:
            rc, out = sh(f'{env} timeout 240 cargo test --offline {args} -- --test-threads 8', WORK)
            log += out
            if rc:
                ok = False
                fails = [l for l in out.splitlines() if 'FAILED' in l or l.startswith('error')]
                print(b['id'], 'TESTS FAIL', args, fails[:4]); break
        if not ok:
            continue
        rc1, out1 = sh(f'bash {d}/demo.sh', WORK, 300)
        sh('git checkout -q -- .', WORK)
        rc0, out0 = sh(f'bash {d}/demo.sh', WORK, 300)
        if rc0 == 0 and rc1 not in (0, 3):
            shutil.copytree(d, f"{SEED}/{b['id']}", dirs_exist_ok=True)
            print(b['id'], b['prop'], 'ok:', out1.strip().splitlines()[-1][:150] if out1.strip() else rc1)
        else:
            print(b['id'], f'DEMO unchanged rc={rc0} patched rc={rc1}\n', out0[-1500:], '\n---\n', out1[-1500:])
main()
