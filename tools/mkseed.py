#!/usr/bin/env python3
"""mkseed.py SPEC.py [id..]: plants the bugs described in SPEC (list SEEDS) one at a time in /repo,
confirms each (existing tests pass, demo fails with it and passes without it), keeps it under
/verif/seeded and says which check catches it. Always restores /repo."""
import json, os, subprocess, sys, shutil
REPO, ROOT = '/repo', '/verif'
DEMO = '''#!/bin/bash
# Builds main.rs beside this file against the combine in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
d=$(mktemp -d); mkdir "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null || true
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
combine = { path = "$repo"@FEATURES@ }
@DEPS@
T
cd "$d"
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run -q --offline
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean():
    sh(f'git -C {REPO} checkout -- .')
def tests():
    if sh('bash /opt/vp/build.sh').returncode: return 'does not build'
    sh('bash /opt/vp/test.sh /tmp/seed-out.json')
    b = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = json.load(open('/tmp/seed-out.json'))
    o = set(o[[k for k in o if 'pass' in k][0]])
    return sorted(b - o)[:8]
def demo(d):
    t = '/tmp/seedtmp'; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    r = sh(f'bash {d}/demo.sh', cwd=REPO, env=dict(os.environ, TMPDIR=t))
    shutil.rmtree(t, ignore_errors=True)
    return r
def check(prop):
    r = sh(f'bash {ROOT}/check.sh {prop} quick')
    l = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    return r.returncode, len(l), r.stdout
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
        d = f"{ROOT}/seeded/{s['id']}"
        if os.path.exists(d): continue
        assert not sh(f'git -C {REPO} status --porcelain -uno').stdout, 'repo not clean'
        w = f"/tmp/seed/{s['id']}"; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        open(w + '/main.rs', 'w').write(s['demo'])
        f = s.get('features'); open(w + '/demo.sh', 'w').write(DEMO.replace('@FEATURES@', f', features = {json.dumps(f)}' if f else '').replace('@DEPS@', s.get('deps', '')))
        r0 = demo(w)
        if r0.returncode: print(s['id'], 'REJECT: demo fails on the unchanged tree:', r0.stdout[-900:]); continue
        try:
            for file, old, new in s['edits']:
                p = f'{REPO}/{file}'; t = open(p).read()
                n = t.count(old)
                if n != 1: raise SystemExit(f"{s['id']}: {file}: {n} matches of {old!r}")
                open(p, 'w').write(t.replace(old, new))
            open(w + '/patch.diff', 'w').write(sh(f'git -C {REPO} diff').stdout)
            r1 = demo(w)
            if not r1.returncode: print(s['id'], 'REJECT: demo passes with the change'); continue
            if 'error[' in r1.stdout or 'could not compile' in r1.stdout: print(s['id'], 'REJECT: demo does not compile', r1.stdout[-800:]); continue
            m = tests()
            if m: print(s['id'], 'REJECT: tests notice:', m); continue
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(w + '/meta.json', 'w'), indent=1)
            shutil.copytree(w, d)
            rc, n, out = check(s['prop'])
            print(s['id'], s['prop'], 'CAUGHT' if rc == 1 and n else f'MISSED rc={rc}', n, 'violations |', r1.stdout.strip().splitlines()[-2:], flush=True)
        finally:
            clean()
main()
