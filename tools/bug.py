#!/usr/bin/env python3
"""Author a seeded bug: bug.py ID PROP FILE(repo-relative) 'needs' 'breaks' < spec
spec: lines
<<<<OLD ... ====NEW ... >>>>   (repeatable; prefix '@path' line switches file)
%%%% test body (a #[cfg(test)] module appended to FILE; tests named seeded_*)
Writes /verif/seeded/ID/, then confirms: applies, builds, stable tests pass, demo 0 / nonzero."""
import sys, os, re, subprocess, json, shutil, tempfile
ID, PROP, FILE, needs, breaks = sys.argv[1:6]
spec = sys.stdin.read()
edits, test = spec.split('%%%%', 1)
d = f'/verif/seeded/{ID}'
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix='bug', dir='/tmp')
try:
    r = w + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    cur = FILE
    for tok in re.finditer(r'^@(\S+)$|<<<<\n(.*?)\n====\n(.*?)\n?>>>>', edits, re.S | re.M):
        if tok[1]: cur = tok[1]; continue
        p = f'{r}/{cur}'; s = open(p).read()
        assert s.count(tok[2]) == 1, (s.count(tok[2]), tok[2])
        open(p, 'w').write(s.replace(tok[2], tok[3]))
    diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/test.rs', 'w').write(test.strip() + '\n')
    pkg = 'openjp2' if FILE.startswith('openjp2') else 'laya'
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# Runs the test beside this script inside a scratch copy of the repository.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
s=$(mktemp -d) || exit 3
trap 'rm -rf "$s"' EXIT
mkdir "$s/r" && tar -C /repo --exclude=./target --exclude=./.git -cf - . | tar -C "$s/r" -xf - || exit 3
cat "$here/test.rs" >> "$s/r/{FILE}"
cd "$s/r" || exit 3
CARGO_TARGET_DIR="$s/t" timeout 280 cargo test -q --offline --locked -p {pkg} --lib seeded_
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=PROP, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
finally:
    shutil.rmtree(w)
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
def demo(): return sh(f'bash {d}/demo.sh')
assert not sh('git -C /repo status --short').stdout.strip()
a = demo()
print('unpatched demo', a.returncode)
if a.returncode: print(a.stdout[-2500:], a.stderr[-2500:])
sh(f'git -C /repo apply {d}/patch.diff')
try:
    b = demo()
    print('patched demo', b.returncode)
    tail = (b.stdout + b.stderr)
    print('\n'.join(l for l in tail.splitlines() if 'panicked' in l or 'error' in l or 'assert' in l or 'left' in l or 'right' in l)[:800])
    t = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/out.json')
    o = json.load(open('/tmp/w/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ps = o.get('passed', o)
    bad = [x for x in base if x not in ps] if isinstance(ps, list) else [x for x in base if ps.get(x) not in ('pass', 'passed', True, 'ok')]
    print('stable failing:', bad, t.stderr[-300:] if t.returncode else '')
finally:
    sh('git -C /repo checkout -- .')
print('OK' if a.returncode == 0 and b.returncode and not bad else 'BAD')
