import json, os, subprocess, shutil
WT = os.environ.get('WT', '/tmp/dev/wt')
if not os.path.exists(WT):
    subprocess.check_call(['git', 'clone', '-q', '/repo', WT])
subprocess.check_call('git checkout -q -- . && git pull -q', shell=True, cwd=WT)
OUT = os.environ.get('SEEDOUT', '/verif/seeded')
PRELUDE = '''#!/bin/bash
# cwd: /repo, after its build. Exits with 0 if the property holds in this case.
here="$(cd "$(dirname "$0")" && pwd)"
typical="$PWD/target/debug/typical"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 1
fail() { echo "FAIL: $*"; exit 1; }
'''
RUST = '''
# Compiles a Rust program and runs it.
rust() { rustc --edition 2021 -A warnings -C debug-assertions=on -o program "$1" || fail "does not compile"; ./program; }
'''
TS = r'''
# Turns TypeScript files into JavaScript and runs the last one.
ts() {
  cat >transpile.js <<'END'
const ts = require('/opt/veriftools/node/node_modules/typescript'), fs = require('fs');
for (const file of process.argv.slice(2)) {
  const options = { module: 'commonjs', target: 'es2020' };
  fs.writeFileSync(file.replace(/ts$/, 'js'), ts.transpileModule(fs.readFileSync(file, 'utf8'), { compilerOptions: options }).outputText);
}
END
  node transpile.js "$@" && node "$(basename "${@: -1}" .ts).js"
}
# Type-checks files.
tsc_strict() { node /opt/veriftools/node/node_modules/typescript/lib/tsc.js --strict --noEmit --target es2020 --lib es2020,dom "$@"; }
'''
def seed(id, prop, edits, demo, needs, breaks, files=None, rust=False, ts=False):
    if os.environ.get('ONLY') and id not in os.environ['ONLY'].split(): return
    subprocess.check_call('git checkout -q -- .', shell=True, cwd=WT)
    for f, old, new in edits:
        p = os.path.join(WT, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            if isinstance(new, tuple):
                k = new[0]; new = new[1]
                parts = s.split(old)
                s = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
            else:
                raise Exception(f'{id}: {n} occurrences of {old!r} in {f}')
        else:
            if isinstance(new, tuple): new = new[1]
            s = s.replace(old, new)
        open(p, 'w').write(s)
    subprocess.call(['cargo', 'fmt'], cwd=WT, env=dict(os.environ, RUSTUP_TOOLCHAIN='stable'))
    d = os.path.join(OUT, id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', 'diff'], cwd=WT).decode()
    assert diff, id
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    r = subprocess.run(['cargo', 'check', '-q', '--offline'], cwd=WT, capture_output=True)
    if r.returncode: print(id, 'DOES NOT COMPILE', r.stderr.decode()[:3000])
    body = PRELUDE + (RUST if rust else '') + (TS if ts else '') + demo.strip('\n') + '\nexit 0\n'
    open(os.path.join(d, 'demo.sh'), 'w').write(body)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    for n, t in (files or {}).items():
        open(os.path.join(d, n), 'w').write(t)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=2)
    subprocess.check_call('git checkout -q -- .', shell=True, cwd=WT)
