#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a bug description: mk.py FILE.py [id...]
FILE.py defines BUGS = {id: dict(prop=, edits=[(file, old, new)], demo=rust main, needs=, breaks=)}."""
import importlib.util, json, os, shutil, subprocess, sys
V = '/verif/seeded'
REPO = os.environ.get('SEED_REPO', '/repo')
CARGO = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
keyword-pir-lwe = { path = "@REPO@" }
xorf = { path = "@REPO@/bff-modp" }
serde_json = "1.0.59"
serde = { version = "1.0", features = ["derive"] }
bincode = "1.3.3"
base64 = "0.13"
[profile.dev]
opt-level = 1
debug = 0
incremental = false
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
t="$repo/target/demo"
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cp "$here/Cargo.lock.in" "$t/Cargo.lock"
cd "$t" && CARGO_TARGET_DIR="$t/target" cargo build --offline -q 2> "$t/log" || { cat "$t/log"; exit 3; }
timeout @TMO@ "$t/target/debug/demo"
'''

def main():
    sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
    spec = importlib.util.spec_from_file_location('b', sys.argv[1]); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
    for id, d in b.BUGS.items():
        if len(sys.argv) > 2 and id not in sys.argv[2:]:
            continue
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'], check=True)
        for f, old, new in d['edits']:
            p = os.path.join(REPO, f); s = open(p).read()
            n = d.get('count', 1)
            assert s.count(old) >= 1, (id, f, 'not found', old)
            assert s.count(old) == 1 or d.get('first') or d.get('all'), (id, f, s.count(old))
            s = s.replace(old, new) if d.get('all') else s.replace(old, new, 1)
            open(p, 'w').write(s)
        diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True, text=True).stdout
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'], check=True)
        o = os.path.join(V, id); os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.sh', 'w').write(DEMO.replace('@TMO@', str(d.get('timeout', 120)))); os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo.rs', 'w').write(d['demo'])
        open(o + '/Cargo.toml.in', 'w').write(CARGO)
        shutil.copy('/verif/oracle/Cargo.lock', o + '/Cargo.lock.in')
        json.dump({'property': d['prop'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(o + '/meta.json', 'w'), indent=1)
        print('made', id)
main()
