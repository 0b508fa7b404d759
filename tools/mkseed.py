"""mkseed(id, prop, edits, main_rs, needs, breaks, run=None): write seeded/<id> from textual edits against /repo's HEAD."""
import json, os, subprocess
DEMO = '''#!/bin/bash
# cwd: the repository. Builds a small program against it in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$here/main.rs" "$T/src/main.rs"
cp "$repo/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
halo = { path = "$repo" }
subtle = "*"
[profile.dev]
opt-level = 2
EOF
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cargo build -q --offline >"$T/log" 2>&1 || { cat "$T/log"; exit 3; }
%s
'''
def mkseed(id, prop, edits, main_rs, needs, breaks, run='timeout 250 "$T/target/debug/demo"'):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedcopy'
    subprocess.check_call(f'mkdir -p {w} && rsync -a --delete --exclude target /repo/ {w}/ && git -C {w} checkout -q -- .', shell=True)
    for f, old, new in edits:
        t = open(f'{w}/{f}').read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(f'{w}/{f}', 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.sh', 'w').write(DEMO % run)
    open(f'{d}/main.rs', 'w').write(main_rs.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    subprocess.check_call(['git', '-C', w, 'checkout', '-q', '--', '.'])
