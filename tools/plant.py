#!/usr/bin/env python3
"""tools/plant.py SPEC.py...: confirms planted bugs and writes them to seeded/<id>/.
A SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], MAIN (demo main.rs) or DEMO (shell text), and
TARGET/FLAGS/PROFILE for the standard demo. Applies each to /repo, builds, runs the tests and the demo, and undoes it."""
import json, os, runpy, subprocess, sys
REPO, OUT = '/repo', '/verif/seeded'
DEMO = '''#!/bin/bash
# Runs main.rs (beside this file) against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
atomic-maybe-uninit = { path = "$repo" }
[workspace]
[profile.release]
debug-assertions = false
T
export RUSTUP_TOOLCHAIN=1.97.0 CARGO_NET_OFFLINE=true RUSTFLAGS="@FLAGS@" CARGO_TARGET_DIR="$d/t"
cargo build --offline -q @REL@ --target @TARGET@ --manifest-path "$d/Cargo.toml" || exit 3
timeout -k 5 200 "$d/t/@TARGET@/@DIR@/demo"
'''
# a bug of another architecture: interpreter files copied beside demo.sh, generated cases over the crate compiled for that target
EMU = r'''#!/bin/bash
# Compiles the crate in the current directory for @T@, and interprets the machine code (files beside this one).
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"; cp "$here"/lib.rs "$here"/ops.rs "$d/src/"
cat > "$d/Cargo.toml" <<T
[package]
name = "emu"
version = "0.0.0"
edition = "2021"
[dependencies]
atomic-maybe-uninit = { path = "$repo" }
[workspace]
[profile.release]
opt-level = 3
codegen-units = 1
panic = "abort"
overflow-checks = false
T
export RUSTUP_TOOLCHAIN=@N@ CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/t"
sys=$(rustc --print sysroot) || exit 3
lib="$d/s/lib/rustlib/@T@/lib"; mkdir -p "$lib"
c="--crate-type lib --emit=metadata --target @T@ -Cpanic=abort -Zforce-unstable-if-unmarked -Zalways-encode-mir @CF@"
rustc --crate-name core --edition 2024 -Copt-level=3 $c "$sys/lib/rustlib/src/rust/library/core/src/lib.rs" -o "$lib/libcore-0123456789abcdef.rmeta" 2>/dev/null || exit 3
printf '#![feature(no_core, compiler_builtins)]\n#![allow(internal_features)]\n#![compiler_builtins]\n#![no_core]\n' > "$d/cb.rs"
rustc --crate-name compiler_builtins $c "$d/cb.rs" -o "$lib/libcompiler_builtins-0123456789abcdef.rmeta" || exit 3
RUSTUP_TOOLCHAIN=1.97.0 RUSTC="$sys/bin/rustc" RUSTFLAGS="@F@ --sysroot=$d/s --cfg press" cargo build --offline -q --release --target @T@ --manifest-path "$d/Cargo.toml" || exit 3
a="$d/t/@T@/release/libemu.rlib"
"$sys"/lib/rustlib/*/bin/llvm-objdump -d -r --no-show-raw-insn @OD@ "$a" > "$d/dis" || exit 3
timeout -k 5 150 python3 -B "$here/run.py" @A@ "$a" "$d/dis" @PART@ @P@ 1 @CASES@ 60 "$d/out" || exit 3
python3 - "$d/out" <<T
import json, sys
f = json.load(open(sys.argv[1]))['failures']
print(*[x['message'] for x in f])
sys.exit(1 if f else 0)
T
'''
def emu_demo(g, d):
    import shutil
    sys.path.insert(0, '/verif')
    import eng_emu, vlib
    c = next(c for c in eng_emu.CONFIGS if eng_emu.name(c) == g['CONFIG'])
    for f in ['run', 'core', 'checks', 'weak', c[2].split(':')[0]]:
        shutil.copy(f'/verif/emu/py/{f}.py', d)
    for f in ['lib', 'ops']:
        shutil.copy(f'/verif/emu/src/{f}.rs', d)
    cf = ' '.join(vlib.CORE_FLAGS.get(c[0], []))
    s = EMU
    for a, b in (('@T@', c[0]), ('@N@', vlib.NIGHTLY), ('@CF@', cf), ('@F@', ((cf if '-Ctarget-cpu' not in c[1] else '') + ' ' + c[1]).strip()), ('@OD@', ' '.join(c[3])),
                 ('@A@', c[2]), ('@PART@', g['PART']), ('@P@', g.get('PROPS', g['PROPERTY'])), ('@CASES@', str(g.get('CASES', 4000)))):
        s = s.replace(a, b)
    return s
def sh(*c, **k):
    return subprocess.run(c, capture_output=True, text=True, **k)
def apply_edits(edits):
    for e in edits:
        f, old, new = e[:3]
        n = e[3] if len(e) > 3 else 1
        s = open(f'{REPO}/{f}').read()
        assert s.count(old) == n, (f, old, s.count(old))
        open(f'{REPO}/{f}', 'w').write(s.replace(old, new))
def one(spec):
    g = runpy.run_path(spec)
    d = f"{OUT}/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    demo = emu_demo(g, d) if 'CONFIG' in g else g.get('DEMO')
    if demo is None:
        t = g.get('TARGET', 'x86_64-unknown-linux-gnu')
        rel = g.get('PROFILE', 'release') == 'release'
        demo = DEMO
        for a, b in (('@FLAGS@', g.get('FLAGS', '')), ('@REL@', '--release' if rel else ''), ('@TARGET@', t), ('@DIR@', 'release' if rel else 'debug')):
            demo = demo.replace(a, b)
        open(f'{d}/main.rs', 'w').write(g['MAIN'])
    for f, s in g.get('FILES', {}).items():
        open(f'{d}/{f}', 'w').write(s)
    open(f'{d}/demo.sh', 'w').write(demo)
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
    assert not sh('git', '-C', REPO, 'status', '--porcelain').stdout.strip()
    r = sh('bash', f'{d}/demo.sh', cwd=REPO)
    if r.returncode:
        return f"{g['ID']}: demo fails on the clean tree: {r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}"
    try:
        apply_edits(g['EDITS'])
        open(f'{d}/patch.diff', 'w').write(sh('git', '-C', REPO, 'diff').stdout)
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode:
            return f"{g['ID']}: does not build {r.stderr[-1500:]}"
        r = sh('bash', '/opt/vp/test.sh', '/tmp/plant-tests.json')
        if '407 passed, 0 failed' not in r.stdout:
            return f"{g['ID']}: tests fail: {r.stdout[-900:]}"
        r = sh('bash', f'{d}/demo.sh', cwd=REPO)
        if r.returncode == 0:
            return f"{g['ID']}: demo passes with the patch"
        return f"{g['ID']}: ok (demo exit {r.returncode}: {(r.stdout + r.stderr)[-160:].strip()!r})"
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
for s in sys.argv[1:]:
    print(one(s), flush=True)
