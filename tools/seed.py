#!/usr/bin/env python3
"""seed.py FILE...: turns planted-bug descriptions into /verif/seeded/<id>/ after confirming them on /repo.

A description is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO = {file name: text}
(one of them demo.sh).  Each edit is applied to a copy of /repo mounted over it, the diff taken,
the build and the tests run, and the demonstration run on both trees.  CORE = True: the demonstration is a check.mjs in
DEMO, run with tools/demo_core and the stand-in for wasabi_wasm beside it; MAIN and CARGO replace its main.rs and the
dependencies of its Cargo.toml.in.  After "--check", the registered quick checks of the properties named (or of the bug's
own property) run on the changed copy.
"""
import json, os, shutil, subprocess, sys, tempfile

if os.environ.get("SEED_NS") != "1":  # copies of /repo, /opt/vp and /verif, mounted over them: nothing real is changed
    S = "/tmp/seed"
    os.makedirs(S, exist_ok=True)
    for src, name in (("/repo", "repo"), ("/opt/vp", "vp")):
        if not os.path.isdir(os.path.join(S, name)):
            subprocess.run(["cp", "-a", src, os.path.join(S, name)], check=True)
    subprocess.run("git -C %s/repo fetch -q /repo HEAD && git -C %s/repo reset -q --hard FETCH_HEAD" % (S, S), shell=True, check=True)
    os.makedirs(S + "/verif/work", exist_ok=True)
    os.makedirs(S + "/verif/seeded", exist_ok=True)
    for n in ("bin", "lib", "spec", "harness", "shims", "tools"):
        shutil.rmtree(os.path.join(S, "verif", n), ignore_errors=True)
    subprocess.run("cd /verif && cp -a bin lib spec harness shims tools evidence *.json* %s/verif/" % S, shell=True, check=True)
    args = [os.path.abspath(a) if os.path.exists(a) else a for a in sys.argv[1:]]
    cmd = ("mkdir -p /tmp/seed/out && mount --bind /verif/seeded /tmp/seed/out && mount --bind {0}/verif /verif && mount --bind /tmp/seed/out /verif/seeded && "
           "mount --bind {0}/repo /repo && mount --bind {0}/vp /opt/vp && cd / && SEED_NS=1 exec python3 {1} {2}").format(S, "/verif/tools/seed.py", " ".join(args))
    sys.exit(subprocess.run(["unshare", "-Urm", "bash", "-c", cmd]).returncode)

REPO, SEEDED = "/repo", "/verif/seeded"
RUST_SH = r'''#!/bin/bash
# Builds and runs main.rs against the crates in /repo, in a scratch folder.
set -u
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH HOME=/root CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUST_BACKTRACE=0 CARGO_INCREMENTAL=0
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tmp" "$d/bin"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat >"$d/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
DEPS
[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR=$d/target
cargo build -q --offline --manifest-path "$d/Cargo.toml" || exit 3
[ -f "$here/wasm-merge" ] && install -m 755 "$here/wasm-merge" "$d/bin/wasm-merge"
cd "$d/tmp" && TMPDIR=$d/tmp PATH=$d/bin:$PATH timeout 100 "$d/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def demo(d):
    t = tempfile.mkdtemp()
    x = os.path.join(t, "demo")
    shutil.copytree(d, x, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh("bash %s/demo.sh" % x, cwd=REPO, timeout=300)
    shutil.rmtree(t)
    return r


def lock(deps, d):
    """The Cargo.lock of a demo package with these dependencies."""
    with tempfile.TemporaryDirectory() as t:
        os.makedirs(t + "/src")
        open(t + "/src/main.rs", "w").write("fn main() {}")
        open(t + "/Cargo.toml", "w").write("[package]\nname = \"demo\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\n%s\n" % deps)
        shutil.copy("/opt/vp/ws/Cargo.lock", t + "/Cargo.lock")
        r = sh("cargo metadata --offline --format-version 1 --manifest-path %s/Cargo.toml >/dev/null" % t)
        assert r.returncode == 0, r.stderr
        shutil.copy(t + "/Cargo.lock", d + "/Cargo.lock")


def core(g, d):
    t = "/verif/tools/demo_core"
    for n in os.listdir(t):
        if n == "main.rs" and "MAIN" in g or n in g["DEMO"]:
            continue
        shutil.copy(os.path.join(t, n), d)
    if "MAIN" in g:
        open(d + "/main.rs", "w").write(g["MAIN"])
    if "CARGO" in g:
        s = open(d + "/Cargo.toml.in").read()
        a, b = s.index("[dependencies]\n") + len("[dependencies]\n"), s.index("[patch.")
        patches = "".join("[patch.%s]\n%s = { path = \"shims/%s\" }\n" % (w, n, n) for n, w in (
            ("asc-compiler-rs", '"https://github.com/aaronmunsters/asc-compiler-rs"'), ("rust-to-wasm-compiler", '"https://github.com/aaronmunsters/rust-to-wasm-compiler"'),
            ("clio", "crates-io")) if n in g.get("SHIMS", ()))
        open(d + "/Cargo.toml.in", "w").write(s[:a] + g["CARGO"] + "\n" + s[b:].replace("[profile.dev]", patches + "[profile.dev]"))
    for n in ("wasabi_wasm",) + tuple(g.get("SHIMS", ())):
        shutil.copytree("/verif/shims/" + n, d + "/shims/" + n, ignore=shutil.ignore_patterns("target"))
    with tempfile.TemporaryDirectory() as t:  # the harness's lock, reduced to this package
        os.makedirs(t + "/src")
        open(t + "/src/main.rs", "w").write("fn main() {}")
        shutil.copytree(d + "/shims", t + "/shims")
        shutil.copy(d + "/Cargo.toml.in", t + "/Cargo.toml")
        s = open("/verif/harness/%s/Cargo.lock" % g.get("LOCK", "core")).read()
        open(t + "/Cargo.lock", "w").write(s.replace('name = "%s-harness"' % g.get("LOCK", "core"), 'name = "demo"'))
        r = sh("cargo metadata --offline --format-version 1 --manifest-path %s/Cargo.toml >/dev/null" % t)
        assert r.returncode == 0, r.stderr
        shutil.copy(t + "/Cargo.lock", d + "/Cargo.lock")


argv = sys.argv[1:]
checks = None
if "--check" in argv:
    checks, argv = argv[argv.index("--check") + 1:], argv[:argv.index("--check")]
for f in argv:
    g = {}
    exec(open(f).read(), g)
    d = os.path.join(SEEDED, g["ID"])
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, t in g["DEMO"].items():
        open(os.path.join(d, n), "w").write(t)
    if g.get("CORE"):
        core(g, d)
    if "DEPS" in g:
        open(os.path.join(d, "demo.sh"), "w").write(RUST_SH.replace("DEPS", g["DEPS"]))
        lock(g["DEPS"], d)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    ok = []
    r = demo(d)
    ok.append(r.returncode == 0)
    if r.returncode:
        print(g["ID"], "demo fails on the unchanged tree", r.returncode, r.stdout[-1500:], r.stderr[-1500:])
    try:
        for fn, old, new in g["EDITS"]:
            p = os.path.join(REPO, fn)
            s = open(p).read()
            assert s.count(old) == 1, (g["ID"], fn, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        if g.get("TESTS", True):
            b = sh("bash /opt/vp/build.sh")
            ok.append(b.returncode == 0)
            if b.returncode:
                print(b.stderr[-1500:])
            sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            res = json.load(open("/tmp/seed-out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            passed = set(res.get("passed", res.get("pass", [])))
            want = set(base.get("stable", base.get("passed", base.get("pass", []))))
            ok.append(bool(want) and want <= passed)
            if not ok[-1]:
                print("tests:", sorted(want - passed)[:5], list(res)[:5], list(base)[:5])
        r = demo(d)
        ok.append(r.returncode not in (0, 3))
        if not ok[-1]:
            print(g["ID"], "demo with patch:", r.returncode, r.stdout[-800:], r.stderr[-800:])
        else:
            print(g["ID"], "shows:", (r.stderr.strip().splitlines() or r.stdout.strip().splitlines() or [""])[-1][:300])
        if checks is not None and all(ok):
            for c in checks or [g["PROPERTY"]]:
                k = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 890 python3 bin/check.py %s quick" % c)
                print(g["ID"], c, {0: "MISSED", 1: "caught"}.get(k.returncode, "rc %d" % k.returncode), (k.stdout + k.stderr)[-400:].strip().replace("\n", " | "))
    finally:
        sh("git -C /repo checkout -- .")
        sys.stdout.flush()
    print(g["ID"], "confirmed" if all(ok) else "NOT CONFIRMED %s" % ok)
