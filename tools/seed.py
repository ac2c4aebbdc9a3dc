#!/usr/bin/env python3
"""seed.py [ID ...]: (re)builds and confirms the planted bugs described in tools/seeds/<ID>.py.
Each description sets prop, needs, breaks, edits = [(file, old, new)], demo (Rust main).
Works in the scratch copy /tmp/sr; writes /verif/seeded/<ID>/ only when everything is confirmed."""
import json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
SR = "/tmp/sr"
def run(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def fresh():
    if os.path.exists(SR): shutil.rmtree(SR)
    run("cp -a /repo %s" % SR)
DEMO_SH = '''#!/bin/bash
# run in the crate's directory after the build; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
mkdir -p "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$here/util.rs" ] && cp "$here/util.rs" "$t/src/util.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
redox_liner = { path = "$PWD" }
libc = "0.2"
[profile.dev]
debug = 0
[workspace]
EOF
cd "$t"
export SCRATCH="$t/scratch" CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
mkdir -p "$SCRATCH"
cargo build --offline -q || { find "$t" -delete; exit 3; }
timeout 120 "$t/target/debug/demo"
rc=$?
find "$t" -delete
exit $rc
'''
def tests():
    r = run("python3 /opt/vp/ptyrun.py 420 /tmp/sr/target/unit.log cargo test --workspace --no-fail-fast --offline --lib --bins --tests --examples -- --test-threads 8 --color never; cargo test --offline --doc", cwd=SR, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
    log = open(SR + "/target/unit.log", errors="replace").read()
    ok = {l.split()[1] for l in log.replace("\r", "").split("\n") if l.startswith("test ") and l.rstrip().endswith("ok")}
    return ok, log
def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(H + "/seeds") if f.endswith(".py"))
    fresh()
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("pass", [])) if False else None
    ok0, log = tests()
    print("unchanged: %d tests pass" % len(ok0))
    bad = []
    for i in ids:
        g = {}
        exec(open("%s/seeds/%s.py" % (H, i)).read(), g)
        run("git -C %s checkout -- ." % SR)
        err = None
        for f, a, b in g["edits"]:
            p = os.path.join(SR, f); s = open(p).read()
            if s.count(a) != 1: err = "edit matches %d times: %r" % (s.count(a), a[:60]); break
            open(p, "w").write(s.replace(a, b))
        if err: print(i, "FAILED", err); bad.append(i); continue
        diff = subprocess.run(["git", "-C", SR, "diff"], stdout=subprocess.PIPE, text=True).stdout
        ok1, log = tests()
        if ok1 != ok0:
            print(i, "FAILED: tests differ:", sorted(ok0 - ok1)[:8], log[-800:] if not ok1 else ""); bad.append(i); continue
        d = "/tmp/seedout/" + i
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(g["demo"])
        if "mod util;" in g["demo"]: shutil.copy(H + "/demo_util.rs", d + "/util.rs")
        json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r1 = run(["bash", d + "/demo.sh"], cwd=SR)
        run("git -C %s checkout -- ." % SR)
        r0 = run(["bash", d + "/demo.sh"], cwd=SR)
        if r0.returncode == 0 and r1.returncode not in (0, 3):
            dst = V + "/seeded/" + i
            shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
            print(i, "ok: with the change:", r1.stdout.strip().split("\n")[-1][:200])
        else:
            print(i, "FAILED demo: unchanged rc %d %s | changed rc %d %s" % (r0.returncode, r0.stdout[-800:], r1.returncode, r1.stdout[-800:])); bad.append(i)
    print("bad:", bad)
main()
