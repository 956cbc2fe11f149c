#!/usr/bin/env python3
"""Plants bugs: seed.py SPEC.py [ID...]  -- SPEC defines SEEDS, a list of dicts
id, prop, edits [(file, old, new)], needs, breaks, demo (body of main, prelude `use compose_spec::*;`).
Each is kept only if the patched crate compiles, passes the existing tests, and the demonstration
passes on the clean copy and fails on the patched one. Works in a scratch copy of /repo."""
import json, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEED_DIR", "/tmp/seed/repo")
DEMO = r'''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$repo/target/demo
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
touch "$d/src/main.rs"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
compose_spec = { path = "$repo" }
serde = "1"
serde_yaml = "0.9"
indexmap = "2"
[profile.dev]
debug = false
TOML
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true cargo build --offline -q || exit 0
exec "$d/target/debug/demo"
'''
def run(cmd, cwd=S, t=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, env=env)
    return p.returncode, p.stdout
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    os.makedirs("/tmp/seed", exist_ok=True)
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = json.dumps(stable)
    for s in ns["SEEDS"]:
        if want and s["id"] not in want: continue
        run(["git", "checkout", "-q", "--", "."])
        run(["git", "fetch", "-q", "/repo", "HEAD"]); run(["git", "reset", "-q", "--hard", "FETCH_HEAD"])
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.rs"), "w") as f:
            f.write("#![allow(unused)]\nuse compose_spec::*;\nuse compose_spec::service::*;\nfn main() {\n" + s["demo"] + "\n}\n")
        with open(os.path.join(d, "demo.sh"), "w") as f: f.write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc0, o0 = run(["bash", os.path.join(d, "demo.sh")])
        ok = True
        for f, a, b in s["edits"]:
            t = open(os.path.join(S, f)).read()
            if t.count(a) != 1:
                print(s["id"], "EDIT matches", t.count(a), "times:", a[:60]); ok = False; break
            open(os.path.join(S, f), "w").write(t.replace(a, b))
        if not ok: continue
        _, diff = run(["git", "diff"])
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rc1, o1 = run(["bash", os.path.join(d, "demo.sh")])
        b, bo = run(["cargo", "build", "--offline", "-q"])
        t, to = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "-q", "--", "--include-ignored"])
        fails = sorted(set(re.findall(r"^test (\S+) .*FAILED|^    (\S+)$", to, re.M))) if t else []
        fails = [x or y for x, y in fails]
        real = [x for x in fails if x and x.split("::")[-1] in stable]
        verdict = "OK" if rc0 == 0 and rc1 != 0 and b == 0 and t == 0 else "REJECTED"
        print(s["id"], verdict, "clean", rc0, "patched", rc1, "build", b, "test", t, real[:5])
        if rc0 or "error" in o0[:200]: print(o0[-1500:])
        if verdict != "OK" and rc1 == 0: print(o1[-800:])
        run(["git", "checkout", "-q", "--", "."])
main()
