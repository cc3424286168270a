#!/usr/bin/env python3
"""mk.py SPEC.py [ids...]: builds /verif/seeded/<id> from the specs in SPEC.py and confirms each one.
A spec: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust source, [deps], [sh])."""
import sys, os, subprocess, shutil, json, runpy, tempfile, concurrent.futures as cf
SEEDED = "/verif/seeded"
DEMO_SH = r'''#!/bin/bash
# Run in the repository: builds the program beside this file against it and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export PATH=$HOME/.cargo/bin:/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$tmp/target CARGO_INCREMENTAL=0
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat >"$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
prima_undine = { path = "$repo/prima_undine"%FEAT% }
%DEPS%
[workspace]
[profile.dev]
opt-level = 1
debug = false
EOF
cd "$tmp" || exit 2
timeout 250 cargo run --offline --quiet >"$tmp/out" 2>&1
rc=$?
tail -5 "$tmp/out"
exit $rc
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def one(s):
    i = s["id"]; d = f"{SEEDED}/{i}"
    work = f"/tmp/seedwork/{i}"
    shutil.rmtree(work, ignore_errors=True); os.makedirs("/tmp/seedwork", exist_ok=True)
    sh(f"cp -a /repo {work}")
    try:
        for f, old, new in s["edits"]:
            p = f"{work}/{f}"; t = open(p).read()
            if t.count(old) != 1:
                return i, f"EDIT: {f}: {t.count(old)} matches of {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {work} diff").stdout
        # changed lines must be of the original repository
        orig = False
        import re
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
            if m: n = int(m.group(1)) - 1
            if l.startswith("-") and not l.startswith("---"):
                n += 1
                b = sh(f"git -C /repo blame -s -L {n},{n} HEAD -- {cur}").stdout
                if b.startswith("^cb0299b") or b.startswith("cb0299b"): orig = True
                else: return i, f"touches own line: {b.strip()}"
            elif l.startswith(" "): n += 1
        if not orig: return i, "changes no original line"
        r = sh(f"cd {work} && cargo test --offline --workspace 2>&1 | tail -400", env={**os.environ, "CARGO_INCREMENTAL": "0"})
        failed = [l for l in r.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
        if failed or "test result: ok" not in r.stdout:
            return i, "TESTS: " + "; ".join(failed[:5]) + (r.stdout[-800:] if not failed else "")
        npass = sum(int(m) for m in re.findall(r"(\d+) passed", r.stdout))
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        deps = s.get("deps", "")
        feat = ', features = ["derive"]' if s.get("derive") else ""
        dl = ""
        if "contrib" in deps: dl += 'prima_undine_contrib = { path = "$repo/prima_undine_contrib" }\n'
        if "json" in deps: dl += 'serde_json = "1"\n'
        if "derives" in deps: dl += 'serde = { version = "1", features = ["derive"] }\n'
        open(f"{d}/demo.sh", "w").write(DEMO_SH.replace("%FEAT%", feat).replace("%DEPS%", dl))
        os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/demo.rs", "w").write(s["demo"].lstrip())
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        bad = sh(f"cd {work} && bash {d}/demo.sh")
        good = sh(f"cd /repo && bash {d}/demo.sh")
        if good.returncode != 0: return i, f"DEMO fails on clean: {good.stdout[-1500:]}"
        if bad.returncode == 0: return i, "DEMO passes with the bug"
        if "could not compile" in bad.stdout: return i, "demo does not compile with bug: " + bad.stdout
        return i, f"ok ({npass} tests) bad: {bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else bad.returncode}"
    finally:
        shutil.rmtree(work, ignore_errors=True)
specs = runpy.run_path(sys.argv[1])["S"]
want = sys.argv[2:]
specs = [s for s in specs if not want or s["id"] in want]
with cf.ThreadPoolExecutor(4) as ex:
    for i, m in ex.map(one, specs):
        print(i, "->", m, flush=True)
        if not m.startswith("ok"): shutil.rmtree(f"{SEEDED}/{i}", ignore_errors=True)
