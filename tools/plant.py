#!/usr/bin/env python3
"""Plants bugs in a scratch copy of /repo, verifies them and stores them in /verif/seeded.

  plant.py SPECS.py [ID...]   SPECS.py defines BUGS: dicts with id, prop, edits [(file, old, new)], needs, breaks, demo
  plant.py --run [ID...]      runs the checks of stored bugs again (all checks with --all)
"""
import json, os, re, shutil, subprocess, sys, runpy
HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("PLANT_WORK", "/tmp/plant")
PRELUDE = open(os.path.join(HOME, "tools", "demo_prelude.rs")).read()
DEMO = r'''#!/bin/bash
# Run in the repository: passes (0) when the behaviour described in meta.json is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
if [ -f "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$tmp/Cargo.lock"; fi
cat >"$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bumaga = { path = "$repo" }
serde_json = "1.0.118"
END
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" timeout 280 cargo run --quiet --offline
'''

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def prepare():
    os.makedirs(WORK, exist_ok=True)
    repo = f"{WORK}/repo"
    if not os.path.exists(repo):
        sh(f"cp -a /repo {repo}")
    head = sh("git rev-parse HEAD", "/repo")[1].strip()
    sh("git checkout -q -- . ; git fetch -q /repo HEAD; git checkout -q --detach FETCH_HEAD", repo)
    assert sh("git rev-parse HEAD", repo)[1].strip() == head
    h = f"{WORK}/harness"
    os.makedirs(h, exist_ok=True)
    sh(f"rsync -a --delete --exclude target {HOME}/harness/ {h}/ || (cp -r {HOME}/harness/src {HOME}/harness/Cargo.* {h}/)")
    t = open(f"{h}/Cargo.toml").read().replace('path = "/repo"', f'path = "{repo}"')
    open(f"{h}/Cargo.toml", "w").write(t)
    return repo, h

def base_lines(repo, diff):
    """Number of removed lines that belong to the original repository."""
    n = 0
    cur = None
    first = sh("git rev-list --max-parents=0 HEAD", repo)[1].split()[0]
    blame = {}
    for line in diff.splitlines():
        if line.startswith("--- a/"): cur = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m: at = int(m.group(1)); continue
        if line.startswith(("--- ", "+++ ")): continue
        if line.startswith("-"):
            if cur not in blame:
                blame[cur] = sh(f"git blame -l -s HEAD -- {cur}", repo)[1].splitlines()
            if blame[cur][at - 1].lstrip("^").startswith(first[:30]): n += 1
            at += 1
        elif line.startswith(" "): at += 1
    return n

def run_checks(h, props):
    rc, out = sh("cargo build --release --offline 2>&1 | grep -E '^error' -A7", h)
    if "error" in out: return {"build": out}
    res = {}
    for p in props:
        rc, out = sh(f"./target/release/simcheck check {p}", h, {"SIMCHECK_ROOT": f"{WORK}/root", "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
        res[p] = (rc, [l[:250] for l in out.strip().splitlines()[-2:]] if rc else [])
    return res

ALL = [f"C{i:02}" for i in range(1, 24)]

def main():
    args = sys.argv[1:]
    every = "--all" in args
    args = [a for a in args if a != "--all"]
    repo, h = prepare()
    if args[0] == "--run":
        ids = args[1:] or sorted(os.listdir(f"{HOME}/seeded"))
        for i in ids:
            d = f"{HOME}/seeded/{i}"
            prop = json.load(open(f"{d}/meta.json"))["property"]
            rc, out = sh(f"git apply {d}/patch.diff", repo)
            if rc: print(i, "DOES NOT APPLY", out); continue
            res = run_checks(h, ALL if every else [prop])
            sh("git checkout -q -- .", repo)
            print(i, prop, "CAUGHT" if res.get(prop, (0,))[0] == 1 else "MISSED", {k: v[0] for k, v in res.items() if k != prop and v[0]} if every else "", res.get(prop), flush=True)
        return
    bugs = runpy.run_path(args[0])["BUGS"]
    for b in bugs:
        if args[1:] and b["id"] not in args[1:]: continue
        d = f"{HOME}/seeded/{b['id']}"
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1:
                print(b["id"], f, "occurrences of old text:", s.count(old)); ok = False; break
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        if not ok:
            sh("git checkout -q -- .", repo); continue
        diff = sh("git diff", repo)[1]
        n = base_lines(repo, diff)
        rc, out = sh(f"CARGO_TARGET_DIR={WORK}/tt cargo test --offline 2>&1 | grep -E '^test result|FAILED|failed|^error' -A5", repo)
        tests = "error" not in out and "FAILED" not in out and "test result: ok. 78 passed" in out
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/demo.sh", "w").write(DEMO); os.chmod(f"{d}/demo.sh", 0o755)
        open(f"{d}/main.rs", "w").write(PRELUDE + b["demo"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        bad, o1 = sh(f"bash {d}/demo.sh", repo)
        res = run_checks(h, ALL if every else [b["prop"]])
        sh("git checkout -q -- .", repo)
        good, o2 = sh(f"bash {d}/demo.sh", repo)
        valid = tests and bad != 0 and good == 0 and n > 0
        print(b["id"], b["prop"], "VALID" if valid else f"INVALID tests={tests} demo bad={bad} good={good} base={n}", "CAUGHT" if res.get(b["prop"], (0,))[0] == 1 else "MISSED", {k: v[0] for k, v in res.items() if k != b["prop"] and v[0]} if every else "", res.get(b["prop"], res), flush=True)
        if not valid:
            print(out[-1500:] if not tests else "", o1[-600:] if bad == 0 else "", o2[-1500:] if good else "")
            shutil.rmtree(d)
main()
