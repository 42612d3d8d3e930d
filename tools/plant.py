#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: makes /verif/seeded/<id>/ from a list of textual
edits and a demonstration, and confirms that each one compiles, passes the
stable tests, is shown by its demonstration, and touches lines of the base
commit. SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file,
old, new)], main=rust source, derive=bool)]. Works on /repo and undoes it."""
import json, os, subprocess, sys, tempfile, runpy
OUT = "/verif/seeded"
BASE = subprocess.check_output("git -C /repo rev-list --max-parents=0 HEAD", shell=True, text=True).strip()
DEMO = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
json = { path = "$repo" }
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-W pub_use_of_private_extern_crate"
timeout 250 cargo run --quiet --offline
'''
DEMO_PM = '''#!/bin/bash
# builds a proc-macro crate using the parser and the quoting macro found under
# the current directory; its check runs while the program below is compiled
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/pm/src"
cp "$here/main.rs" "$d/pm/src/lib.rs"
echo 'pm::check!(); fn main() {}' >"$d/src/main.rs"
cat >"$d/pm/Cargo.toml" <<T
[package]
name = "pm"
version = "0.1.0"
edition = "2018"
[lib]
proc-macro = true
[dependencies]
json_parse = { path = "$repo/json_derive/parse" }
json_quote = { path = "$repo/json_derive/quote" }
T
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
pm = { path = "pm" }
T
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" RUSTFLAGS="-W pub_use_of_private_extern_crate"
timeout 250 cargo build --quiet --offline
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
def tests():
    if sh("bash /opt/vp/build.sh").returncode: return "does not build"
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    o = json.load(open("/tmp/plant.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    miss = set(b["stable"]) - set(o["passed"])
    return "tests fail: %s" % miss if miss else None
bugs = runpy.run_path(sys.argv[1])["BUGS"]
only = sys.argv[2:]
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
for b in bugs:
    if only and b["id"] not in only: continue
    d = os.path.join(OUT, b["id"]); os.makedirs(d, exist_ok=True)
    why = None; lines = set()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join("/repo", f); t = open(p).read()
            n = b.get("nth", {}).get(old, 0)
            if t.count(old) == 0: why = "text not found: %r" % old; break
            if t.count(old) > 1 and old not in b.get("nth", {}): why = "text found %d times: %r" % (t.count(old), old); break
            i = -1
            for _ in range(n + 1): i = t.index(old, i + 1)
            open(p, "w").write(t[:i] + new + t[i + len(old):])
        if not why:
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            # lines removed must come from the base commit
            cur = None; ln = 0; own = 0; base = 0
            for l in diff.splitlines():
                if l.startswith("--- a/"): cur = l[6:]
                elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    bl = sh("git -C /repo blame -s -l -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout
                    if bl.lstrip("^").startswith(BASE[:30]): base += 1
                    else: own += 1
                    ln += 1
                elif not l.startswith("+"): ln += 1
            if base == 0: why = "changes no line of the base commit (%d of later ones)" % own
            elif own: print(b["id"], "note: also changes", own, "lines of later commits")
        if not why:
            open(os.path.join(d, "main.rs"), "w").write(b["main"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_PM if b.get("pm") else DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            why = tests()
        if not why:
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode == 0: why = "demo passes with the change"
            else: tail = (r.stderr.strip().splitlines() or ["?"])
    finally:
        sh("git -C /repo checkout -- .")
    if not why:
        r2 = sh("bash %s/demo.sh" % d, cwd="/repo")
        if r2.returncode: why = "demo fails without the change: " + r2.stderr[-600:]
    if why:
        print("DROP", b["id"], why); sh("rm -rf %s" % d)
    else:
        print("ok  ", b["id"], "|", [l for l in tail if "panicked" not in l and "RUST_BACKTRACE" not in l][:2])
    sys.stdout.flush()
