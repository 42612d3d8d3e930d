#!/usr/bin/env python3
"""mutate.py WORKDIR OUT FILE[:LO-HI]... [--part K/N] [--sample N] : mutation testing of the checks.

Works on copies of /repo and /verif below WORKDIR. Small edits are made to the
non-test lines of each file; of those that compile and pass the stable tests,
the checks of that file are run at a fifth of their size. OUT gets one line per
mutant: "caught C05", "SURVIVED", with the edit."""
import json, os, random, re, shutil, subprocess, sys
args = sys.argv[1:]
work, out = args[0], args[1]
files, part, sample = [], (0, 1), None
i = 2
while i < len(args):
    if args[i] == "--part":
        a, b = args[i + 1].split("/"); part = (int(a), int(b)); i += 2
    elif args[i] == "--sample":
        sample = int(args[i + 1]); i += 2
    else:
        files.append(args[i]); i += 1
R, V = work + "/repo", work + "/verif"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTFLAGS="-W pub_use_of_private_extern_crate")
ENV["PATH"] += ":/root/.cargo/bin:/usr/local/cargo/bin"
LIB = "C05 C02 C01 C10 C11 C12 C13 C14 C15 C16 C17 C08 C09 C19 C26 C07 C06 C04 C18 C03 C28 C31 C32"
ORDER = {"src/lib.rs": LIB, "json_derive/src/lib.rs": "C20 C21 C22", "json_derive/quote": "C25 C29 C20 C21", "json_derive/parse": "C23 C24 C27 C30 C20 C22"}

def sh(cmd, cwd, env=ENV, t=600):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, ""

def setup():
    if not os.path.exists(R):
        os.makedirs(work, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", R])
        os.makedirs(V)
        for x in "check setup harness pm qt pbt known_findings.txt".split():
            if os.path.exists("/verif/" + x):
                subprocess.check_call(["cp", "-a", "/verif/" + x, V + "/" + x])
        subprocess.check_call("sed -i 's#\"/repo#\"%s#' harness/Cargo.toml pm/Cargo.toml qt/Cargo.toml; sed -i 's#cd /repo#cd %s#' check" % (R, R), shell=True, cwd=V)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=R)

SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
         (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" \+= ", " -= "), (r" -= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\.is_empty\(\)", ".is_empty() == false"), (r"\bif (?!let)(.+) \{$", r"if !(\1) {"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"push_back", "push_front"), (r"push_front", "push_back"),
         (r"pop_back", "pop_front"), (r"pop_front", "pop_back"), (r"\.back\(", ".front("), (r"\.front\(", ".back("), (r"\.first\(", ".last("), (r"\.last\(", ".first("), (r"\.any\(", ".all("), (r"\.all\(", ".any("),
         (r"\.is_some\(", ".is_none("), (r"\.is_none\(", ".is_some("), (r"\bif (?!let)(.+) \{$", "if false {"), (r"\bif (?!let)(.+) \{$", "if true {"), (r" if (.+) =>", " =>"), (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().take(1)"), (r"\.iter\(\)", ".iter().skip(1)"),
         (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\bOk\(None\)", "Err(())"), (r"\bSome\((.+)\)$", "None"), (r"^(\s*)([^/\s][^=]*;)$", r"\1"), (r"^(\s*)(\S.* => .*,)$", r"\1"), (r"\.trim\(\)", ""), (r"\.clone\(\)\)", ".clone().clone())"),
         (r"(\w+Error|MissingKey|IndexOutOfRange|InvalidValueKind)\b", "ParseNullError"), (r"\?;$", ".ok();"), (r"\.\.=", ".."), (r"\.filter\(", ".skip_while("), (r"\.take\(", ".skip("), (r"\.min\(", ".max("), (r"\.max\(", ".min(")]

def mutants(f):
    lo, hi = 0, 10 ** 9
    if ":" in f:
        f, r = f.split(":"); lo, hi = map(int, r.split("-"))
    lines = open(R + "/" + f).read().split("\n")
    end = next((i for i, l in enumerate(lines) if l.startswith("#[cfg(test)]")), len(lines))
    res, seen = [], set()
    for i, l in enumerate(lines[:end]):
        if not lo <= i + 1 <= hi or l.count("b'") > 4 or l.strip().startswith(("//", "use ", "#[", "#!", "mod ", "pub mod", "extern")):
            continue
        def add(new):
            if new != l and (i, new) not in seen:
                seen.add((i, new)); res.append((f, i, l, new))
        for a, b in SWAPS:
            for m in re.finditer(a, l):
                add(l[:m.start()] + m.expand(b) + l[m.end():])
        for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w.'\"])", l):
            n = int(m.group(1))
            add(l[:m.start()] + str(n + 1) + l[m.end():])
            if n: add(l[:m.start()] + str(n - 1) + l[m.end():])
        for m in re.finditer(r"b?'([^'\\])'", l):
            c = m.group(1); d = "z" if c != "z" else "y"
            add(l[:m.start(1)] + d + l[m.end(1):])
        for m in re.finditer(r"0x([0-9a-fA-F]+)", l):
            add(l[:m.start()] + hex(int(m.group(1), 16) + 1) + l[m.end():])
    return res

setup()
base = None
def passed():
    rc, o = sh("cargo test -p json -p json_derive -p json_quote -p json_parse --no-fail-fast --offline -- --test-threads 4", R, dict(ENV, CARGO_TARGET_DIR=R + "/target"), 120)
    return len(re.findall(r"^test .* \.\.\. ok$", o, re.M)), "error: could not compile" in o or "error[E" in o
base = passed()[0]
print("baseline", base, flush=True)
todo = []
for f in files:
    todo += mutants(f)
random.Random(7).shuffle(todo)
todo = todo[part[0]::part[1]]
if os.environ.get("KEYS"):
    ks = set(json.loads(l)["key"] for l in open(os.environ["KEYS"]))
    todo = [t for t in todo if "%s:%d:%s" % (t[0], t[1] + 1, t[3]) in ks]
if os.environ.get("SKIP"):
    ks = set(json.loads(l)["key"] for f in os.environ["SKIP"].split() for l in open(f))
    todo = [t for t in todo if "%s:%d:%s" % (t[0], t[1] + 1, t[3]) not in ks]
if sample: todo = todo[:sample]
done = set()
if os.path.exists(out):
    for l in open(out):
        done.add(json.loads(l)["key"])
print(len(todo), "mutants", flush=True)
for f, i, old, new in todo:
    key = "%s:%d:%s" % (f, i + 1, new)
    if key in done: continue
    p = R + "/" + f
    text = open(p).read().split("\n")
    assert text[i] == old
    t2 = list(text); t2[i] = new
    open(p, "w").write("\n".join(t2))
    verdict = None
    try:
        n, bad = passed()
        if n < base:
            verdict = "invalid" if bad else "tests"
        else:
            checks = next(v for k, v in ORDER.items() if f.startswith(k)).split()
            env = dict(ENV, VERIF_SCALE=os.environ.get("SCALE", "0.2"), VERIF_SEED="1", VERIF_TIER="quick"); env.pop("RUSTFLAGS"); env.pop("CARGO_INCREMENTAL"); env.pop("CARGO_PROFILE_DEV_DEBUG")
            odd = []
            for c in checks:
                rc, o = sh("prlimit --as=20000000000 ./check " + c, V, env, 600)
                if rc == 1 and "VIOLATION property=" + c in o:
                    verdict = "caught " + c; break
                if rc != 0: odd.append("%s rc=%d %s" % (c, rc, o[-300:]))
                if rc == 2 and "does not build" in o: break
            else:
                pass
            verdict = verdict or "SURVIVED"
            if odd: verdict += " ODD " + " | ".join(odd)
    finally:
        open(p, "w").write("\n".join(text))
    with open(out, "a") as o:
        o.write(json.dumps(dict(key=key, verdict=verdict, old=old.strip(), new=new.strip())) + "\n")
