#!/usr/bin/env python3
"""Mutation sweep (development aid, not a registered check).
usage: mutants.py OUTDIR WORKERS [FILE_SUBSTRING] [MAX]
Copies /repo and /verif/sim per worker under OUTDIR, applies one small source change at a time, keeps those that
compile and pass the repository's tests, and runs the related checks on them with a reduced number of runs.
Appends one JSON line per mutant to OUTDIR/results.jsonl."""
import json, os, re, subprocess, sys, random, shutil, threading, queue
out, workers = sys.argv[1], int(sys.argv[2])
want = sys.argv[3] if len(sys.argv) > 3 else ""
mx = int(sys.argv[4]) if len(sys.argv) > 4 else 10**9
RUNS = os.environ.get("MUT_RUNS", "2500")
GROUPS = {
    "src/io.rs": "C01 C02 C03 C04 C05 C06 C24",
    "src/editgraph.rs": "C07 C09 C10 C11 C12",
    "src/editdigraph.rs": "C08 C12 C09 C10",
    "src/graph.rs": "C26 C07 C08 C09 C10 C12 C13 C17 C20",
    "src/compare.rs": "C26",
    "src/operations.rs": "C11",
    "src/iterators.rs": "C12 C07 C08 C21 C01",
    "src/ordgraph.rs": "C13 C17 C12 C16 C18",
    "src/degengraph.rs": "C13 C12 C23 C18",
    "src/reachgraph.rs": "C17 C13 C12",
    "src/dtfgraph.rs": "C21 C22 C12",
    "src/algorithms/graph.rs": "C14 C15 C16",
    "src/algorithms/lineargraph.rs": "C17 C18 C19 C20 C23",
    "src/datastructures/sreach_trace_oracle.rs": "C23",
}
REPL = [
    (r"(?<![<\-=])<=(?!=)", "<"), (r"(?<=\s)<(?=\s)", "<="), (r"(?<=\s)>=(?=\s)", ">"), (r"(?<=\s)>(?=\s)", ">="),
    (r"(?<=\s)<(?=\s)", ">"), (r"(?<=\s)>(?=\s)", "<"),
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|(?! )", "&&"), (r" \|\| ", " && "),
    (r"\+\s*1\b", "+0"), (r"-\s*1\b", "-0"), (r"(?<=\s)\+(?=\s)", "-"), (r"\+=", "-="), (r"-=", "+="), (r"\+= 1", "+= 2"),
    (r"if !", "if "), (r"\bif (?!let|!)", "if !"), (r"\bcontinue\b", "{}"), (r"\bbreak\b", "{}"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "3"),
    (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\.\.=", ".."), (r"(?<![.=])\.\.(?![=.])", "..="),
    (r"left", "right"), (r"right", "left"), (r"in_neigh", "out_neigh"), (r"out_neigh", "in_neigh"), (r"\bin_deg", "out_deg"), (r"\bout_deg", "in_deg"),
    (r"\(u, ?v\)", "(v,u)"), (r"\(&?\*?u, ?&?\*?v\)", None), (r"\bSome\(", None),
    (r"\.rev\(\)", ""), (r"contains\(", None), (r"\.union\(", ".intersection("), (r"\.intersection\(", ".union("), (r"\.difference\(", ".intersection("),
    (r"\.insert\(", ".remove_("), (r"\.push\(", None), (r"skip\(1\)", "skip(0)"), (r"\.is_empty\(\)", None),
    (r"sort_by_key\(\|u\| -\(", None), (r"\.or_insert\((\w+)\)", None), (r"\?;", ".ok();"),
    (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bu\b", "v"), (r"\bv\b", "u"),
]
def code_lines(path):
    txt = open(path).read().split("\n")
    res = []
    for i, l in enumerate(txt):
        if l.strip().startswith("#[cfg(test)]"):
            break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("fn ") or s.startswith("pub fn") or s.startswith("impl") or s.startswith("assert") or s.startswith("debug_assert") or "panic!" in s or s.startswith("pub struct"):
            continue
        res.append(i)
    return txt, res
def mutants():
    rng = random.Random(int(os.environ.get("MUT_SEED", "5")))
    for f in GROUPS:
        if want and want not in f:
            continue
        txt, idx = code_lines("/repo/" + f)
        for i in idx:
            l = txt[i]
            code = l.split("//")[0]
            opts = set()
            for pat, rep in REPL:
                if rep is None or rep == ".remove_(":
                    continue
                for m in re.finditer(pat, code):
                    opts.add(code[:m.start()] + rep + code[m.end():])
            s = code.strip()
            if s.endswith(";") and not s.startswith("let") and not s.startswith("return") and s.count("(") == s.count(")"):
                opts.add("/* removed */")
            if s.startswith("if ") and s.endswith("{") and "let" not in s:
                opts.add(code.replace(s[3:-1], " true ", 1))
                opts.add(code.replace(s[3:-1], " false ", 1))
            opts.discard(code)
            for o in opts:
                yield (f, i, l, o)
q = queue.Queue()
al = list(mutants())
random.Random(3).shuffle(al)
os.makedirs(out, exist_ok=True)
done = set()
rp = out + "/results.jsonl"
if os.path.exists(rp):
    for l in open(rp):
        d = json.loads(l)
        done.add((d["file"], d["line"], d["new"]))
al = [m for m in al if (m[0], m[1], m[3]) not in done][:mx]
print(len(al), "mutants")
for m in al:
    q.put(m)
lock = threading.Lock()
def worker(k):
    d = f"{out}/w{k}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
        os.makedirs(d + "/sim")
        subprocess.check_call(f"cp -a /verif/sim/Cargo.* /verif/sim/src /verif/sim/fxhash {d}/sim/", shell=True)
        subprocess.check_call(f"cp -a /verif/sim/target {d}/sim/", shell=True)
    subprocess.check_call(f"rm -rf {d}/sim/src && cp -a /verif/sim/src {d}/sim/ && rsync -a --delete --exclude target /repo/ {d}/repo/ 2>/dev/null || true", shell=True)
    subprocess.check_call(["sed", "-i", f's#path = "/repo"#path = "{d}/repo"#', d + "/sim/Cargo.toml"])
    env = dict(os.environ, CARGO_NET_OFFLINE="true", SIM_ROOT=d + "/root", SIM_RUNS=RUNS, CARGO_BUILD_JOBS="4",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_DEBUG="line-tables-only", SIM_WORKERS="3")
    os.makedirs(d + "/root", exist_ok=True)
    while True:
        try:
            f, i, old, new = q.get_nowait()
        except queue.Empty:
            return
        p = f"{d}/repo/{f}"
        orig = open("/repo/" + f).read()
        t = orig.split("\n")
        if t[i] != old:
            continue
        t[i] = new
        open(p, "w").write("\n".join(t))
        r = {"file": f, "line": i, "old": old.strip(), "new": new}
        try:
            b = subprocess.run("ulimit -v 12000000; timeout 120 cargo test --offline -- --test-threads 4 > test.log 2>&1", shell=True, cwd=d + "/repo", env={k: v for k, v in env.items() if k != "SIM_RUNS"})
            log = open(d + "/repo/test.log").read()
            if "error" in log and "could not compile" in log:
                r["res"] = "nocompile"
            elif b.returncode != 0:
                r["res"] = "tests"
            else:
                b = subprocess.run("cargo build --release --offline > build.log 2>&1", shell=True, cwd=d + "/sim", env=env)
                if b.returncode != 0:
                    r["res"] = "simbuild"
                else:
                    r["res"] = "survived"
                    for c in GROUPS[f].split():
                        x = subprocess.run(["nice", "timeout", "300", "target/release/sim", "check", c], cwd=d + "/sim", env=env, capture_output=True, text=True)
                        if x.returncode != 0:
                            r["res"] = "caught"
                            r["by"] = c
                            r["rc"] = x.returncode
                            r["msg"] = x.stdout[:300]
                            break
        finally:
            open(p, "w").write(orig)
        with lock:
            open(rp, "a").write(json.dumps(r) + "\n")
ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]
