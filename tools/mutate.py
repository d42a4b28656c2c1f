#!/usr/bin/env python3
"""Mutants of /repo in private mount namespaces (development aid, no check uses it):
mutate.py WORKERS COUNT SEED [file-substring...]. A mutant that builds and passes the stable tests goes to the checks of its file.
Survivors are written to /tmp/mut/survivors.txt."""
import json, os, random, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import threading

CHECKS = [("search/src/agenda", "C01 C02"), ("search/src", "C02 C15"), ("unique-heap", "C03 C02"), ("vecmultimap", "C04"),
          ("util/partition", "C05"), ("util/tree", "C06 C11"), ("dyck/mod", "C07"), ("util/parsing", "C08 C18 C10 C09"),
          ("cfg/from_pmcfg", "C16"), ("pmcfg/from_str", "C08 C10"), ("cfg/from_str", "C08 C10"), ("grammars/cfg/mod", "C09 C16 C08 C31"),
          ("pmcfg/mod", "C11 C12 C09 C13 C31"), ("negra", "C13 C12"), ("lcfrs/mod", "C14 C09 C15"), ("lcfrs/conversion", "C15"),
          ("lcfrs/from_str", "C08 C10"), ("grammars/mcfg/mod", "C14"), ("from_discodop", "C17"), ("from_rparse", "C17"),
          ("equivalence", "C18"), ("configuration", "C19"), ("reverse", "C19"), ("factorizable", "C19")]
FULL = []
try:
    FULL = [tuple(x) for x in json.load(open(os.environ.get("MUT_TABLE", "/verif/tools/mutate_full.json")))]
except OSError:
    pass
SKIP = ["tests", "examples", "coarse_to_fine.rs.x", "int_automaton"] + ([] if FULL else ["src/bin", "csparsing"])
VERIF = os.environ.get("MUT_VERIF", "/verif")
RULES = [(r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
         (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bis_none\(\)", "is_some()"), (r"\bis_some\(\)", "is_none()"),
         (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.rev\(\)", ""), (r"(?<!\.)\b0\b", "1"), (r"(?<!\.)\b1\b", "0"), (r"(?<!\.)\b1\b", "2"),
         (r"Some\(([a-z_]\w*)\)$", "None"), (r"(?<!\w)!([a-z(])", r"\1"), (r"\.unwrap_or\(([^()]*)\)", ".unwrap()"), (r"\.insert\(", ".remove(&"), (r"\.filter_map\(", ".map("), (r"\.cloned\(\)\.collect", ".cloned().skip(1).collect"), (r"\bif (?!let)([^{]+) \{", r"if true || (\1) {"), (r"\bif (?!let)([^{]+) \{", r"if false \&\& (\1) {"), (r"\bopt!\(complete!\(", "map!(complete!("), (r"\.skip\(1\)", ""), (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\+=", "="), (r"push_front", "push_back"), (r"push_back", "push_front"),
         (r"pop_front", "pop_back"), (r"pop_back", "pop_front"), (r"\.is_empty\(\)", ".len() > 1"), (r"is_space", "is_alphanumeric"), (r"take_while1!", "take_while!"), (r"separated_nonempty_list", "separated_list"),
         (r"Ordering::Less", "Ordering::Greater"), (r"Ordering::Greater", "Ordering::Less"), (r"\bself\.(\w+)\.cmp\(&other\.\1\)", r"other.\1.cmp(&self.\1)"), (r"\.len\(\)", ".len().saturating_sub(1)"),
         (r" \* ", " + "), (r" / ", " * "), (r" - ", " + "), (r"(?<!Ord)(?<!Hash)(?<!Eq)(?<!Clone) \+ (?![A-Z])", " - "), (r"\.union\(", ".intersection("), (r"\.contains\(", ".is_empty() || !x.contains("), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;")]
DELETE = re.compile(r"^\s*[\w.*&\[\]()]+(\.|\()[^{}]*;\s*$")

def body(path):
    lines = open(path, encoding="utf8").read().split("\n")
    for i, l in enumerate(lines):
        if "#[cfg(test)]" in l:
            return lines, i
    return lines, len(lines)

def mutants(root, picks):
    out = []
    for base in ("src", "search/src", "unique-heap/src", "vecmultimap/src"):
        for d, _, fs in os.walk(f"{root}/{base}"):
            for f in fs:
                p = os.path.relpath(f"{d}/{f}", root)
                if not f.endswith(".rs") or any(s in p for s in SKIP):
                    continue
                table = CHECKS if not picks or picks[0] != "--full" else FULL
                cs = next((c for s, c in table if s in p), None)
                if cs is None or (picks and not any(x in p for x in picks if x != "--full") and [x for x in picks if x != "--full"]):
                    continue
                lines, n = body(f"{root}/{p}")
                for i in range(n):
                    l = lines[i]
                    if l.strip().startswith(("//", "use ", "#", "pub use", "mod ", "pub mod")) or not l.strip():
                        continue
                    code = l.split("//")[0]
                    for a, b in RULES:
                        for m in re.finditer(a, code):
                            new = l[:m.start()] + m.expand(b) + l[m.end():]
                            if new != l:
                                out.append((p, i, l, new, cs))
                    if DELETE.match(l) and "let " not in l:
                        out.append((p, i, l, "", cs))
    return out

def inner(k):
    """runs in the namespace; reads one mutant (JSON) per line from stdin"""
    W = f"/tmp/mut/w{k}"
    for a, b in ((f"{W}/repo", "/repo"), (f"{W}/verif", "/verif"), (f"{W}/vp", "/opt/vp")):
        subprocess.run(["mount", "--bind", a, b], check=True)
    for line in sys.stdin:
        p, i, old, new, cs = json.loads(line)
        src = f"/repo/{p}"
        orig = open(src, encoding="utf8").read()
        ls = orig.split("\n")
        assert ls[i] == old
        ls[i] = new
        open(src, "w", encoding="utf8").write("\n".join(ls))
        res = run(cs)
        open(src, "w", encoding="utf8").write(orig)
        print(json.dumps([res, p, i + 1, old.strip(), new.strip()]), flush=True)

def sh(c, t):
    try:
        return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        subprocess.run("pkill -9 -f /opt/vp/partial/ || true", shell=True)
        return None

def run(cs):
    if FULLRUN:
        r = sh("cd /verif/harness/cli && RUSTUP_TOOLCHAIN=nightly-2026-08-21 CARGO_INCREMENTAL=0 RUSTFLAGS='--cfg rustomata_verif -Awarnings' CARGO_TARGET_DIR=/verif/work/target-full cargo build --offline --locked -q", 300)
        if r is None or r.returncode:
            return "nobuild"
    else:
        r = sh("bash /opt/vp/build.sh", 300)
        if r is None or r.returncode:
            return "nobuild"
        r = sh("timeout 120 bash /opt/vp/test.sh /tmp/mut/t%d.json" % os.getpid(), 150)
        try:
            o = json.load(open("/tmp/mut/t%d.json" % os.getpid()))
            if o["failed"] or len(o["passed"]) < 79:
                return "tests"
        except Exception:
            return "tests"
    for c in cs.split():
        if not os.path.exists(f"/verif/props/{c.lower()}.py"):
            continue
        r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {c}", 900)
        if r is None:
            return f"timeout {c}"
        if r.returncode == 1:
            return f"caught {c}"
        if r.returncode != 0:
            return f"toolerror {c}"
    return "SURVIVED"

FULLRUN = os.environ.get("MUT_FULL") == "1"
if __name__ == "__main__":
    if sys.argv[1] == "--inner":
        inner(int(sys.argv[2]))
        sys.exit()
    nw, count, seed, picks = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    ms = mutants("/repo", picks)
    print(len(ms), "mutants in all", flush=True)
    rng = random.Random(seed)
    rng.shuffle(ms)
    seen, take = {}, []
    for m in ms:       # at most two per line
        if seen.get((m[0], m[1]), 0) < 2 and len(take) < count:
            seen[(m[0], m[1])] = seen.get((m[0], m[1]), 0) + 1
            take.append(m)
    lock = threading.Lock()
    def worker(k):
        W = f"/tmp/mut/w{k}"
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        subprocess.run(["cp", "-a", "/repo", f"{W}/repo"], check=True)
        subprocess.run(["cp", "-a", "/opt/vp", f"{W}/vp"], check=True)
        os.makedirs(f"{W}/verif/work")
        subprocess.run(f"cd {VERIF} && tar cf - --exclude=./work --exclude=./.git . | tar xf - -C {W}/verif", shell=True, check=True)
        for t in ("target-core", "target-full"):
            if os.path.isdir(f"{VERIF}/work/{t}"):
                subprocess.run(["cp", "-a", f"{VERIF}/work/{t}", f"{W}/verif/work/"], check=True)
        p = subprocess.Popen(["unshare", "-m", "python3", f"{W}/verif/tools/mutate.py", "--inner", str(k)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        while True:
            with lock:
                if not take:
                    break
                m = take.pop()
            p.stdin.write(json.dumps(m) + "\n")
            p.stdin.flush()
            r = p.stdout.readline()
            with lock:
                with open("/tmp/mut/results.txt", "a") as f:
                    f.write(r)
        p.stdin.close()
        p.wait()
        shutil.rmtree(W, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(worker, range(nw)))
