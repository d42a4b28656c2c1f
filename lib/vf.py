"""Shared machinery of the checks: build the harness from /repo, run it on cases, let TLC judge the recorded traces."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WORK = os.path.join(VERIF, "work")
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# --------------------------------------------------------------------------------------------- builds
def cargo_env(target):
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="nightly-2026-08-21", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTFLAGS="--cfg rustomata_verif -Awarnings")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


# The part of /repo that builds without the unreachable crate `integeriser`, laid out as symlinks into /repo
# (the same cut as the project's own build here; nothing is copied, nothing stands in for what is left out).
LEFT_OUT = {
    "approximation/mod.rs": "pub mod equivalence_classes;\n",
    "automata/mod.rs": "",
    "dyck/multiple/mod.rs": "",
    "grammars/lcfrs/csparsing/mod.rs": "",
    "recognisable/mod.rs": "pub mod configuration;\n",
    "util/integerisable.rs": "",
    "util/push_down.rs": "",
}


def core_mirror():
    out = os.path.join(WORK, "core-mirror")
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    manifest = open(f"{REPO}/Cargo.toml").read()
    manifest = re.sub(r"(?m)^integeriser\b.*\n", "", manifest)
    manifest = re.sub(r"(?m)^\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*", "", manifest)
    for entry in sorted(os.listdir(REPO)):
        if os.path.isdir(f"{REPO}/{entry}") and entry not in (".git", "src", "target", "tests", "benches"):
            os.symlink(f"{REPO}/{entry}", f"{out}/{entry}")
    for base, dirs, names in os.walk(f"{REPO}/src"):
        rel = os.path.relpath(base, f"{REPO}/src")
        if rel == "." and "bin" in dirs:
            dirs.remove("bin")
        for n in names:
            r = os.path.normpath(os.path.join(rel, n))
            dst = f"{out}/src/{r}"
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if r in LEFT_OUT:
                open(dst, "w").write(LEFT_OUT[r])
            elif r == "lib.rs":
                open(dst, "w").write(re.sub(r"(?m)^extern crate integeriser;$", "", open(f"{base}/{n}").read()))
            else:
                os.symlink(f"{base}/{n}", dst)
    open(f"{out}/Cargo.toml", "w").write(manifest)
    return out


def build(which):
    """which: 'core', 'full' or 'cli'. Returns the path of the freshly built harness binary."""
    os.makedirs(WORK, exist_ok=True)
    share = "full" if which == "cli" else which
    with open(os.path.join(WORK, f"lock-{share}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if which == "core":
            core_mirror()
        target = os.path.join(WORK, f"target-{share}")
        t = time.time()
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet"],
                           cwd=f"{VERIF}/harness/{which}", env=cargo_env(target), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log(p.stdout[-6000:])
            raise ToolError(f"the {which} harness does not build against /repo")
        log(f"[build] {which} harness from /repo in {time.time() - t:.1f}s")
        src = f"{target}/debug/harness-{which}"
        # a private copy, so that a concurrent check cannot replace the binary under us
        dst = os.path.join(WORK, f"bin-{which}-{os.getpid()}")
        shutil.copy2(src, dst)
        if which == "cli":
            shutil.copy2(f"{target}/debug/rustomata", dst + ".rustomata")
        return dst


# --------------------------------------------------------------------------------------------- harness
def run_harness(binary, sub, cases, case_timeout=20, mem_mb=3000):
    """Runs every case; returns {id: record}. Hangs, aborts and stack overflows become events ("hang" / "crash")."""
    todo, res = list(cases), {}
    while todo:
        data = "".join(json.dumps(c, ensure_ascii=True) + "\n" for c in todo)
        env = dict(os.environ, HARNESS_CASE_TIMEOUT=str(case_timeout), RUST_BACKTRACE="0")
        p = subprocess.Popen(["bash", "-c", f"ulimit -v {mem_mb * 1024}; ulimit -c 0; exec \"$0\" \"$1\"", binary, sub],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        out, _ = p.communicate(data.encode())
        n = 0
        for line in out.decode("utf-8", "replace").split("\n"):
            if not line:
                continue
            try:
                r = json.loads(line)
            except ValueError:
                continue
            res[r["id"]] = r
            n += 1
        rest = [c for c in todo if c["id"] not in res]
        if not rest:
            break
        if p.returncode == 0:
            raise ToolError(f"harness {sub} answered {n} of {len(todo)} cases")
        # the first unanswered case brought the process down
        bad = rest[0]
        kind = "hang" if p.returncode == 77 else "crash"
        if p.returncode == 64:
            raise ToolError(f"harness: unusable case for {sub}: {json.dumps(bad)[:400]}")
        r = dict(bad)
        r["ev"] = [{"op": kind}]
        res[bad["id"]] = r
        todo = rest[1:]
    return res


# --------------------------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def prints(self, tag):
        """Lines printed by PrintT(<<"tag", ...>>) as lists of raw fields."""
        r = []
        for line in self.out.split("\n"):
            if line.startswith(f'<<"{tag}"'):
                r.append(line.strip())
        return r


def tlc(module, cfg=None, env=None, workers=8, timeout=800, heap="6g", extra=(), specdir=SPECS, dfs=False):
    os.makedirs(WORK, exist_ok=True)
    meta = os.path.join(WORK, f"tlc-{module}-{os.getpid()}-{time.time_ns()}")
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-metadir", meta,
           "-workers", str(workers), "-config", cfg or f"{module}.cfg", "-noGenerateSpecTE", *extra, f"{module}.tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=specdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, errors="replace")
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout or b"").decode("utf-8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(rc, out, time.time() - t)


class Check:
    """One property's check: collects model-checking and conformance results and writes the evidence."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.level = level
        self.thorough = self.tier == "thorough"
        h = hashlib.sha256(f"{prop}/{self.seed}".encode()).digest()
        self.rng = random.Random(int.from_bytes(h[:8], "big"))
        self.t0 = time.time()
        self.mc_states = self.mc_transitions = 0
        self.val_states = self.val_transitions = 0
        self.mc_runs, self.suites = [], []
        self.validated = 0
        self.samples, self.violations, self.known = [], [], []
        self.assumptions = []
        self.dir = os.path.join(WORK, prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.findings = load_findings(prop)
        self._bins = {}
        self.nontrivial = {}

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def bin(self, which):
        if which not in self._bins:
            self._bins[which] = build(which)
        return self._bins[which]

    # -- (1) the specification by itself
    def model_check(self, module, cfg=None, env=None, min_states=2, **kw):
        r = tlc(module, cfg, env, **kw)
        if r.rc != 0:
            log(r.out[-5000:])
            raise ToolError(f"TLC rejects the specification {module} (exit {r.rc})")
        if r.distinct < min_states:
            raise ToolError(f"vacuous: {module} has only {r.distinct} states")
        self.mc_states += r.distinct
        self.mc_transitions += r.generated
        self.mc_runs.append(dict(module=module, cfg=cfg or module + ".cfg", distinct=r.distinct, generated=r.generated,
                                 wall_s=round(r.wall, 1)))
        log(f"[model] {module}/{cfg or module + '.cfg'}: {r.distinct} distinct states, {r.generated} transitions, {r.wall:.1f}s")
        return r

    # -- (2) scripts that TLC writes (spec -> code)
    def generate(self, module, cfg=None, env=None, **kw):
        out = os.path.join(self.dir, f"{module}-{len(self.suites)}-{time.time_ns()}.gen.ndjson")
        e = dict(env or {}, GEN_FILE=out)
        r = tlc(module, cfg, e, **kw)
        if r.rc != 0 or not os.path.exists(out):
            log(r.out[-5000:])
            raise ToolError(f"TLC could not generate cases from {module} (exit {r.rc})")
        cases = [json.loads(x) for x in open(out) if x.strip()]
        if not cases:
            raise ToolError(f"{module} generated no cases")
        self.mc_states += r.distinct
        self.mc_transitions += r.generated
        log(f"[gen] {module}: {len(cases)} cases from the specification, {r.wall:.1f}s")
        return cases

    # -- (3) execute on the real code, let the specification judge what was observed
    def conform(self, suite, which, sub, trace_module, cases, cfg=None, describe=None, batch=4000, case_timeout=20,
                nontrivial=None, timeout=800, env=None, workers=8, shrink=None, heap="6g", post=None):
        for i, c in enumerate(cases):
            c["id"] = i + 1
        recs = run_harness(self.bin(which), sub, cases, case_timeout)
        order = [recs[c["id"]] for c in cases]
        if post:
            order = [post(r) for r in order]
        nbad = 0
        for lo in range(0, len(order), batch):
            nbad += self._validate(suite, trace_module, order[lo:lo + batch], cfg, describe, timeout, env, workers, heap)
        self.validated += len(order)
        nt = sum(1 for r in order if nontrivial(r)) if nontrivial else len(order)
        if nontrivial and nt == 0:
            raise ToolError(f"vacuous suite {suite}: no nontrivial case")
        evs = sum(len(r.get("ev", [])) for r in order)
        self.suites.append(dict(suite=suite, cases=len(order), events=evs, nontrivial=nt, rejected=nbad, trace_spec=trace_module))
        log(f"[conform] {suite}: {len(order)} cases, {evs} events, {nbad} rejected by {trace_module}")
        for r in order[:1] + order[len(order) // 2:len(order) // 2 + 1]:
            self.samples.append(trunc(r))
        return order

    def _validate(self, suite, module, recs, cfg, describe, timeout, env, workers, heap):
        todo, nbad = list(recs), 0
        for attempt in range(40):
            if not todo:
                break
            path = os.path.join(self.dir, f"trace-{suite}-{time.time_ns()}.ndjson")
            with open(path, "w") as f:
                for r in todo:
                    f.write(json.dumps(r, ensure_ascii=True) + "\n")
            e = dict(env or {}, TRACE_FILE=path)
            r = tlc(module, cfg, e, timeout=timeout, workers=workers, heap=heap)
            self.val_states += r.distinct
            self.val_transitions += r.generated
            acc = {int(m) for m in re.findall(r'<<"ACCEPT", (\d+)', r.out)}
            rej = {}
            for m in re.finditer(r'<<"REJECT", (\d+), (\d+)', r.out):
                rej.setdefault(int(m.group(1)), []).append(int(m.group(2)))
            if r.rc == 0:
                for i, rec in enumerate(todo, 1):
                    if i in acc:
                        continue
                    if i not in rej:
                        log(r.out[-3000:])
                        raise ToolError(f"{module} neither accepted nor rejected case {rec['id']} of {suite}")
                    nbad += 1
                    self._violation(suite, module, rec, max(rej[i]), describe)
                os.remove(path)
                return nbad
            # TLC could not evaluate an observation: it lies outside the domain of the specification
            m = re.findall(r"(?m)^/\\ c = (\d+)", r.out)
            l = re.findall(r"(?m)^/\\ l = (\d+)", r.out)
            known_eval = "evaluat" in r.out or "Evaluat" in r.out or "Attempted" in r.out
            if r.rc in (124, 137) or not m or not known_eval:
                log(r.out[-5000:])
                raise ToolError(f"TLC failed on {module} (exit {r.rc})")
            i = int(m[-1])
            log("[eval] " + " ".join(r.out[-2500:].split()))
            nbad += 1
            self._violation(suite, module, todo[i - 1], int(l[-1]) if l else 1, describe,
                            "the observation lies outside the domain of the specification")
            # keep what was already accepted, judge the rest again
            todo = [x for k, x in enumerate(todo, 1) if k != i and k not in acc]
            os.remove(path)
            if nbad >= 8:
                break
        return nbad

    def _violation(self, suite, module, rec, at, describe=None, why=None):
        sig = signature(self.prop, suite, rec)
        for k in self.findings:
            if k["match"](suite, rec, at):
                if k not in self.known:
                    self.known.append(k)
                return
        n = len(self.violations) + 1
        path = os.path.join(WORK, self.prop, f"violation-{n}.json")
        ev = rec.get("ev", [])
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, suite=suite, trace_spec=module, rejected_event=at,
                           event=ev[at - 1] if 0 < at <= len(ev) else None, why=why, case=rec, signature=sig), f, indent=1)
        self.violations.append(path)
        if n <= 20:
            log(f"[reject] {suite} case {rec.get('id')} event {at}: "
                + json.dumps(ev[at - 1] if 0 < at <= len(ev) else None)[:600] + (f" ({why})" if why else ""))
            if describe:
                log("         " + str(describe(rec))[:600])

    def finish(self):
        cov = dict(states=self.mc_states + self.val_states, transitions=self.mc_transitions + self.val_transitions,
                   traces_validated_against_impl=self.validated,
                   model_states=self.mc_states, validation_states=self.val_states,
                   model_runs=self.mc_runs, suites=self.suites, samples=self.samples[:6] or ["none"])
        if self.known:
            cov["known_findings_reproduced"] = [k["id"] for k in self.known]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            log(f"KNOWN-FINDING: property={self.prop} {k['text']}")
        for b in self._bins.values():
            for x in (b, b + ".rustomata"):
                if os.path.exists(x):
                    os.remove(x)
        if self.violations:
            log(f"VIOLATION property={self.prop} replay={self.violations[0]}")
            return 1
        log(f"OK property={self.prop} ({time.time() - self.t0:.1f}s)")
        return 0


def trunc(r, n=1500):
    s = json.dumps(r)
    return r if len(s) <= n else s[:n] + " ..."


def signature(prop, suite, rec):
    r = {k: v for k, v in rec.items() if k not in ("id",)}
    return hashlib.sha256(json.dumps([prop, suite, r], sort_keys=True).encode()).hexdigest()[:16]


def load_findings(prop):
    """known_findings.jsonl: {"property","id","suite","case":{...},"text"}: the case's input fields must match exactly."""
    res, path = [], f"{VERIF}/known_findings.jsonl"
    if not os.path.exists(path):
        return res
    for line in open(path):
        line = line.strip()
        if not line or line.startswith("fixed:"):
            continue
        k = json.loads(line)
        if k["property"] != prop:
            continue

        def match(suite, rec, at, k=k):
            return (k.get("suite") in (None, suite)
                    and all(rec.get(f) == v for f, v in k["case"].items()))
        k["match"] = match
        res.append(k)
    return res
