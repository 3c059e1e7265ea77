#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of the compiled code and an SMT solver.

  check.py ID [--tier quick|thorough] [--only ENTRY] [--keep]
  check.py --setup            build what does not depend on /repo
  check.py --replay FILE      run a reported counterexample against the real code

Exit 0: held on everything explored.  Exit 1: VIOLATION.  Anything else: no answer.
"""
import concurrent.futures as cf
import json, os, random, re, resource, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"
CPUS = os.cpu_count() or 4
T0 = time.time()
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ)
ENV.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV.pop("RUSTFLAGS", None)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class NoAnswer(Exception):
    pass


def sh(cmd, env=None, timeout=None, cwd=None):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd or V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise NoAnswer(f"{' '.join(cmd)[:300]}\nfailed with {p.returncode}:\n{p.stdout[-6000:]}")
    return p.stdout


# ---------------------------------------------------------------- building

def sysroot_bin(n):
    r = sh(["rustc", "--print", "sysroot"]).strip()
    return os.path.join(r, "lib/rustlib/x86_64-unknown-linux-gnu/bin", n)


def build_engine():
    sh(["cargo", "build", "--release", "--offline", "--target-dir", f"{B}/engine"], cwd=f"{V}/engine")
    return f"{B}/engine/release/vx"


def build_shim():
    """the two replacements for std: with modelled hash containers, and std itself"""
    for d, src in (("shim", "std_shim.rs"), ("real", "std_real.rs")):
        os.makedirs(f"{B}/{d}", exist_ok=True)
        out = f"{B}/{d}/libdandy_verif_std.rlib"
        if not os.path.exists(out) or os.path.getmtime(out) < max(os.path.getmtime(f"{V}/shim/{f}") for f in os.listdir(f"{V}/shim")):
            # cargo does not see that what depends on it has to be built again
            for t in ([f"{B}/ir"] if d == "shim" else []) + [f"{B}/{d}/t"]:
                shutil.rmtree(t, ignore_errors=True)
            sh(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "dandy_verif_std", "-O",
                f"{V}/shim/{src}", "-o", out])


def harness_env(spec, kind):
    d = "real" if kind == "real" else "shim"
    return {
        "VX_PROP": f"{V}/harness/props/{spec['file']}",
        "DANDY_VERIF_HOOKS": f"{V}/harness/hooks/dandy_hooks.rs",
        "DANDY_CLI_HOOKS": f"{V}/harness/hooks/cli_hooks.rs",
        "DANDY_REPO": REPO,
        "RUSTFLAGS": f"--cfg dandy_verif --extern dandy_verif_std={B}/{d}/libdandy_verif_std.rlib -L {B}/{d} -A warnings",
    }


def crate(spec):
    return f"{V}/{spec.get('crate', 'harness')}"


def entries(spec):
    t = open(f"{V}/harness/props/{spec['file']}").read()
    return re.findall(r"\b(vx_\w+)\s*=\s*[a-z]", t)


def build_ir(pid, spec):
    td = f"{B}/ir"
    deps = f"{td}/release/deps"
    for f in os.listdir(deps) if os.path.isdir(deps) else []:
        if f.startswith("vh-x") or f.startswith("vh-x"):
            os.unlink(os.path.join(deps, f))
    feats = ["--features", ",".join(spec["features"])] if spec.get("features") else []
    # the source of the harness is included through an environment variable: make sure that it is rebuilt
    sh(["cargo", "rustc", "--release", "--offline", "--target-dir", td, *feats, "--", "-C", "save-temps", "-C", "linker=true",
        "-C", "extra-filename=-x"], env=harness_env(spec, "shim"), cwd=crate(spec))
    bc = [f for f in os.listdir(deps) if re.match(r"vh-x\..*rcgu\.lto\.after-restriction\.bc$", f)]
    if len(bc) != 1:
        raise NoAnswer(f"expected one module of LLVM IR, found {bc}")
    os.makedirs(f"{B}/run/{pid}", exist_ok=True)
    ll = f"{B}/run/{pid}/code.ll"
    keep = entries(spec)
    bc_path = os.path.join(deps, bc[0])
    if spec.get("crate") == "harness_cli":
        # what the tool prints is given to the harness: the signatures of these functions must stay
        keep += ["vx_print", "vx_eprint"]
        txt = bc_path + ".ll"
        sh([sysroot_bin("llvm-dis"), bc_path, "-o", txt])
        t = open(txt).read()
        names = re.findall(r"^define internal [^\n]*@(_R\w*std2io5stdio(?:6__print|7__eprint))\(", t, re.M)
        keep += names
        open(txt, "w").write(re.sub(r"^define internal ([^\n]*@_R\w*std2io5stdio(?:6__print|7__eprint)\()", r"define \1", t, flags=re.M))
        bc_path = txt
    sh([sysroot_bin("opt"), "--strip-debug", "-internalize-public-api-list=" + ",".join(keep),
        "-passes=internalize,globaldce,default<O1>", "-vectorize-loops=false", "-vectorize-slp=false",
        bc_path, "-S", "-o", ll])
    for f in os.listdir(deps):
        if f.startswith("vh-x"):
            os.unlink(os.path.join(deps, f))
    return ll


def build_native(spec, kind):
    td = f"{B}/{kind}"
    feats = ["--features", ",".join(spec["features"])] if spec.get("features") else []
    sh(["cargo", "rustc", "--offline", "--target-dir", f"{td}/t", *feats, "--", "--cfg", "vx_native"],
       env=harness_env(spec, kind), cwd=crate(spec))
    return f"{td}/t/debug/vh"


# ---------------------------------------------------------------- running

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def native(binary, entry, inputs, tag, timeout=120):
    """[(observed, verdict)] ; a verdict is OK, SKIP, FAIL ..., CRASH ... or HANG"""
    f = f"{B}/run/{tag}.{os.getpid()}.{threading.get_ident()}.in"
    os.makedirs(os.path.dirname(f), exist_ok=True)
    with open(f, "w") as h:
        h.write("".join(",".join(map(str, i)) + "\n" for i in inputs))
    out = []
    try:
        p = subprocess.run([binary, entry, f], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           preexec_fn=limits)
        so, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        so, rc = (e.stdout or b""), None
        so = so.decode() if isinstance(so, bytes) else so
    os.unlink(f)
    for l in so.splitlines():
        if "\t" in l:
            o, v = l.split("\t", 1)
            out.append(([int(x) for x in o.split(",") if x], v))
    if len(out) < len(inputs):
        out.append(([], "HANG" if rc is None else f"CRASH exit status {rc}"))
    return out


LIMIT = "limit reached"


class Check:
    def __init__(self, pid, tier, only, keep):
        self.pid, self.tier, self.only, self.keep = pid, tier, only, keep
        self.spec = CHECKS[pid]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.dir = f"{B}/run/{pid}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.results = []      # (run, slice, json)
        self.undecided = []
        self.violations = []
        self.known = []
        self.problems = []

    def vx(self, ll, run, k, deadline):
        n = run.get("slices", 1)
        out = f"{self.dir}/{run['entry']}.{k}.json"
        left = deadline - time.time()
        if left < 5:
            return run, k, None, f"{LIMIT}: no time left"
        limit = min(left, run.get("time", 700))
        # memory: nodes are about 24 bytes with their table; leave each of the processes its share
        cmd = [self.engine, ll, run["entry"], "--slice", f"{k}/{n}", "--time", f"{limit:.0f}", "--solve", "200",
               "--loop", str(run.get("loop", 4000)), "--nodes", str(run.get("nodes", 60_000_000)),
               "--out", out, "--smt", f"{self.dir}/{run['entry']}.{k}" if self.keep else f"{self.dir}/tmp-{run['entry']}.{k}",
               "--samples", str(max(2, run.get("samples", 48) // n)), "--seed", str(self.seed * 1000 + k)]
        try:
            p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit + 60)
        except subprocess.TimeoutExpired:
            return run, k, None, f"{LIMIT}: time"
        if not self.keep:
            for f in os.listdir(self.dir):
                if f.startswith(f"tmp-{run['entry']}.{k}."):
                    os.unlink(os.path.join(self.dir, f))
        if not os.path.exists(out):
            e = p.stdout.strip()[-600:] or f"engine exit {p.returncode}"
            return run, k, None, (f"{LIMIT}: {e}" if "(inconclusive)" in e or p.returncode < 0 else e)
        return run, k, json.load(open(out)), None

    def run(self):
        builds = cf.ThreadPoolExecutor(4)
        fe = builds.submit(build_engine)
        build_shim()
        fi = builds.submit(build_ir, self.pid, self.spec)
        fn = builds.submit(build_native, self.spec, "shim")
        ll = fi.result()
        self.engine = fe.result()
        log("built the engine and the code under test")
        runs = [r for r in self.spec["runs"] if (r.get("tier", "quick") == "quick" or self.tier == "thorough")
                and not (self.tier == "thorough" and r.get("quick_only")) and (not self.only or r["entry"] in self.only)]
        budget = self.spec.get("budget", {}).get(self.tier, 500 if self.tier == "quick" else 12 * 3600)
        deadline = T0 + budget
        jobs = [(r, k) for r in runs for k in range(r.get("slices", 1))]
        # the longest first
        jobs.sort(key=lambda j: -j[0].get("cost", 1))
        self.native_bin = fn.result() if self.spec.get("native_first") else None
        with cf.ThreadPoolExecutor(CPUS) as ex:
            fs = [ex.submit(self.vx, ll, r, k, deadline) for r, k in jobs]
            for f in cf.as_completed(fs):
                r, k, j, err = f.result()
                if j is None:
                    self.undecided.append((r["entry"], k, err))
                    log(f"{r['entry']} slice {k}/{r.get('slices', 1)}: undecided: {err}")
                else:
                    self.results.append((r, k, j))
                    if j["verdict"] != "holds" or os.environ.get("VX_VERBOSE"):
                        log(f"{r['entry']} slice {k}/{r.get('slices', 1)}: {j['verdict']} in {j['exec_seconds']:.1f}+{j['solver_seconds']:.1f} s")
        log(f"{len(self.results)} of {len(jobs)} symbolic runs decided")
        self.native_bin = fn.result()
        self.validate()
        self.judge()
        return self.finish(runs)

    def validate(self):
        """inputs drawn from the symbolic run behave natively as the symbolic run says"""
        self.validated = 0
        by = {}
        for r, k, j in self.results:
            by.setdefault(r["entry"], []).extend(j["samples"])
        for e, s in by.items():
            if not s:
                continue
            res = native(self.native_bin, e, [x["input"] for x in s], f"{self.pid}/s-{e}")
            for x, (o, v) in zip(s, res):
                if v != "OK" or o != x["observed"]:
                    self.problems.append(f"{e}: sample {x['input']} is observed as {o} {v} natively, {x['observed']} symbolically")
                else:
                    self.validated += 1
        for p in self.problems[:5]:
            log("MISMATCH", p)

    def judge(self):
        seen = set()
        for r, k, j in self.results:
            for o in j["obligations"]:
                if o["verdict"] == "unknown":
                    self.undecided.append((r["entry"], k, f"{LIMIT}: solver: {o['answer']} on {o['name']}"))
                if o["verdict"] != "violated" or (r["entry"], o["name"]) in seen:
                    continue
                rep = None
                for i in [o["input"]] + o.get("more", []):
                    (obs, v) = native(self.native_bin, r["entry"], [i], f"{self.pid}/c-{r['entry']}", timeout=20)[0]
                    if v.startswith(("FAIL", "CRASH", "HANG")):
                        rep = (i, v)
                        break
                if rep is None and o["name"].startswith("loop bound"):
                    # it ends, only later than we look
                    self.undecided.append((r["entry"], k, f"{LIMIT}: {o['name']}"))
                    continue
                if rep is None:
                    self.problems.append(f"{r['entry']}: counterexample {o['input']} to '{o['name']}' does not reproduce natively")
                    continue
                seen.add((r["entry"], o["name"]))
                self.violations.append((r["entry"], o, rep))
        # what is never covered in any slice of a run is vacuous
        cov = {}
        for r, k, j in self.results:
            for o in j["obligations"]:
                if o["kind"] == "cover":
                    c = cov.setdefault((r["entry"], o["name"]), [False, r.get("slices", 1), 0])
                    c[0] |= o["verdict"] == "covered"
                    c[2] += 1
        self.covers = sum(c[0] for c in cov.values())
        self.not_covered = [f"{e}: {n}" for (e, n), c in cov.items() if not c[0] and c[2] == c[1]]

    def finish(self, runs):
        path = None
        if self.violations:
            real = None
            try:
                real = build_native(self.spec, "real")
            except NoAnswer as e:
                log("could not build the variant with std's own hash containers:", str(e)[:300])
            os.makedirs(f"{V}/evidence/replay", exist_ok=True)
            out = []
            for e, o, (i, v) in self.violations:
                rec = {"property": self.pid, "entry": e, "harness": self.spec["file"], "obligation": o["name"], "where": o.get("stack"),
                       "input": i, "native": v, "more": o.get("more"), "fraction_of_inputs": o.get("fraction")}
                if real:
                    n = sum(native(real, e, [i], f"{self.pid}/r-{e}", timeout=20)[0][1].startswith(("FAIL", "CRASH", "HANG"))
                            for _ in range(40 if not v.startswith("HANG") else 1))
                    rec["with_std_hash_containers"] = f"fails in {n} of 40 runs (random hash seeds)"
                out.append(rec)
                log(f"violated: {e}: {o['name']}: input {i}: natively {v}")
            path = f"{V}/evidence/replay/{self.pid}.json"
            json.dump(out, open(path, "w"), indent=1)
        self.evidence(runs)
        for p in self.problems:
            log("PROBLEM", p)
        for e, k, m in self.undecided:
            log(f"UNDECIDED {e} slice {k}: {m}")
        if self.violations:
            print(f"VIOLATION property={self.pid} replay={path}", flush=True)
            return 1
        if self.problems:
            return 2
        # a size that was out of reach is not explored (the evidence says so); some of them must have been
        open_ = {u[0] for u in self.undecided}
        hard = [u for u in self.undecided if not u[2].startswith(LIMIT)]
        if hard or all(r["entry"] in open_ for r in runs):
            return 3
        if self.not_covered and not self.spec.get("covers_optional"):
            for c in self.not_covered:
                log("NOT COVERED (vacuous?)", c)
            return 4
        log(f"property {self.pid} held on everything explored")
        return 0

    def evidence(self, runs):
        per = {}
        fns = {}
        obl = dis = 0
        solver = execs = steps = nodes = 0
        samples = []
        for r, k, j in self.results:
            e = per.setdefault(r["entry"], dict(entry=r["entry"], bounds=r.get("bounds", ""), slices_decided=0, slices=r.get("slices", 1),
                                                inputs=0.0, obligations=0, discharged=0, execution_s=0.0, solver_s=0.0, guard_nodes=0,
                                                input_bits=0, verdicts={}))
            e["slices_decided"] += 1
            e["inputs"] += j["inputs"]
            e["execution_s"] = round(e["execution_s"] + j["exec_seconds"], 2)
            e["solver_s"] = round(e["solver_s"] + j["solver_seconds"], 2)
            e["guard_nodes"] += j["guard_nodes"]
            e["input_bits"] = max(e["input_bits"], j["input_bits"])
            e["verdicts"][j["verdict"]] = e["verdicts"].get(j["verdict"], 0) + 1
            for o in j["obligations"]:
                if o["kind"] == "cover":
                    continue
                obl += 1
                e["obligations"] += 1
                if o["verdict"] == "holds":
                    dis += 1
                    e["discharged"] += 1
            solver += j["solver_seconds"]
            execs += j["exec_seconds"]
            steps += j["steps"]
            nodes += j["guard_nodes"]
            for f, c in j["functions"]:
                if re.match(r"<?(dandy|&?mut dandy)|.*dandy", f):
                    fns[f] = fns.get(f, 0) + c
            samples += [dict(entry=r["entry"], input=s["input"], observed=s["observed"]) for s in j["samples"][:1]]
        random.Random(self.seed).shuffle(samples)
        cov = {
            "states": int(sum(e["inputs"] for e in per.values())),
            "transitions": steps,
            "what_is_counted": "states: distinct admissible inputs (valuations of the symbolic variables) covered by the decided runs; "
                               "transitions: IR instructions executed symbolically, each over all of them at once",
            "traces_validated_against_impl": self.validated,
            "samples": samples[:8],
            "obligations": obl,
            "discharged": dis,
            "covers_satisfied": self.covers,
            "not_covered": self.not_covered,
            "solver": "z3 5.3 (z3-new), SMT-LIB QF_UF queries",
            "solver_s": round(solver, 2),
            "symbolic_execution_s": round(execs, 2),
            "guard_nodes": nodes,
            "functions_encoded": sorted(fns),
            "functions_encoded_count": len(fns),
            "runs": list(per.values()),
            "undecided": [dict(entry=e, slice=k, why=m[:300]) for e, k, m in self.undecided],
            "outside_the_bounds": self.spec.get("outside", ""),
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.spec.get("assumptions", []) + [
                  "std's hash containers are replaced by an open-addressing table whose iteration order is a symbolic input (of 8 orders); "
                  "everything else, including alloc and core, is the compiled code",
                  "the encoding executes the optimised LLVM IR of the code with overflow checks and debug assertions on"],
              "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        os.makedirs(f"{V}/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{self.pid}.json", "w"), indent=1)


def replay(path):
    rc = 0
    for rec in json.load(open(path)):
        spec = CHECKS[rec["property"]]
        build_shim()
        b = build_native(spec, "shim")
        obs, v = native(b, rec["entry"], [rec["input"]], "replay", timeout=20)[0]
        print(f"{rec['property']} {rec['entry']} input {rec['input']}: observed {obs}: {v}")
        rc |= v != "OK"
    return rc


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        build_engine()
        build_shim()
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER") or "quick"
    only, keep = [], False
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
            i += 1
        elif a[i] == "--only":
            only.append(a[i + 1])
            i += 1
        elif a[i] == "--keep":
            keep = True
        i += 1
    return Check(a[0], tier, only, keep).run()


if __name__ == "__main__":
    try:
        rc = main()
    except NoAnswer as e:
        log("NO ANSWER:", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
