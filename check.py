#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property of /repo by symbolic execution of its compiled code
check.py --setup                        build everything once
check.py --replay FILE                  run a recorded counterexample against the real code
See DESIGN.md."""
import concurrent.futures as cf
import fcntl, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import jobs as J

REPO = "/repo"
B = os.path.join(ROOT, ".build")
TOOL = "stable-x86_64-unknown-linux-gnu"
LLVM = f"/root/.rustup/toolchains/{TOOL}/lib/rustlib/x86_64-unknown-linux-gnu/bin"
STACK = 2 << 20
NOVALIDATE = {7, 8, 50, 51, 52}  # harnesses whose native form runs longer inputs or free-running threads
CORES = len(os.sched_getaffinity(0)) or 8


def log(*a): print("#", *a, flush=True)


def cargo(args, cwd, target, env=None):
    e = dict(os.environ, CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true", **(env or {}))
    e.pop("RUSTFLAGS", None)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        raise SystemExit(f"build failed: cargo {' '.join(args)} in {cwd}")


def forget(target, *names):
    """make cargo compile these crates again, whatever the time stamps say"""
    for prof in ("debug", "release", "nrel"):
        for n in names:
            for f in glob.glob(f"{target}/{prof}/.fingerprint/{n}-*"): shutil.rmtree(f, ignore_errors=True)
            for f in glob.glob(f"{target}/{prof}/deps/{n}-*"): os.unlink(f)


def build_engine():
    cargo(["build", "--release", "--offline", "-q"], f"{ROOT}/rsym", f"{B}/engine")


def build_ir():
    t = f"{B}/ir"
    forget(t, "hx", "over", "libover")
    cargo(["rustc", "--release", "--offline", "-q", "--", "--emit=llvm-ir", "-C", "save-temps", "-C", "link-arg=-Wl,--unresolved-symbols=ignore-all",
           "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "--cfg", "rsym"], f"{ROOT}/harness", t)
    ll = [f for f in glob.glob(f"{t}/release/deps/hx-*.ll") if re.fullmatch(r"hx-[0-9a-f]{16}\.ll", os.path.basename(f))]
    assert len(ll) == 1, ll
    subprocess.run([f"{LLVM}/opt", "-passes=internalize,globaldce,mergefunc", "-internalize-public-api-list=hx_entry", "-S", ll[0], "-o", f"{B}/g.ll"], check=True)
    for f in glob.glob(f"{t}/release/deps/hx-*"): os.unlink(f)


def build_native():
    t = f"{B}/native"
    forget(t, "hx", "over", "libover")
    cargo(["build", "--offline", "-q"], f"{ROOT}/harness", t)
    cargo(["build", "--profile", "nrel", "--offline", "-q"], f"{ROOT}/harness", t)


def build():
    t0 = time.time()
    with cf.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(build_engine), ex.submit(build_ir), ex.submit(build_native)]: f.result()
    return time.time() - t0


def native(hx, param, values, prof="debug", timeout=30, pre=()):
    """run one concrete case of a harness against the real code; returns (exit code or 'timeout', output)"""
    d = tempfile.mkdtemp(prefix="hx")
    try:
        vf = os.path.join(d, "values")
        with open(vf, "w") as f: f.write("".join(f"{w} {v}\n" for w, v in values))
        work = os.path.join(d, "w")
        os.mkdir(work)
        try:
            r = subprocess.run([*pre, f"{B}/native/{prof}/hx", str(hx), str(param), vf, work, str(STACK)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode, r.stdout.decode("utf-8", "replace")
        except subprocess.TimeoutExpired:
            return "timeout", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(v):
    """does the counterexample show on the real code? returns a description or None"""
    hx, param, vals, kind = v["hx"], v["param"], v["values"], v["kind"]
    tries = 6 if hx in (50, 51, 52) else 1
    for prof in ("debug", "nrel"):
        for _ in range(tries):
            code, out = native(hx, param, vals, prof, 120 if hx in (7, 8) else 30)
            if code == 10:
                m = re.search(r"ASSERT-FAILED (\d+)", out)
                return f"assertion {m.group(1) if m else '?'} fails in the {prof} build"
            if code == 101: return f"the {prof} build panics: " + " ".join(x for x in out.splitlines() if "panicked" in x)[:300]
            if isinstance(code, int) and code < 0: return f"the {prof} build is ended by signal {-code}"
            if code in (134, 139): return f"the {prof} build aborts"
            if code == "timeout" and kind in ("hang", "deadlock"): return f"the {prof} build does not end within 30 s"
            if code in (77, 78): break
    if kind not in ("assert", "panic", "hang", "deadlock"):
        code, out = native(hx, param, vals, "nrel", 120, ("valgrind", "-q", "--error-exitcode=99"))
        if code == 99: return "valgrind: " + " ".join(out.split())[:300]
    return None


def findings(prop):
    """{(job, message): text} of the recorded findings of a property"""
    r = {}
    for l in open(f"{ROOT}/known-findings.txt", encoding="utf-8"):
        m = re.match(r"finding: property=(\S+) job=(\S+) fails=\[(.*?)\] (.*)", l)
        if m and m.group(1) == prop: r[(m.group(2), m.group(3))] = m.group(4).strip()
    return r


def engine(jobs, out, seconds, samples, dump, grace=4000):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(f"{out}/jobs", "w") as f:
        for j in jobs: f.write(f"{j[0]} {j[1]} {j[2]} {j[3]} 3000\n")
    r = subprocess.run([f"{B}/engine/release/rsym", "--ir", f"{B}/g.ll", "--jobs", f"{out}/jobs", "--out", out, "--time", str(seconds), "--workers", str(min(CORES, 8)),
                        "--samples", str(samples), "--dump-every", str(dump), "--grace-ms", str(grace)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lines = [l for l in r.stdout.splitlines() if l.startswith("{")]
    if r.returncode != 0 or not lines:
        print(r.stderr[-3000:])
        raise SystemExit("the engine failed")
    s = json.loads(lines[-1])
    res = [dict(name=j[0], hx=j[1], param=j[2], viols=[], samples=[], reach={}, unsup_msgs={}) for j in jobs]
    stats, funcs, dumps = {}, {}, []
    for f in sorted(glob.glob(f"{out}/w*.json")):
        d = json.load(open(f))
        for x in d["jobs"]:
            a = res[x.pop("job")]
            for k, v in x.items():
                if isinstance(v, int): a[k] = max(a.get(k, 0), v) if k.startswith("max") or k == "depth" else a.get(k, 0) + v
                elif isinstance(v, dict):
                    b = a.setdefault(k, {})
                    for q, w in v.items(): b[q] = b.get(q, 0) + w
                else: a.setdefault(k, []).extend(v)
        for k, v in d["stats"].items(): stats[k] = max(stats.get(k, 0), v) if k in ("max_query_ns", "nodes") else stats.get(k, 0) + v
        for k, v in d["funcs"].items(): funcs[k] = funcs.get(k, 0) + v
        dumps += d["dumps"]
    return s, res, stats, funcs, dumps


def second_opinion(dumps, n, rng):
    """a sample of the solver's verdicts asked again of cvc5"""
    def one(d):
        try:
            r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=8000"], input="(set-logic ALL)\n" + d[0] + "\n(check-sat)\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20)
            w = r.stdout.split()
            return w[0] if w else "none", d[1]
        except subprocess.TimeoutExpired:
            return "timeout", d[1]
    pick = dumps if len(dumps) <= n else rng.sample(dumps, n)
    with cf.ThreadPoolExecutor(CORES) as ex: got = list(ex.map(one, pick))
    agree = sum((g == "sat") == bool(w) for g, w in got if g in ("sat", "unsat"))
    wrong = sum((g == "sat") != bool(w) for g, w in got if g in ("sat", "unsat"))
    return agree, wrong, len(got) - agree - wrong


def violation(prop, job, v, how, n):
    p = f"{ROOT}/evidence/replay-{prop}-{n}.json"
    with open(p, "w") as f: json.dump(dict(property=prop, job=job["name"], hx=job["hx"], param=job["param"], kind=v["kind"], msg=v["msg"], values=v["values"], where=v.get("bt", []), confirmed=how), f, indent=1)
    log(f"{job['name']}: {v['kind']}: {v['msg']}; {how}; in {' < '.join(v.get('bt', [])[:4])}")
    print(f"VIOLATION property={prop} replay={p}", flush=True)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rng = random.Random(seed)
    os.makedirs(f"{ROOT}/evidence", exist_ok=True)
    for f in glob.glob(f"{ROOT}/evidence/replay-{prop}-*.json"): os.unlink(f)
    built = build()
    jobs, known = J.jobs(prop, tier)
    seconds = {"quick": 200, "thorough": 1500}[tier]
    s, res, stats, funcs, dumps = engine(jobs, f"{B}/out-{prop}", seconds, 6 if tier == "quick" else 12, 100 if tier == "quick" else 1000)
    reported, unconfirmed, listed = [], [], []
    # counterexamples
    for j in res:
        seen = {}
        for v in j["viols"]:
            k = (v["kind"], v["msg"])
            if len(reported) >= 3 or seen.get(k, 0) >= 3 or seen.get(k) == -1: continue
            how = confirm(dict(v, hx=j["hx"], param=j["param"]))
            if how:
                seen[k] = -1
                violation(prop, j, v, how, len(reported))
                reported.append(dict(job=j["name"], msg=v["msg"], how=how))
            else:
                seen[k] = seen.get(k, 0) + 1
                unconfirmed.append(dict(job=j["name"], kind=v["kind"], msg=v["msg"], values=v["values"], where=v.get("bt", [])[:4]))
    # recorded findings are looked at apart, so that they do not cut the exploration short
    if known:
        f = findings(prop)
        ks, kres, kstats, _, _ = engine(known, f"{B}/out-{prop}-k", 60, 0, 0, 60000)
        for j in kres:
            done = set()
            for v in j["viols"]:
                k = (j["name"], v["msg"])
                if k in done: continue
                how = confirm(dict(v, hx=j["hx"], param=j["param"]))
                if not how: continue
                done.add(k)
                if k in f:
                    print(f"KNOWN-FINDING: property={prop} {j['name']}: {f[k]}", flush=True)
                    listed.append(dict(job=j["name"], msg=v["msg"], how=how))
                else:
                    violation(prop, j, v, how, len(reported))
                    reported.append(dict(job=j["name"], msg=v["msg"], how=how))
        for k, v in kstats.items(): stats[k] = stats.get(k, 0) + v if k not in ("max_query_ns", "nodes") else max(stats.get(k, 0), v)
        res_all = res + kres
    else:
        res_all = res
    # the executor against the real code: concrete members of explored paths, same observations
    cand = [(j, x) for j in res if j["hx"] not in NOVALIDATE for x in j["samples"]]
    lim = 150 if tier == "quick" else 600
    if len(cand) > lim: cand = rng.sample(cand, lim)
    same, differ = 0, []
    def val(c):
        j, x = c
        return j, x, native(j["hx"], j["param"], x["values"], "debug", 60)
    with cf.ThreadPoolExecutor(CORES) as ex:
        for j, x, (code, out) in ex.map(val, cand):
            notes = [l[5:] for l in out.splitlines() if l.startswith("NOTE ")]
            if code == 0 and notes == x["notes"]: same += 1
            elif code == 0: differ.append(dict(job=j["name"], values=x["values"], executor=x["notes"], real=notes))
            elif code not in (77, 78) and len(reported) < 3:
                v = dict(kind="real run", msg="a concrete run of an explored path fails", values=x["values"])
                how = confirm(dict(v, hx=j["hx"], param=j["param"]))
                if how:
                    violation(prop, j, v, how, len(reported))
                    reported.append(dict(job=j["name"], msg=v["msg"], how=how))
            else: differ.append(dict(job=j["name"], values=x["values"], code=code))
    agree, wrong, undecided = second_opinion(dumps, 24 if tier == "quick" else 150, rng)
    tot = lambda k: sum(j.get(k, 0) for j in res_all)
    vacuous = [j["name"] for j in res if not j.get("done") and not j["viols"]]
    target = sorted(f for f in funcs if "over::" in f and "hx::" not in f)
    complete = not (tot("unsup") or tot("unknown") or tot("incomplete") or tot("unexplored") or s["lost"] or vacuous)
    samples = [dict(job=j["name"], values=x["values"], observed=[bytes.fromhex(n).decode("utf-8", "replace")[:200] for n in x["notes"]]) for j, x in cand[:6]]
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=dict(
        states=stats.get("paths", 0), transitions=stats.get("steps", 0), traces_validated_against_impl=same, samples=samples,
        rule="states: symbolic paths executed to their end (each stands for every concrete input that meets its path condition); transitions: IR instructions executed symbolically over them; traces validated: solver models of paths run natively with equal observations",
        exhaustive=complete,
        functions_encoded=target, functions_encoded_count=len(target), functions_executed_total=len(funcs), module_functions=s["module_funcs"], module_instructions=s["module_insts"],
        bounds=[dict(job=j["name"], harness=j["hx"], param=j["param"], symbolic_variables=j.get("max_vars", 0), paths=j.get("done", 0), assumed_away=j.get("assume", 0), max_instructions_on_a_path=j.get("max_steps", 0),
                     instruction_limit=next((q[3] for q in jobs + known if q[0] == j["name"]), 0), stack_depth=j.get("depth", 0), reached=j.get("reach", {})) for j in res_all],
        queries_discharged=stats.get("queries", 0), queries_sat=stats.get("sat", 0), queries_unsat=stats.get("unsat", 0), queries_unknown=stats.get("unknown", 0), verdicts_reused_for_identical_queries=stats.get("cache_hits", 0),
        decided_by_exact_value_sets=stats.get("presolved", 0), of_those_audited_by_solver=stats.get("audits", 0),
        solver_time_s=round(stats.get("solver_ns", 0) / 1e9, 3), slowest_query_s=round(stats.get("max_query_ns", 0) / 1e9, 3),
        assertions_checked=stats.get("asserts", 0), assertions_symbolic=stats.get("sym_asserts", 0),
        cvc5_agrees=agree, cvc5_disagrees=wrong, cvc5_undecided=undecided,
        not_covered=dict(unsupported=tot("unsup"), unsupported_what=sorted({m for j in res_all for m in j["unsup_msgs"]})[:10], solver_unknown=tot("unknown"), paths_with_undecided_assertion=tot("incomplete"), unexplored=tot("unexplored"), workers_lost=s["lost"], vacuous_jobs=vacuous),
        executor_differs_from_real=differ[:10], unconfirmed_counterexamples=unconfirmed[:10], known_findings=listed, build_s=round(built, 1), exploration_s=s["seconds"]),
        assumptions=["texts, sizes, steps and nesting outside the listed jobs are not covered", "the IR of one build (stable rustc, opt-level 1, overflow checks on) stands for the program; std, num-bigint and num-rational are executed, not modelled; libc calls are modelled by the executor",
                     "Z3 is trusted for the queries that cvc5 did not repeat"],
        wall_s=round(time.time() - t0, 2), violations=len(reported))
    tmp = f"{ROOT}/evidence/{prop}.json.tmp"
    with open(tmp, "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, f"{ROOT}/evidence/{prop}.json")
    shutil.rmtree(f"{B}/out-{prop}", ignore_errors=True)
    shutil.rmtree(f"{B}/out-{prop}-k", ignore_errors=True)
    log(f"{prop} {tier}: {len(jobs)} jobs, {stats.get('paths', 0)} paths, {stats.get('asserts', 0)} assertions, {stats.get('queries', 0)} solver queries ({ev['coverage']['solver_time_s']} s), {same}/{len(cand)} samples equal natively, cvc5 {agree}/{agree + wrong + undecided}, "
        f"{'complete' if complete else 'INCOMPLETE ' + json.dumps(ev['coverage']['not_covered'])}, build {built:.1f} s, exploration {s['seconds']:.1f} s, total {time.time() - t0:.1f} s")
    if unconfirmed: log("counterexamples that the real code does not show (not reported):", json.dumps(unconfirmed)[:1500])
    if differ: log("samples on which executor and real code differ:", json.dumps(differ)[:1500])
    if wrong: log("cvc5 DISAGREES on", wrong)
    return 1 if reported else 0


def replay(path):
    build_native()
    v = json.load(open(path))
    how = confirm(v)
    print(how or "not reproduced")
    return 1 if how else 0


def main():
    os.makedirs(B, exist_ok=True)
    lock = open(f"{B}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    a = sys.argv[1:]
    if a[0] == "--setup":
        log(f"built in {build():.1f} s")
        return 0
    if a[0] == "--replay": return replay(a[1])
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__": sys.exit(main())
