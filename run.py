#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its compiled code.

  run.py PROPERTY [--tier quick|thorough]     run the property's check
  run.py --replay FILE                        run one recorded counterexample against the real code
  run.py --build                              build everything once (setup)

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: error of the check.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS, COMMON_ASSUMPTIONS  # noqa: E402

REPO = "/repo"
B = os.path.join(V, "build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
T0 = time.time()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class Broken(Exception):
    """The check itself could not do its work."""


def sh(cmd, cwd=None, env=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise Broken(f"{' '.join(cmd[:6])} failed ({r.returncode}):\n{r.stdout[-3000:]}")
    return r.stdout


def sysroot():
    return sh(["rustc", "--print", "sysroot"]).strip()


# ---------------------------------------------------------------- building
def build_engine():
    sh(["make", "-j4", "-C", os.path.join(V, "engine")])


def build_ir(names, out):
    """LLVM IR of /repo's crate linked with the harness, regenerated from the current source."""
    tgt = os.path.join(B, "sym")
    for f in glob.glob(os.path.join(tgt, "sym/deps/sym-*.ll")):
        os.unlink(f)
    # a fresh compile of the harness every time: the IR file must belong to this run
    for f in glob.glob(os.path.join(tgt, "sym/.fingerprint/sym-*")):
        shutil.rmtree(f, ignore_errors=True)
    sh(["cargo", "rustc", "--offline", "--profile", "sym", "--bin", "sym", "--", "--emit=llvm-ir", "-C", "linker=/bin/true"],
       cwd=os.path.join(V, "harness/sym"), env=dict(ENV, CARGO_TARGET_DIR=tgt))
    lls = glob.glob(os.path.join(tgt, "sym/deps/sym-*.ll"))
    if len(lls) != 1:
        raise Broken(f"expected one IR module, found {lls}")
    pre = out + ".pre"
    sh([sys.executable, os.path.join(V, "engine/prep.py"), lls[0], pre])
    opt = os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
    sh([opt, "-S", "-passes=internalize,globaldce,default<O1>", "--internalize-public-api-list=" + ",".join(names),
        "-vectorize-loops=false", "-vectorize-slp=false", pre, "-o", out])
    os.unlink(pre)


def build_native():
    sh(["cargo", "build", "--offline"], cwd=os.path.join(V, "harness/native"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "native")))
    return os.path.join(B, "native/debug/native")


def build_native_release():
    sh(["cargo", "build", "--offline", "--release"], cwd=os.path.join(V, "harness/native"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, "native")))
    return os.path.join(B, "native/release/native")


# ---------------------------------------------------------------- native replay
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


def run_native(exe, entry, tier, cases, work, timeout=20, extra=()):
    fs = []
    for i, c in enumerate(cases):
        f = os.path.join(work, f"case{os.getpid()}_{id(cases)}_{i}")
        with open(f, "w") as w:
            w.write(f"{c['shard']}\n{' '.join(map(str, c['in']))}\n{' '.join(map(str, c['rng']))}\n")
        fs.append(f)
    p = subprocess.Popen([exe, entry, str(tier), *fs, *extra], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", preexec_fn=limits)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        rc = "timeout"
    for f in fs:
        os.unlink(f)
    return rc, out


def classify(rc, out):
    """What a native replay showed: 'check', 'panic', 'crash', 'hang', 'diverged' or 'held'."""
    if rc == "timeout":
        return "hang"
    if rc == 3:
        return "check"
    if rc == 101:
        return "panic"
    if rc == 4:
        return "diverged"
    if rc == 0:
        return "held"
    return "crash"


def confirm(exe, entry, tier, v, work):
    """Replay a counterexample on the real code; returns (confirmed, kind, output)."""
    last = ("held", "")
    partial = v["kind"] in ("trap", "cut", "hang")  # recorded in the middle of a path
    extra = ["--lenient"] if partial else []
    for _ in range(2 if partial else 6):  # the real hasher is seeded per process
        rc, out = run_native(exe, entry, tier, [v], work, timeout=15, extra=extra)
        k = classify(rc, out)
        last = (k, out)
        if k in ("check", "panic", "crash"):
            return True, k, out
        if k == "hang":
            rc, out = run_native(exe, entry, tier, [v], work, timeout=40, extra=extra)
            if classify(rc, out) == "hang":
                return True, "hang", out
    return False, last[0], last[1]


# ---------------------------------------------------------------- one check
def run_entry(ent, tier, ir, work, budget, seed):
    name = ent["entry"]
    out = os.path.join(work, name + ".jsonl")
    cmd = [os.path.join(V, "engine/rsym"), ir, "--entry", name, "--out", out, "--jobs", "8", "--budget", str(int(budget)), "--shard-budget", str(int(budget)),
           "--tier", str(tier), "--xcheck", "4" if tier else "16", "--recheck", "8" if tier else "32", "--samples", str(ent.get("samples", 6)),
           "--max-steps", str(ent.get("max_steps", 40_000_000)), "--smt", os.path.join(work, name + ".smt2"), "--smt-max", "40" if tier else "8"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 200)
    if p.returncode or not os.path.exists(out):
        raise Broken(f"symbolic executor failed on {name}: {p.stdout[-1500:]}")
    recs = [json.loads(l) for l in open(out)]
    return recs, p.stdout


def cross_solver(work, name):
    """Give the dumped queries to a second solver and compare the verdicts."""
    n = bad = 0
    for f in glob.glob(os.path.join(work, name + ".smt2*")):
        txt = open(f).read()
        want = re.findall(r'\(echo "expect (\w+)"\)', txt)
        txt = re.sub(r'\(echo "expect \w+"\)\n?', "", txt)
        os.unlink(f)
        if not want:
            continue
        try:
            r = subprocess.run(["cvc5", "--incremental", "--lang=smt2", "--tlimit-per=5000"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        except (subprocess.TimeoutExpired, OSError):
            continue
        got = [x for x in r.stdout.split() if x in ("sat", "unsat", "unknown")]
        if "(error" in r.stdout or len(got) != len(want):
            continue
        for a, b in zip(want, got):
            if "unknown" in (a, b):
                continue
            n += 1
            bad += a != b
    return n, bad


def validate_samples(exe, name, tier, paths, work):
    """Replay sampled path models natively and compare what the harness observed."""
    ok = 0
    bad = []

    def one(c):
        rc, out = run_native(exe, name, tier, [c], work)
        got = None
        for l in out.splitlines():
            if l.startswith("OBS"):
                got = [int(x) for x in l.split()[1:]]
        if rc == 0 and got == c["obs"]:
            return None
        return (c, rc, out[-600:], got)
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, paths):
            if r is None:
                ok += 1
            else:
                bad.append(r)
    return ok, bad


def known_findings():
    f = os.path.join(V, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


def check(pid, tiername):
    tier = 1 if tiername == "thorough" else 0
    spec = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    work = tempfile.mkdtemp(prefix="run_", dir=B)
    try:
        return check_in(pid, tiername, tier, spec, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(pid, tiername, tier, spec, seed, work):
    ir = os.path.join(work, "m.ll")
    names = [e["entry"] for e in spec["entries"]]
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_engine), ex.submit(build_ir, names, ir), ex.submit(build_native)]
        for f in fs:
            f.result()
    exe = fs[2].result()
    log("built: executor, IR of the current source, native replayer")
    total = spec.get("budget_thorough", 2400) if tier else spec.get("budget", 300)
    end = time.time() + total
    tot = dict(paths=0, assumed=0, instr=0, forks=0, zq=0, zsat=0, zunsat=0, zunk=0, domv=0, xchk=0, checks=0, checkq=0, recheck=0, hangs=0, traps=0)
    zt = 0.0
    funcs = set()
    violations, nonrepro, inconcl, samples, per_entry = [], [], [], [], []
    validated = 0
    smt_n = smt_bad = 0
    complete_shards = shards_total = 0
    queue = list(spec["entries"])
    for qi, ent in enumerate(queue):
        name = ent["entry"]
        left = end - time.time()
        share = max(10.0, left * ent.get("share", 1.0) / sum(x.get("share", 1.0) for x in queue[qi:])) if ent.get("fair", False) else max(10.0, left - 8 * (len(queue) - qi - 1))
        t = time.time()
        recs, stdout = run_entry(ent, tier, ir, work, share, seed)
        n, bad = cross_solver(work, name)
        smt_n += n
        smt_bad += bad
        if bad:
            raise Broken(f"{name}: cvc5 and z3 disagree on {bad} of {n} queries")
        sh_recs = [r for r in recs if r["kind"] == "shard"]
        nsh = next((r["n"] for r in recs if r["kind"] == "shards"), 0)
        shards_total += nsh
        reach = {}
        for r in sh_recs:
            for k in tot:
                tot[k] += r.get(k, 0)
            zt += r["zt"]
            funcs.update(r["funcs"])
            complete_shards += bool(r["complete"])
            for k, c in r["reach"].items():
                reach[k] = reach.get(k, 0) + c
            if not r["complete"]:
                inconcl.append(dict(entry=name, shard=r["shard"], paths=r["paths"], why=r["trapmsgs"] or "time or path budget"))
        for r in recs:
            if r["kind"] == "lost":
                inconcl.append(dict(entry=name, shard=r["shard"], why="executor ran out of memory or crashed"))
        comp = sum(bool(r["complete"]) for r in sh_recs)
        paths = [r for r in recs if r["kind"] == "path"]
        cand = [r for r in recs if r["kind"] in ("check", "panic", "hang")]
        log(f"{name}: {comp}/{nsh} cases decided, {sum(r['paths'] for r in sh_recs)} paths, {sum(r['zq'] for r in sh_recs)} solver queries, {len(cand)} counterexamples, {time.time() - t:.1f}s")
        if comp == nsh and nsh and not cand:
            for lab in ent.get("reach", []):
                if not reach.get(lab):
                    raise Broken(f"{name}: no path reaches '{lab}': the check would be vacuous")
            for lab in ent.get("can", []):
                if not reach.get(lab):
                    cand.append(dict(kind="never", shard=0, msg=f"no path reaches '{lab}'", label=lab, **{"in": [], "rng": []}))
        # counterexamples, a few of each kind
        seen = {}
        cand.sort(key=lambda r: (len(r["in"]) + len(r["rng"])))
        for r in cand:
            key = (r["kind"], r["msg"], r["shard"])
            if sum(1 for k in seen if k[:2] == key[:2] and seen[k]) >= 3 or seen.get(key, 0) >= 2:
                continue
            seen[key] = seen.get(key, 0) + 1
            if r["kind"] == "never":
                rc, out = run_native(exe, name, tier, [], work, timeout=150, extra=["--sweep", r["label"], "30000", str(seed)])
                okk, kind = rc == 5, "never"
            else:
                okk, kind, out = confirm(exe, name, tier, r, work)
            if okk:
                f = save_replay(pid, name, tier, r, kind, out)
                violations.append((name, r, kind, out, f))
                if len(violations) >= 5:
                    break
            elif r["kind"] == "hang":
                inconcl.append(dict(entry=name, shard=r["shard"], why="step bound reached, the real code finishes"))
            else:
                nonrepro.append((name, r, kind, out[-500:]))
        # undecided paths: not a verdict, but their inputs are tried on the real code
        part = [r for r in recs if r["kind"] in ("trap", "cut")][:64] if not violations else []
        with cf.ThreadPoolExecutor(8) as ex:
            for r, (okk, kind, out) in zip(part, ex.map(lambda r: confirm(exe, name, tier, r, work), part)):
                if okk and len(violations) < 5:
                    violations.append((name, r, kind, out, save_replay(pid, name, tier, r, kind, out)))
        ok, badv = validate_samples(exe, name, tier, paths, work)
        validated += ok
        if badv:
            # a difference may come from hash iteration order; it is an error only when it is stable
            ok2, bad2 = validate_samples(exe, name, tier, [b[0] for b in badv], work)
            validated += ok2
            if bad2:
                # the real code fails a check where the symbolic run did not: still a genuine failure of the property
                hard = [b for b in bad2 if classify(b[1], "") in ("check", "panic", "crash", "hang")]
                if hard:
                    c, rc, out, _ = hard[0]
                    f = save_replay(pid, name, tier, dict(c, msg="failure of a replayed path"), classify(rc, out), out)
                    violations.append((name, dict(c, msg=f"replayed path fails: {out[-200:]}"), classify(rc, out), out, f))
                elif violations:
                    pass
                elif len(bad2) * 4 > len(paths):
                    raise Broken(f"{name}: symbolic and native runs observe different things: {bad2[0]}")
                else:
                    # the model is not exact on these paths: they do not count as decided
                    log(f"{name}: {len(bad2)} of {len(paths)} sampled paths observe something else natively; not counted as decided")
                    for b in bad2:
                        inconcl.append(dict(entry=name, shard=b[0]["shard"], why="the replay on the real code observes something else than the symbolic run"))
                    complete_shards -= len({b[0]["shard"] for b in bad2})
        for p in paths[:1]:
            if len(samples) < 6:
                rc, out = run_native(exe, name, tier, [p], work)
                samples.append(dict(entry=name, shard=p["shard"], inputs=p["in"], rng=p["rng"], steps=p["steps"], shown=[l[5:] for l in out.splitlines() if l.startswith("SHOW")][:4], native=classify(rc, out)))
        per_entry.append(dict(entry=name, what=ent.get("what", ""), cases=nsh, decided=comp, paths=sum(r["paths"] for r in sh_recs), assumed_away=sum(r.get("assumed", 0) for r in sh_recs), reach=dict(list(reach.items())[:80]), reached=len(reach), wall_s=round(time.time() - t, 1)))
        if violations:
            break
    # known findings: is each one still there?
    for k in known_findings()["findings"]:
        if k["property"] != pid:
            continue
        rc, out = run_native(exe, k["entry"], 0, [dict(shard=k.get("shard", 0), **{"in": k.get("in", []), "rng": k.get("rng", [])})], work, timeout=k.get("timeout", 15))
        if classify(rc, out) in ("hang", "crash", "panic", "check"):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        else:
            log(f"known finding no longer fails: {k['what']}")
    bnf_funcs = demangle(funcs)
    cov = dict(states=tot["paths"] + tot["assumed"], transitions=tot["instr"], traces_validated_against_impl=validated, samples=samples,
               exhaustive=complete_shards == shards_total and not inconcl,
               cases=shards_total, cases_decided=complete_shards, forks=tot["forks"], solver_queries=tot["zq"], solver_sat=tot["zsat"], solver_unsat=tot["zunsat"], solver_unknown=tot["zunk"],
               byte_domain_decisions=tot["domv"], byte_domain_decisions_rechecked_by_z3=tot["xchk"], path_conditions_rechecked_by_z3=tot["recheck"], queries_cross_checked_with_cvc5=smt_n, solver_time_s=round(zt, 2),
               assertions_evaluated=tot["checks"], assertion_queries=tot["checkq"], functions_encoded=len(funcs), functions_encoded_of_bnf=bnf_funcs, per_entry=per_entry, inconclusive=inconcl[:40],
               bounds=spec["bounds"], explanation="states = complete symbolic paths, each standing for every input satisfying its path condition; transitions = IR instructions executed symbolically")
    ev = dict(property=pid, tier=tiername, seed=seed, level="model_checking", coverage=cov, assumptions=COMMON_ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(violations))
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        for name, r, kind, out, f in violations:
            print(f"  {name} case {r['shard']}: {r['msg']} ({kind}); inputs {r['in'][:40]}")
            for l in out.splitlines()[-6:]:
                print("    " + l[:300])
        for f in dict.fromkeys(v[4] for v in violations):
            print(f"VIOLATION property={pid} replay={f}")
        return 1
    if nonrepro:
        raise Broken("counterexample does not reproduce on the real code: " + repr(nonrepro[:2])[:1500])
    if complete_shards == 0:
        raise Broken("nothing was decided: " + repr(inconcl[:3])[:1500])
    log(f"{pid}: held; {complete_shards}/{shards_total} cases decided, {tot['paths']} paths, {tot['zq']} solver queries ({zt:.1f}s), {validated} paths replayed natively")
    return 0


def demangle(names):
    """Readable names of the encoded functions that are bnf's own."""
    names = sorted(names)
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=30).stdout.splitlines()
    except (OSError, subprocess.TimeoutExpired):
        r = names
    r = {re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in r}
    return sorted(x[:160] for x in r if re.match(r"<*&?(mut )?bnf::", x))


def save_replay(pid, entry, tier, r, kind, out):
    d = os.path.join(V, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, entry=entry, tier=tier, shard=r["shard"], message=r["msg"], kind=kind, found=r["kind"], native_output=out[-2000:], label=r.get("label"), **{"in": r["in"], "rng": r["rng"]})
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    f = os.path.join(d, f"{pid}_{entry}_{h}.json")
    with open(f, "w") as w:
        json.dump(body, w, indent=1)
    return f


def replay(f):
    r = json.load(open(f))
    os.makedirs(B, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run_", dir=B)
    try:
        exe = build_native()
        if r["kind"] == "never":
            rc, out = run_native(exe, r["entry"], r["tier"], [], work, timeout=150, extra=["--sweep", r["label"], "30000", "1"])
            bad = rc == 5
        else:
            bad, k, out = confirm(exe, r["entry"], r["tier"], dict(r, kind=r.get("found", r["kind"])), work)
        print(out[-3000:])
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        if a.build:
            os.makedirs(B, exist_ok=True)
            build_engine()
            build_native()
            build_ir([e["entry"] for c in CHECKS.values() for e in c["entries"]], os.path.join(B, "setup.ll"))
            os.unlink(os.path.join(B, "setup.ll"))
            return 0
        return check(a.property, a.tier)
    except Broken as e:
        print(f"ERROR: {e}", flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())
