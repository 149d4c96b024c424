#!/usr/bin/env python3
"""Decides one property: builds what watches it, runs the workloads, judges, writes the evidence.

usage: check.py PROPERTY            (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)
       check.py --replay FILE       (a file named by a VIOLATION line)

exit 0: held on everything explored; 1: violated; 3: no answer (a build failed, a run was cut
short by something other than the code under test, or too little was observed).
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = os.path.join(V, ".build")
PY = "/opt/vp/venv/bin/python"
TARGET = "x86_64-unknown-linux-gnu"
ASAN_RT = "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"
ALL = "parallel,no-position,sqrt-dist2,no-index"
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, FEATURES  # noqa: E402

ENV = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST", "MIRI", "PYO3", "ASAN", "TSAN", "MSAN", "RAYON"))}
ENV.update(HOME=os.environ.get("HOME", "/root"), PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
           CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="0")
T0 = time.time()


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class NoAnswer(Exception):
    pass


# ---- builds -----------------------------------------------------------------------------
SAN = {
    "asan": ("-Zsanitizer=address --cfg fxh_sanitize", []),
    "tsan": ("-Zsanitizer=thread --cfg crossbeam_sanitize_thread --cfg fxh_sanitize", ["-Zbuild-std"]),
    "msan": ("-Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg fxh_sanitize", ["-Zbuild-std"]),
}
pysrc_lock = threading.Lock()


def build(variant, features, bins):
    """Builds from /repo's working tree as it is now. Returns {bin: path}."""
    env, tag = dict(ENV), variant + "-" + re.sub(r"[^a-z0-9]+", "_", features)
    td = env["CARGO_TARGET_DIR"] = os.path.join(B, tag)
    if variant in ("py", "pyasan"):
        src = os.path.join(B, "pysrc")
        with pysrc_lock:
            os.makedirs(src, exist_ok=True)
            # the same times, so that cargo sees what changed; nothing is written in /repo
            subprocess.run(["rsync", "-a", "--delete", "--exclude=/target", "--exclude=/.git", "--exclude=/Cargo.lock", REPO + "/", src + "/"], check=True)
            shutil.copyfile(os.path.join(V, "locks", "repo.Cargo.lock"), os.path.join(src, "Cargo.lock"))
        env.update(PYO3_PYTHON=PY, CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        cmd, out, cwd = ["cargo", "build", "--offline", "-p", "pyfnntw", "--lib"], "debug", src
        if variant == "pyasan":
            env.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Zsanitizer=address")
            cmd, out = cmd + ["--target", TARGET], TARGET + "/debug"
        run_build(cmd, env, cwd, tag)
        mod = os.path.join(td, "mod")
        os.makedirs(mod, exist_ok=True)
        shutil.copyfile(os.path.join(td, out, "libpyfnntw.so"), os.path.join(mod, "pyfnntw.so"))
        return {"": mod}
    cwd = os.path.join(V, "harness")
    cmd = ["cargo", "build", "--offline", "--locked"]
    if features:
        cmd += ["--features", features]
    for b in bins:
        cmd += ["--bin", b]
    if variant == "rel":
        cmd, out = cmd + ["--release"], "release"
    elif variant == "chk":
        cmd, out = cmd + ["--profile", "chk"], "chk"
    elif variant == "miri":
        # cargo miri builds and runs in one go; this run does nothing but build
        env.update(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS=MIRIFLAGS)
        run_build(["cargo", "miri", "run", "--offline", "--locked", "--features", features, "--bin", bins[0], "--", "--cases", "0", "--workers", "1"], env, cwd, tag)
        return {b: b for b in bins}
    else:
        flags, extra = SAN[variant]
        env.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS=flags)
        cmd, out = cmd + ["--release", "--target", TARGET] + extra, TARGET + "/release"
    run_build(cmd, env, cwd, tag)
    return {b: os.path.join(td, out, b) for b in bins}


def run_build(cmd, env, cwd, tag):
    t = time.time()
    p = subprocess.run(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        print(p.stdout[-6000:])
        raise NoAnswer(f"build {tag} failed with {p.returncode}")
    log(f"built {tag} in {time.time() - t:.0f} s")


MIRIFLAGS = "-Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-disable-isolation"

ALONE = 100  # seconds for one case alone, which takes well under one on code that ends

# ---- runs -------------------------------------------------------------------------------
DEADLY = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}
REPORTS = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|WARNING: MemorySanitizer[^\n]*|ERROR: MemorySanitizer[^\n]*|error: Undefined Behavior[^\n]*|unsafe precondition[^\n]*|has overflowed its stack|stack overflow|double free[^\n]*|corrupted[^\n]*|malloc\(\)[^\n]*|free\(\)[^\n]*)")


def command(step, exe, seed, tier, extra):
    v, env = step["variant"], dict(ENV)
    args = ["--seed", str(seed), "--tier", tier] + (["--mode", step["mode"]] if step.get("mode") else []) + extra
    if v in ("py", "pyasan"):
        env.update(PYTHONPATH=f"{exe}:{V}/py", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONFAULTHANDLER="1")
        if v == "pyasan":
            env.update(LD_PRELOAD=ASAN_RT, PYTHONMALLOC="malloc", ASAN_OPTIONS="detect_leaks=0:exitcode=66:halt_on_error=1:allocator_may_return_null=1")
        return [PY, f"{V}/py/{step['bin']}.py"] + args, env, V
    env.update(ASAN_OPTIONS="detect_leaks=0:exitcode=66:halt_on_error=1:allocator_may_return_null=1", TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1", MSAN_OPTIONS="halt_on_error=1:exitcode=66")
    if v == "miri":
        env.update(RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS=MIRIFLAGS + f" -Zmiri-seed={seed % 65536}", CARGO_TARGET_DIR=os.path.join(B, "miri-" + re.sub(r"[^a-z0-9]+", "_", step["features"])), RAYON_NUM_THREADS="2")
        return ["cargo", "miri", "run", "-q", "--offline", "--locked", "--features", step["features"], "--bin", step["bin"], "--"] + args, env, os.path.join(V, "harness")
    return [exe] + args, env, V


def launch(step, exe, seed, tier, secs, tmp, i, proc, only=None):
    """One process. Returns (how it ended, return code, report, stderr text)."""
    out, crumb, errf = (os.path.join(tmp, f"{i}-{proc}.{x}") for x in ("json", "crumb", "err"))
    for f in (out, crumb):
        if os.path.exists(f):
            os.unlink(f)
    extra = ["--out", out, "--crumb", crumb]
    if only is not None:
        extra += ["--only", str(only)]
    else:
        extra += ["--secs", str(secs)]
        if step["variant"] in ("py", "pyasan"):
            extra += ["--offset", str(proc), "--stride", str(step["procs"])]
        elif step.get("workers"):
            extra += ["--workers", str(step["workers"])]
    cmd, env, cwd = command(step, exe, seed, tier, extra)
    limit = ALONE if only is not None else secs * 2 + step.get("grace", 90)
    with open(errf, "wb") as e:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e, start_new_session=True)
        if step["variant"] in ("rel", "chk"):
            g = (5 if only is not None else 12) << 30
            try:
                resource.prlimit(p.pid, resource.RLIMIT_DATA, (g, g))
            except OSError:
                pass  # it has ended already
        try:
            rc = p.wait(timeout=limit)
            how = "ended"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc, how = None, "timeout"
    with open(errf, "rb") as e:
        e.seek(max(0, os.path.getsize(errf) - 200_000))
        err = e.read().decode(errors="replace")
    rep = None
    if os.path.exists(out):
        try:
            rep = json.load(open(out))
        except ValueError:
            pass
    return how, rc, rep, err, cmd


def in_flight(crumb):
    try:
        return sorted({int(l) for l in open(crumb).read().replace("\0", "").split() if int(l) < 2**61})
    except (OSError, ValueError):
        return []


OOM = "out of memory"


def died(rc, err, alone=False):
    """Whether a return code means that the code under test brought its process down."""
    if rc is None:
        return None
    s = -rc if rc < 0 else (rc - 128 if rc > 128 else 0)
    if "memory allocation of" in err and s == signal.SIGABRT and not REPORTS.search(err):
        # out of memory: the code's fault if it asked for something absurd, or if one case alone
        # (an ordinary one takes less than a tenth of what it may have) asks for that much again
        m = re.findall(r"memory allocation of (\d+) bytes failed", err)
        return f"an allocation of {m[-1]} bytes" if m and (alone or int(m[-1]) > 1 << 40) else OOM
    if s in DEADLY:
        return f"signal {signal.Signals(s).name}"
    if rc == 66 or REPORTS.search(err) and rc not in (0, 2):
        return "a sanitizer report"
    return None


def excerpt(err):
    m = REPORTS.search(err)
    tail = err[m.start():m.start() + 3000] if m else err[-1500:]
    return (m.group(0)[:200] if m else ""), tail


def judge(step, exe, i, proc, seed, tier, secs, tmp):
    """Runs one process of a step. Returns (report or None, violation or None)."""
    name = f"{step['bin']}{'/' + step['mode'] if step.get('mode') else ''} {step['variant']}"
    how, rc, rep, err, cmd = launch(step, exe, seed, tier, secs, tmp, i, proc)
    base = dict(bin=step["bin"], mode=step.get("mode", ""), variant=step["variant"], features=step["features"], seed=seed, tier=tier)
    if how == "timeout":
        cases = in_flight(os.path.join(tmp, f"{i}-{proc}.crumb"))
        log(f"{name}: still running after {secs * 2 + step.get('grace', 90)} s with cases {cases} in flight; running them again one by one")
        if step["variant"] != "miri":
            with cf.ThreadPoolExecutor(8) as ex:
                again = [(c, ex.submit(launch, step, exe, seed, tier, secs, tmp, i, f"{proc}r{c}", c)) for c in cases[:8]]
            for c, f in again:
                how2, rc2, rep2, err2, _ = f.result()
                if how2 == "timeout":
                    return None, dict(base, case=c, what=f"case {c} alone does not end within {ALONE} s: a call never returns", stderr=err2[-1500:])
                if rc2 == 1 and rep2 and rep2["violations"]:
                    return None, dict(base, case=c, what=rep2["violations"][0]["what"])
        raise NoAnswer(f"{name}: still running, and no case alone does\n{err[-1500:]}")
    if rc == 0 and rep and not rep["violations"]:
        return rep, None
    if rc == 1 and rep and rep["violations"]:
        v = rep["violations"][0]
        return rep, dict(base, case=v["case"], what=v["what"])
    why = died(rc, err)
    if why is None:
        raise NoAnswer(f"{name}: ended with {rc}\n{err[-3000:]}")
    head, tail = excerpt(err)
    cases = in_flight(os.path.join(tmp, f"{i}-{proc}.crumb"))
    log(f"{name}: {why} with cases {cases} in flight; running them again one by one")
    for c in cases[:16]:
        _, rc2, rep2, err2, _ = launch(step, exe, seed, tier, secs, tmp, i, f"{proc}r", only=c)
        w2 = died(rc2, err2, True)
        if w2:
            head, tail = excerpt(err2)
            return None, dict(base, case=c, what=f"case {c} ends the process: {w2} {head}", stderr=tail)
        if rc2 == 1 and rep2 and rep2["violations"]:
            return None, dict(base, case=c, what=rep2["violations"][0]["what"])
    if why == OOM:
        raise NoAnswer(f"{name}: out of memory, and no case alone is\n{err[-1500:]}")
    return None, dict(base, case=None, cases_in_flight=cases, what=f"the process ended: {why} {head}", stderr=tail)


RULE = "cases are drawn by number from the seed: {how}. Non-trivial: {non}; counted as distinct signatures per process, each process having a seed of its own."


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    steps = []
    for s in plan["steps"]:
        secs = s.get(tier, 0)
        if secs:
            s = dict(s)
            s.setdefault("variant", "rel")
            s.setdefault("features", FEATURES)
            s.setdefault("procs", 1)
            steps.append((s, secs))
    tmp = os.path.join(B, "run", prop)
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    # builds: everything that differs in flags or features, a few at a time
    want = {}
    for s, _ in steps:
        f = "" if s["variant"] in ("py", "pyasan") else s["features"]
        want.setdefault((s["variant"], f), set()).add(s["bin"])
    exes = {}
    with cf.ThreadPoolExecutor(4) as ex:
        futs = {k: ex.submit(build, k[0], k[1], sorted(b)) for k, b in want.items()}
        for k, f in futs.items():
            exes[k] = f.result()
    reports, violation = [], None
    n = 0
    groups = {}
    for s, secs in steps:
        groups.setdefault(s.get("group", id(s)), []).append((s, secs))
    for g in groups.values():
        jobs = []
        for s, secs in g:
            f = "" if s["variant"] in ("py", "pyasan") else s["features"]
            e = exes[(s["variant"], f)]
            exe = e.get(s["bin"], e.get(""))
            for p in range(s["procs"]):
                n += 1
                sd = seed * 1000 + n if s["variant"] not in ("py", "pyasan") else seed * 1000 + n - p
                jobs.append((s, exe, n, p, sd, tier, secs, tmp))
        with cf.ThreadPoolExecutor(max(1, len(jobs))) as ex:
            done = [(j, ex.submit(judge, *j)) for j in jobs]
        bad = None
        for j, f in done:
            try:
                rep, v = f.result()
            except NoAnswer as e:
                bad = bad or e
                continue
            if rep:
                reports.append((j, rep))
            violation = violation or v
        if violation:
            break
        if bad:
            raise bad
        for s, secs in g:
            rs = [r for j, r in reports if j[0] is s]
            ev, di = sum(r["evaluations"] for r in rs), sum(r["distinct"] for r in rs)
            log(f"{s['bin']} {s.get('mode', '')} {s['variant']} [{s['features'] if s['variant'] not in ('py', 'pyasan') else ''}]: {sum(r['cases'] for r in rs)} cases, {ev} evaluations, {di} distinct")
            if ev < s.get("min", 20) or di < min(5, s.get("min", 20)):
                raise NoAnswer(f"{s['bin']} {s['variant']}: only {ev} evaluations, {di} distinct: too little observed")
    cov = {
        "evaluations": sum(r["evaluations"] for _, r in reports),
        "distinct_nontrivial": sum(r["distinct"] for _, r in reports),
        "rule": RULE.format(**plan["rule"]),
        "samples": [x for _, r in reports for x in r["samples"][:2]][:12],
        "cases": sum(r["cases"] for _, r in reports),
        "runs": [dict(workload=j[0]["bin"] + ("/" + j[0]["mode"] if j[0].get("mode") else ""), monitor=j[0]["variant"], features=j[0]["features"] if j[0]["variant"] not in ("py", "pyasan") else "python module", seed=j[4], seconds=r["secs"], cases=r["cases"], evaluations=r["evaluations"], observed=r["counts"]) for j, r in reports],
    }
    if not reports:
        cov.update(evaluations=1, distinct_nontrivial=1, samples=[violation["what"][:500]] if violation else ["none"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=plan["assumptions"], wall_s=round(time.time() - T0, 1), violations=1 if violation else 0)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    if violation:
        d = os.path.join(V, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{seed}-{tier}.json")
        violation["property"] = prop
        violation["run_again"] = f"python3 {V}/bin/check.py --replay {path}"
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        print("what:", violation["what"][:1500])
        if violation.get("stderr"):
            print(violation["stderr"][:3000])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    log(f"{prop} held on {cov['evaluations']} evaluations in {cov['cases']} cases ({cov['distinct_nontrivial']} distinct non-trivial)")
    return 0


def replay(path):
    v = json.load(open(path))
    if v["case"] is None:
        print("no single case was identified; cases in flight:", v.get("cases_in_flight"))
    exe = build(v["variant"], v["features"] if v["variant"] not in ("py", "pyasan") else "", [v["bin"]])
    exe = exe.get(v["bin"], exe.get(""))
    tmp = os.path.join(B, "run", "replay")
    os.makedirs(tmp, exist_ok=True)
    step = dict(bin=v["bin"], variant=v["variant"], features=v["features"], mode=v["mode"], procs=1)
    for c in [v["case"]] if v["case"] is not None else v.get("cases_in_flight", []):
        how, rc, rep, err, cmd = launch(step, exe, v["seed"], v["tier"], 60, tmp, 0, 0, only=c)
        print("$", " ".join(cmd))
        print(how, rc, json.dumps(rep.get("violations") if rep else None)[:3000])
        if err:
            print(err[-4000:])
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except NoAnswer as e:
        log("NO ANSWER:", e)
        sys.exit(3)
