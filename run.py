#!/usr/bin/env python3
"""Runs one property's check: builds the harness against /repo's working tree in several
configurations, explores every case, replays what it finds, writes the evidence file.

  run.py check C01 [--tier quick|thorough]
  run.py replay FILE
  run.py setup

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the
check itself failed (never a verdict)."""
import contextlib, hashlib, json, os, re, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(HERE, "mc")
TARGET = os.path.join(HERE, "target")
LIMIT_S = {"quick": 800, "thorough": 4 * 3600}

# name -> (features, profile)
CONFIGS = {
    "std-chk": (["std"], "checked"),
    "core-rel": (["io"], "release"),
    "small-chk": (["io", "small-hash"], "checked"),
    "stdsmall-rel": (["std", "small-hash"], "release"),
    "std-plain": (["std"], "plain"),  # the crate under test without optimisation
    "asan": (["std"], "checked"),  # address sanitizer (nightly)
}
ALL = ["std-chk", "core-rel", "small-chk", "stdsmall-rel"]
HOST = "x86_64-unknown-linux-gnu"

# Miri: name -> (target, rustflags, features)
MIRI = {
    "miri-x86-shani": (HOST, "-Ctarget-feature=+sha,+sse2,+ssse3,+sse4.1", ["std"]),
    "miri-s390x-be": ("s390x-unknown-linux-gnu", "", ["io"]),
    "miri-i686": ("i686-unknown-linux-gnu", "", ["io", "small-hash"]),
}
# Processors with some of the instructions only: a short interpreted run on each (Miri reports
# an instruction the processor does not have).
CPUS = {
    "miri-x86-plain": "",
    "miri-x86-sse4.1": "+sse4.1",
    "miri-x86-avx2": "+sse4.2,+popcnt,+avx,+avx2,+bmi1,+bmi2,+lzcnt,+movbe,+aes,+pclmulqdq,+adx,+fma",
    "miri-x86-sha": "+sha",
}
for n, f in CPUS.items():
    MIRI[n] = (HOST, "-Ctarget-feature=" + f if f else "", ["std"])
SHARDS = 8


def U(cfg, label=None, shards=0, env=None, tiers=None):
    """One exploration: a configuration, optionally split over processes, with an environment
    and a tier mapping of its own."""
    return {"cfg": cfg, "label": label or cfg, "shards": shards, "env": env or {}, "tiers": tiers or {}}


# property -> what to run
PLAN = {p: {"units": [U(c) for c in ALL]} for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C15", "C17")}
PLAN["C14"] = {"units": [U(c) for c in ALL], "features": ["serde"]}
PLAN["C16"] = {"units": [U("core-rel", shards=SHARDS), U("std-chk", shards=SHARDS), U("std-plain", shards=SHARDS, tiers={"quick": "tiny", "thorough": "quick"})]}
PLAN["C18"] = {
    "units": [U(c, shards=SHARDS) for c in ALL]
    + [U(c, c + "/preempt", SHARDS, {"C18_PREEMPT": "1"}) for c in ("core-rel", "std-chk", "small-chk")]
}
PLAN["C19"] = {"units": [U(c) for c in ALL] + [U("std-plain"), U("asan")], "features": ["serde"], "miri": ["miri-x86-shani", "miri-i686", "miri-x86-plain", "miri-x86-sse4.1"]}
# A build that fails because the compiler's evaluation of the crate's const functions
# panicked is a result, not an accident.
PLAN["C07"]["const_eval"] = PLAN["C08"]["const_eval"] = True


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh_env(extra=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    if extra:
        e.update(extra)
    return e


class ConstEval(Exception):
    pass


def build(binname, cfg, extra_features=()):
    feats, profile = CONFIGS[cfg]
    tdir = os.path.join(TARGET, cfg)
    env = {"CARGO_TARGET_DIR": tdir}
    cmd = ["cargo"]
    sub = profile
    tgt = []
    if cfg == "asan":
        cmd = ["cargo", "+nightly"]
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        tgt = ["--target", HOST]
        sub = os.path.join(HOST, profile)
    cmd += ["build", "--offline", "--profile", profile] + tgt + ["--features", ",".join(list(feats) + list(extra_features)), "--bin", binname]
    p = subprocess.run(cmd, cwd=MC, env=sh_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        # A panic inside the crate's own const functions.
        if "error[E0080]" in p.stdout and re.search(r"/repo/src/\w+\.rs", p.stdout):
            raise ConstEval(p.stdout[-3000:])
        raise CheckError("building %s in %s failed:\n%s" % (binname, cfg, p.stdout[-6000:]))
    return os.path.join(tdir, sub, binname)


def parallel(jobs):
    """Runs callables at once; returns their results, raises the first error."""
    res, err = [None] * len(jobs), []

    def w(i):
        try:
            res[i] = jobs[i]()
        except BaseException as e:  # noqa
            err.append(e)

    ts = [threading.Thread(target=w, args=(i,)) for i in range(len(jobs))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return res


def explore_one(exe, tier, deadline, args=(), env=None, tag=""):
    """Runs an explorer to the end. Returns (result, finding)."""
    out = exe + ".%d%s.json" % (os.getpid(), tag)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--tier", tier, "--out", out] + list(args)
    try:
        p = subprocess.run(cmd, env=sh_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=max(10, deadline - time.time()))
    except subprocess.TimeoutExpired:
        raise CheckError("time limit reached in %s" % exe)
    res = None
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        os.unlink(out)
    return judge(p, res, exe)


def judge(p, res, what):
    if p.returncode == 0 and res and res["violation"] is None and res["complete"]:
        return res, None
    if p.returncode == 1 and res and res["violation"]:
        v = res["violation"]
        return res, {"family": v["family"], "index": v["index"], "message": v["message"]}
    m = re.search(r"^CRASH (\d+) (\d+) (\d+)", p.stdout, re.M)
    if p.returncode == 10 and m:
        asan = re.search(r"ERROR: AddressSanitizer: [^\n]*", p.stdout)
        msg = asan.group(0) if asan else "the process was killed by signal %s" % m.group(3)
        return res, {"family": "@" + m.group(1), "index": int(m.group(2)), "message": msg}
    m = re.search(r"^HANG (\d+) (\d+)", p.stdout, re.M)
    if p.returncode == 11 and m:
        return res, {"family": "@" + m.group(1), "index": int(m.group(2)), "message": "the call did not return"}
    raise CheckError("%s ended with %s\n%s" % (what, p.returncode, p.stdout[-3000:]))


def merge(parts):
    """Adds up the results of the shards of one exploration."""
    r = json.loads(json.dumps(parts[0]))
    for p in parts[1:]:
        for k in ("states", "outcomes", "transitions", "traces"):
            r[k] += p[k]
        r["states_capped"] = r["states_capped"] or p["states_capped"]
        r["secs"] = max(r["secs"], p["secs"])
        by = {f["name"]: f for f in r["families"]}
        for f in p["families"]:
            by[f["name"]]["visited"] += f["visited"]
    r["complete"] = all(f["visited"] == f["size"] for f in r["families"]) and all(p["complete"] for p in parts)
    return r


def explore(exe, tier, deadline, unit):
    env = dict(unit["env"])
    if unit["cfg"] == "asan":
        env["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1"
    if not unit["shards"]:
        return explore_one(exe, tier, deadline, env=env)
    n = unit["shards"]
    got = parallel([lambda i=i: explore_one(exe, tier, deadline, ["--threads", "1", "--shard", str(i), str(n)], env, "-%d" % i) for i in range(n)])
    for res, f in got:
        if f:
            return res, f
    r = merge([g[0] for g in got])
    if not r["complete"]:
        raise CheckError("%s: the shards did not cover every family" % exe)
    return r, None


def replay_case(exe, tier, f, env=None):
    """Re-executes one case in a fresh process: True if it fails again."""
    cmd = [exe, "--tier", tier, "--only", f["family"], str(f["index"])]
    try:
        p = subprocess.run(cmd, env=sh_env(env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
    except subprocess.TimeoutExpired:
        return True, "no result after 600 s"
    tail = p.stdout.strip()[-1500:]
    if p.returncode == 0:
        return False, tail
    if p.returncode == 1 and ("REPLAY violation" in p.stdout or "REPLAY hang" in p.stdout):
        return True, tail
    if p.returncode == 10:
        return True, tail
    raise CheckError("replay of %s ended with %s\n%s" % (f, p.returncode, tail))


def miri_env(name):
    target, rf, feats = MIRI[name]
    extra = {
        "CARGO_TARGET_DIR": os.path.join(TARGET, name),
        "MIRI_SYSROOT": os.path.join(TARGET, "sysroot-" + name),
        "MIRIFLAGS": "-Zmiri-disable-isolation",
    }
    if name in CPUS:
        # The standard library is the same for all of them.
        extra["MIRI_SYSROOT"] = os.path.join(TARGET, "sysroot-miri-x86")
        extra["MC_CPU"] = "1"
    if rf:
        extra["RUSTFLAGS"] = rf
    return target, feats, extra


MIRI_LOCK = threading.Lock()


def miri_build(name):
    """Builds Miri's own copy of the standard library for the target."""
    target, _, extra = miri_env(name)
    if name in CPUS:
        extra.pop("RUSTFLAGS", None)
    e = sh_env(extra)
    with MIRI_LOCK if name in CPUS else contextlib.nullcontext():
        p = subprocess.run(["cargo", "+nightly", "miri", "setup", "--target", target], cwd=MC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("miri setup for %s failed:\n%s" % (name, p.stdout[-3000:]))


def miri_run(binname, name, deadline, extra_features=(), only=None, tier="tiny", shard=None):
    target, feats, extra = miri_env(name)
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--target", target, "--features", ",".join(list(feats) + list(extra_features)), "--bin", binname, "--", "--tier", tier, "--out", "-"]
    if only:
        cmd += ["--only", only[0], str(only[1])]
    if shard:
        cmd += ["--shard", str(shard[0]), str(shard[1])]
    try:
        p = subprocess.run(cmd, cwd=MC, env=sh_env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=max(10, deadline - time.time()))
    except subprocess.TimeoutExpired:
        raise CheckError("time limit reached in Miri %s" % name)
    res = None
    m = re.search(r"^RESULT (\{.*\})$", p.stdout, re.M)
    if m:
        res = json.loads(m.group(1))
    ub = re.search(r"error: Undefined Behavior.*?(?=\n\s*= help|\Z)", p.stdout, re.S)
    if only:
        if p.returncode == 0 and "REPLAY ok" in p.stdout:
            return None, None
        if "REPLAY violation" in p.stdout or ub:
            return None, {"family": only[0], "index": only[1], "message": ub.group(0)[:1500] if ub else p.stdout[-1500:]}
        raise CheckError("Miri replay ended with %s\n%s" % (p.returncode, p.stdout[-3000:]))
    if p.returncode == 0 and res and res["violation"] is None and res["complete"]:
        return res, None
    if res and res["violation"]:
        v = res["violation"]
        return res, {"family": v["family"], "index": v["index"], "message": v["message"]}
    if ub:
        # Every case is announced before it runs.
        at = re.findall(r"^CASE (\S+) (\d+)$", p.stdout, re.M)
        if at:
            return res, {"family": at[-1][0], "index": int(at[-1][1]), "message": ub.group(0)[:1500]}
    raise CheckError("Miri %s ended with %s\n%s" % (name, p.returncode, p.stdout[-3000:]))


def miri_all(binname, names, feats, deadline):
    """All shards of all targets, SHARDS at a time. Returns {name: (result, finding)}."""
    width = {m: 1 if m in CPUS else SHARDS for m in names}
    todo = sorted(((m, i) for m in names for i in range(width[m])), key=lambda x: x[1])
    got = {m: [None] * width[m] for m in names}
    found = {}
    it = iter(todo)
    lock = threading.Lock()

    def w():
        while True:
            with lock:
                x = next(it, None)
                if x is None or found:
                    return
            m, i = x
            res, f = miri_run(binname, m, deadline, feats, shard=(i, width[m]))
            got[m][i] = res
            if f:
                with lock:
                    found[m] = f

    parallel([w] * SHARDS)
    out = {}
    for m in names:
        parts = [r for r in got[m] if r]
        out[m] = (merge(parts) if len(parts) == width[m] else (parts[0] if parts else None), found.get(m))
        if not found and not (out[m][0] and out[m][0]["complete"]):
            raise CheckError("Miri %s: the shards did not cover every family" % m)
    return out


def write_replay(prop, cfg, tier, finding, detail, kind="native"):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps([cfg, finding["family"], finding["index"]]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s-%s.json" % (prop, re.sub(r"[^\w+-]", "_", cfg), h))
    with open(path, "w") as f:
        json.dump({"property": prop, "kind": kind, "config": cfg, "tier": tier, "family": finding["family"], "index": finding["index"], "message": finding["message"], "replayed": detail}, f, indent=1)
    return path


def evidence(prop, tier, runs, t0, violations, assumptions, extra=None):
    cov = {
        "states": sum(r["states"] for r in runs.values()),
        "transitions": sum(r["transitions"] for r in runs.values()),
        "traces_validated_against_impl": sum(r["traces"] for r in runs.values()),
        "distinct_outcomes": sum(r["outcomes"] for r in runs.values()),
        "reference_known_answers_checked": sum(r["kat"] for r in runs.values()),
        "exhaustive": violations == 0 and all(r["complete"] for r in runs.values()),
        "configurations": {
            k: {
                "states": r["states"],
                "states_is_lower_bound": r["states_capped"],
                "transitions": r["transitions"],
                "traces": r["traces"],
                "outcomes": r["outcomes"],
                "secs": r["secs"],
                "families": {f["name"]: {"size": f["size"], "visited": f["visited"]} for f in r["families"]},
            }
            for k, r in runs.items()
        },
        "samples": [s for r in list(runs.values())[:1] for s in r["samples"]][:40],
    }
    if extra:
        cov.update(extra)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": cov,
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


ASSUME = [
    "coverage is exactly the families listed, within their stated bounds; nothing is claimed for inputs outside them",
    "the reference model (mc/src/spec.rs) is right; it is compared with OpenSSL known answers on every run",
    "the code is compiled by the installed rustc in the listed configurations",
]


def report(prop, tier, cfg, kind, f, detail, runs, t0, extra):
    path = write_replay(prop, cfg, tier, f, detail, kind)
    evidence(prop, tier, runs, t0, 1, ASSUME, extra)
    log("%s: [%s] %s #%s: %s" % (prop, cfg, f["family"], f["index"], f["message"][:1500]))
    log("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def done(prop, tier, runs, t0, extra):
    evidence(prop, tier, runs, t0, 0, ASSUME, extra)
    log("%s: held on everything explored (%s tier, %.1fs)" % (prop, tier, time.time() - t0))
    return 0


def say(prop, label, res):
    log("%s: %s: %d traces, %d transitions, %d states in %.1fs" % (prop, label, res["traces"], res["transitions"], res["states"], res["secs"]))


def check(prop, tier):
    t0 = time.time()
    deadline = t0 + LIMIT_S[tier]
    if prop == "C09":
        return check_c09(prop, tier, t0, deadline)
    if prop == "C20":
        return check_c20(prop, tier, t0, deadline)
    plan = PLAN[prop]
    binname = plan.get("bin", prop.lower())
    feats = plan.get("features", [])
    units = plan["units"]
    miris = plan.get("miri", [])
    cfgs = []
    for u in units:
        if u["cfg"] not in cfgs:
            cfgs.append(u["cfg"])
    runs, extra = {}, {}
    try:
        exes = dict(zip(cfgs, parallel([lambda c=c: build(binname, c, feats) for c in cfgs] + [lambda m=m: miri_build(m) for m in miris])))
    except ConstEval as e:
        if not plan.get("const_eval"):
            raise CheckError("building %s failed:\n%s" % (binname, e))
        f = {"family": "compiler", "index": 0, "message": "the compiler's evaluation of the crate's const functions failed: %s" % e}
        return report(prop, tier, cfgs[0], "check", f, str(e), runs, t0, extra)
    log("%s: built %s in %.1fs" % (prop, ", ".join(cfgs + miris), time.time() - t0))
    for u in units:
        t = u["tiers"].get(tier, tier)
        res, f = explore(exes[u["cfg"]], t, deadline, u)
        if res:
            runs[u["label"]] = res
        if f:
            again, detail = replay_case(exes[u["cfg"]], t, f, u["env"])
            kind = "native"
            if not again:
                # The case alone passes, so what failed depends on what ran before or beside
                # it: the whole exploration has to fail again.
                first, kind = f, "unit"
                for _ in range(3):
                    _, f = explore(exes[u["cfg"]], t, deadline, u)
                    if f:
                        break
                if not f:
                    raise CheckError("finding does not replay: %s %s\n%s" % (u["label"], first, detail))
                detail = "fails only together with other computations (first seen: %s #%s: %s)" % (first["family"], first["index"], first["message"][:600])
            return report(prop, tier, u["label"], kind, f, detail, runs, t0, extra)
        say(prop, u["label"], res)
    if miris:
        out = miri_all(binname, miris, feats, deadline)
        for m in miris:
            res, f = out[m]
            if res:
                runs[m] = res
            if f:
                _, g = miri_run(binname, m, deadline + 600, feats, only=(f["family"], f["index"]))
                if not g:
                    raise CheckError("finding does not replay: %s %s" % (m, f))
                return report(prop, tier, m, "miri", f, g["message"], runs, t0, extra)
            say(prop, m, res)
    return done(prop, tier, runs, t0, extra)


# ---------------------------------------------------------------- C09: every configuration

FEATURES = ["std", "alloc", "io", "serde", "small-hash", "schemars"]


def combos():
    return [[f for i, f in enumerate(FEATURES) if k >> i & 1] for k in range(1 << len(FEATURES))]


def cargo(cwd, args, tdir, toolchain=None):
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + args
    return subprocess.run(cmd, cwd=cwd, env=sh_env({"CARGO_TARGET_DIR": tdir}), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def compile_failure(p):
    """The compiler's message if the crate itself (or the same caller code that compiles in the
    other combinations) was rejected; anything else is an accident."""
    if p.returncode == 0:
        return None
    if re.search(r"could not compile `(chf|pure|mc)`", p.stdout) and re.search(r"^error(\[E\d+\])?: ", p.stdout, re.M) and "No space left" not in p.stdout:
        m = re.search(r"^error.*", p.stdout, re.M | re.S)
        return m.group(0)[:2500]
    raise CheckError("build ended with %s\n%s" % (p.returncode, p.stdout[-3000:]))


def combo_name(c):
    return "+".join(c) or "none"


def pool(jobs, width):
    """Runs jobs (callables taking a worker number), `width` at a time; stops early once one
    returns a finding. Returns all results."""
    res = [None] * len(jobs)
    it = iter(range(len(jobs)))
    lock = threading.Lock()
    stop = []

    def w(k):
        while True:
            with lock:
                i = next(it, None)
                if i is None or stop:
                    return
            res[i] = jobs[i](k)
            if res[i] and res[i][1]:
                stop.append(i)

    parallel([lambda k=k: w(k) for k in range(width)])
    return res


def c09_build_only(c, k):
    """The crate alone with exactly these features."""
    p = cargo(os.path.join(HERE, "pure"), ["check", "--offline", "--features", ",".join(c)], os.path.join(TARGET, "pure-%d" % k))
    m = compile_failure(p)
    return None, ({"family": "build", "index": combos().index(c), "message": "does not compile with features [%s]:\n%s" % (", ".join(c), m)} if m else None)


def c09_bare(c):
    """The same for a target that has no standard library."""
    p = cargo(os.path.join(HERE, "pure"), ["check", "--offline", "-Zbuild-std=core,alloc", "--target", "thumbv7m-none-eabi", "--features", ",".join(c)], os.path.join(TARGET, "pure-bare"), "+nightly")
    m = compile_failure(p)
    return None, ({"family": "build-no-std-target", "index": combos().index(c), "message": "does not compile for thumbv7m-none-eabi with features [%s]:\n%s" % (", ".join(c), m)} if m else None)


def c09_probe(c, k, profile, tier, deadline, only=None):
    tdir = os.path.join(TARGET, "combo-%d" % k)
    p = cargo(MC, ["build", "--offline", "--profile", profile, "--features", ",".join(c), "--bin", "c09"], tdir)
    m = compile_failure(p)
    if m:
        return None, {"family": "build", "index": combos().index(c), "message": "does not compile with features [%s]:\n%s" % (", ".join(c), m), "build": True}
    exe = os.path.join(tdir, profile, "c09")
    if only:
        again, detail = replay_case(exe, tier, only)
        return (None, dict(only, message=detail)) if again else (None, None)
    return explore_one(exe, tier, deadline, ["--threads", "2"], tag="-%s-%s" % (combo_name(c), profile))


def check_c09(prop, tier, t0, deadline, replay_of=None):
    runs, extra = {}, {}
    if replay_of:
        kind, cfg, f = replay_of["kind"], replay_of["config"], replay_of
        if kind == "combo":
            name, profile = cfg.split("/")
            c = [] if name == "none" else name.split("+")
            if f["family"] == "build":
                g = c09_build_only(c, 0)[1] or c09_probe(c, 0, profile, "quick", deadline)[1]
            elif f["family"] == "build-no-std-target":
                g = c09_bare(c)[1]
            else:
                g = c09_probe(c, 0, profile, "quick", deadline, only=f)[1]
        else:
            miri_build(cfg)
            g = miri_run("c09", cfg, deadline, [], only=(f["family"], f["index"]))[1]
        log(g["message"] if g else "ok")
        return 1 if g else 0
    miris = list(MIRI)
    cs = combos()
    # Group the combinations by their dependency features so that each worker's target
    # directory reuses its dependencies.
    order = sorted(cs, key=lambda c: ("schemars" in c, "serde" in c, "std" in c, "alloc" in c, "io" in c))
    # 1. The crate alone, every combination; and without std on a bare target.
    jobs = [lambda k, c=c: c09_build_only(c, k) for c in order]
    bare = [c for c in cs if "std" not in c and "schemars" not in c]
    res = []

    def all_bare():
        for c in bare:
            r = c09_bare(c)
            res.append(r)
            if r[1]:
                return

    two = parallel([lambda: pool(jobs, 6), all_bare] + [lambda m=m: miri_build(m) for m in miris])
    for name, rs in (("native", two[0]), ("bare", res)):
        for r in rs:
            if r and r[1]:
                f = r[1]
                c = cs[f["index"]]
                again = c09_build_only(c, 0)[1] if name == "native" else c09_bare(c)[1]
                if not again:
                    raise CheckError("build failure does not repeat: %s" % f["message"])
                return report(prop, tier, combo_name(c) + "/release", "combo", f, f["message"], runs, t0, extra)
    extra["feature_combinations_compiled"] = len(cs)
    extra["bare_target_combinations_compiled"] = len(bare)
    log("%s: %d feature combinations compile, %d of them also for a target without std (%.1fs)" % (prop, len(cs), len(bare), time.time() - t0))
    # 2. Results in every combination.
    # The optimised build without, and the build with, debug assertions.
    plans = [(c, "release") for c in order] + [(c, "checked") for c in order if tier == "thorough" or ("schemars" not in c and not ("std" in c and ("alloc" in c or "io" in c)))]
    # Each worker takes a contiguous run of combinations, so that its target directory is reused.
    rs = pool([lambda k, c=c, pr=pr: c09_probe(c, k, pr, tier, deadline) for c, pr in plans], 8)
    for (c, pr), r in zip(plans, rs):
        if not r:
            continue
        label = combo_name(c) + "/" + pr
        if r[0]:
            runs[label] = r[0]
        if r[1]:
            f = r[1]
            g = c09_probe(c, 0, pr, tier, deadline, only=None if f.get("build") else f)[1]
            if not g:
                raise CheckError("finding does not replay: %s %s" % (label, f))
            return report(prop, tier, label, "combo", f, g["message"], runs, t0, extra)
    log("%s: %d configurations, %d traces (%.1fs)" % (prop, len(runs), sum(r["traces"] for r in runs.values()), time.time() - t0))
    # 3. SHA instructions, big-endian and 32-bit targets, interpreted.
    out = miri_all("c09", miris, [], deadline)
    for m in miris:
        r, f = out[m]
        if r:
            runs[m] = r
        if f:
            _, g = miri_run("c09", m, deadline + 600, [], only=(f["family"], f["index"]))
            if not g:
                raise CheckError("finding does not replay: %s %s" % (m, f))
            return report(prop, tier, m, "miri", f, g["message"], runs, t0, extra)
        say(prop, m, r)
    return done(prop, tier, runs, t0, extra)


# ---------------------------------------------------------------- C20: JSON schemas


def c20_eval(exe, tier, deadline, only=None):
    emitted, out = exe + ".%d.jsonl" % os.getpid(), exe + ".%d.out" % os.getpid()
    try:
        with open(emitted, "w") as f:
            p = subprocess.run([exe, tier], stdout=f, stderr=subprocess.PIPE, text=True, timeout=600)
        if p.returncode != 0:
            if "panicked at" in p.stderr and "/repo/src" in p.stderr:
                return None, {"family": "emit", "index": 0, "message": p.stderr[-1500:]}
            raise CheckError("%s ended with %s\n%s" % (exe, p.returncode, p.stderr[-2000:]))
        cmd = ["python3-vt", os.path.join(HERE, "tools", "schema_check.py"), emitted, tier, out] + ([only["family"], str(only["index"])] if only else [])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=max(10, deadline - time.time()))
        if not os.path.exists(out):
            raise CheckError("schema_check.py ended with %s\n%s" % (p.returncode, p.stdout[-3000:]))
        with open(out) as f:
            res = json.load(f)
        return judge(p, res, "schema_check.py")
    finally:
        for x in (emitted, out):
            if os.path.exists(x):
                os.unlink(x)


def check_c20(prop, tier, t0, deadline, replay_of=None):
    runs, extra = {}, {}
    cfgs = ["std-chk", "core-rel"]
    if replay_of:
        exe = build("c20", replay_of["config"], ["serde", "schemars"])
        _, f = c20_eval(exe, replay_of["tier"], deadline, replay_of)
        log(f["message"] if f else "ok")
        return 1 if f else 0
    exes = parallel([lambda c=c: build("c20", c, ["serde", "schemars"]) for c in cfgs])
    for c, exe in zip(cfgs, exes):
        res, f = c20_eval(exe, tier, deadline)
        if res:
            runs[c] = res
        if f:
            _, g = c20_eval(exe, tier, deadline, f if f["family"] != "emit" else None)
            if not g:
                raise CheckError("finding does not replay: %s %s" % (c, f))
            return report(prop, tier, c, "schema", f, g["message"], runs, t0, extra)
        say(prop, c, res)
    return done(prop, tier, runs, t0, extra)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = r["property"]
    deadline = time.time() + 900
    if prop == "C09":
        return check_c09(prop, r["tier"], time.time(), deadline, r)
    if prop == "C20":
        return check_c20(prop, r["tier"], time.time(), deadline, r)
    plan = PLAN[prop]
    binname = plan.get("bin", prop.lower())
    feats = plan.get("features", [])
    if r["kind"] == "native":
        u = [u for u in plan["units"] if u["label"] == r["config"]][0]
        exe = build(binname, u["cfg"], feats)
        again, detail = replay_case(exe, u["tiers"].get(r["tier"], r["tier"]), r, u["env"])
        log(detail)
        return 1 if again else 0
    if r["kind"] == "miri":
        miri_build(r["config"])
        _, f = miri_run(binname, r["config"], deadline, feats, only=(r["family"], r["index"]))
        log(f["message"] if f else "ok")
        return 1 if f else 0
    return check(prop, r["tier"])


def known_findings(prop):
    """Prints the committed findings that are not repaired (none suppresses anything else)."""
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for line in f:
            if line.startswith("finding: property=%s " % prop):
                log("KNOWN-FINDING: " + line[len("finding: "):].strip())


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            # Warm the build caches; checks rebuild whatever changed.
            parallel([lambda c=c: build("c01", c) for c in ALL])
            return 0
        if a[0] == "replay":
            return replay(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        known_findings(a[1])
        return check(a[1], tier)
    except CheckError as e:
        log("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
