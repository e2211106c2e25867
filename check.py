#!/usr/bin/env python3
"""Decide one property by running the real code under monitors.

    check.py C04                 run the check (VERIF_TIER, VERIF_SEED)
    check.py --replay FILE       rerun the case of a replay file
    check.py --setup             build what the quick checks use most

Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken.
Exit 2: inconclusive (build of the harness failed, watchdog, too little seen).
"""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(ROOT, "replays")
VARIANTS = ["509", "677", "821", "701"]
NAMES = {"509": "ntruhps2048509", "677": "ntruhps2048677", "821": "ntruhps4096821", "701": "ntruhrss701"}
SIZES = {"509": (699, 935, 699), "677": (930, 1234, 930), "821": (1230, 1590, 1230), "701": (1138, 1450, 1138)}
HOST = "x86_64-unknown-linux-gnu"
WORKERS = max(2, os.cpu_count() or 2)
T0 = time.time()

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
USEED = SEED & 0xFFFFFFFFFFFFFFFF
# generous wall-clock limit: firing means inconclusive, never a verdict
DEADLINE = T0 + (840 if TIER == "quick" else 6 * 3600)


class Inconclusive(Exception):
    pass


def say(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ builds

class Config:
    """One way of building the harness together with the library."""

    def __init__(self, profile="release", flags="", nightly=False, target=None, args=(), wrap=(), env=None, tag=None, crate="harness", benv=None):
        self.profile, self.flags, self.nightly, self.target = profile, flags, nightly, target
        self.args, self.wrap, self.env, self.tag = list(args), list(wrap), dict(env or {}), tag
        self.crate, self.benv = crate, dict(benv or {})


def opt(level):
    # the library and the code instantiated from it at the given level
    pk = "profile.release.package."
    return ["--config", pk + "ntrust-native.opt-level=" + level, "--config", pk + "monitors.opt-level=" + level]


TRACED = {"RUSTC_WRAPPER": os.path.join(ROOT, "steer", "traced-rustc.sh")}
VALGRIND = ["valgrind", "-q", "--error-limit=no", "--num-callers=20", "--log-file={out}.vg"]
CONFIGS = {
    "release": Config(),
    "checked": Config(profile="checked"),
    "dev": Config(profile="dev"),
    "asan": Config(profile="dev", flags="-Zsanitizer=address", nightly=True, target=HOST,
                   env={"ASAN_OPTIONS": "exitcode=98:detect_leaks=0:abort_on_error=0:handle_abort=0"}),
    "tsan": Config(flags="-Zsanitizer=thread", nightly=True, target=HOST, args=["-Zbuild-std"],
                   env={"TSAN_OPTIONS": "exitcode=66:halt_on_error=0"}),
    "memcheck": Config(profile="aswritten", wrap=VALGRIND, tag="aswritten"),
    "aswritten": Config(profile="aswritten"),
    "taint": Config(profile="aswritten", wrap=VALGRIND, tag="aswritten"),
    "taint-O3": Config(wrap=VALGRIND, tag="release"),
    "counted": Config(wrap=["valgrind", "-q", "--tool=callgrind", "--instr-atstart=no", "--callgrind-out-file={out}.cg"], tag="release"),
    "O0": Config(args=opt("0"), tag="levels"),
    "O1": Config(args=opt("1"), tag="levels"),
    "O2": Config(args=opt("2"), tag="levels"),
    "Os": Config(args=opt('"s"'), tag="levels"),
    "native": Config(flags="-Ctarget-cpu=native"),
    "softaes": Config(flags="--cfg aes_force_soft"),
    "abort": Config(args=[x for k in ("panic='abort'", "lto='fat'", "codegen-units=1") for x in ("--config", "profile.release." + k)]),
    "steered": Config(nightly=True, crate="steer", benv=TRACED),
    "steered-checked": Config(profile="checked", nightly=True, crate="steer", benv=TRACED, tag="steered"),
}


def features(variant):
    # the smallest variant is the default: select it by selecting nothing
    return [] if variant == "509" else ["--features", "v" + variant]


def clean_env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["XDG_CACHE_HOME"] = os.path.join(TARGET, "cache")
    e.update(extra or {})
    return e


def left():
    r = DEADLINE - time.time()
    if r <= 1:
        raise Inconclusive("out of time")
    return r


def run(cmd, timeout=None, env=None, cwd=None):
    """(rc, stdout+stderr); rc is None after a timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env or clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout or left())
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ""


def build(variant, cname, bins=("monitor",)):
    """Paths of the binaries, copied out so that configurations can share a target directory."""
    c = CONFIGS[cname]
    tdir = os.path.join(TARGET, "%s-%s" % (c.tag or cname, variant))
    cmd = ["cargo"] + (["+nightly"] if c.nightly else []) + ["build", "--offline", "--locked", "--profile", c.profile, "--target-dir", tdir]
    cmd += features(variant) + c.args
    if c.target:
        cmd += ["--target", c.target]
    for b in bins:
        cmd += ["--bin", b]
    env = clean_env(dict(c.benv, RUSTFLAGS=c.flags) if c.flags else c.benv)
    rc, out = run(cmd, env=env, cwd=os.path.join(ROOT, c.crate))
    if rc != 0:
        raise Inconclusive("build of %s for variant %s failed:\n%s" % (cname, variant, out[-3000:]))
    pdir = "debug" if c.profile == "dev" else c.profile
    src = os.path.join(tdir, *([c.target] if c.target else []), pdir)
    dst = os.path.join(TARGET, "bin", "%s-%s" % (cname, variant))
    os.makedirs(dst, exist_ok=True)
    res = {}
    for b in bins:
        tmp = tempfile.mktemp(dir=dst)
        shutil.copy2(os.path.join(src, b), tmp)
        res[b] = os.path.join(dst, b)
        os.replace(tmp, res[b])
    return res


def build_all(wanted):
    """wanted: list of (variant, config, bins). Same target directory -> one after the other."""
    groups = {}
    for v, c, b in wanted:
        groups.setdefault((CONFIGS[c].tag or c, v), []).append((v, c, b))
    res = {}

    def one(g):
        return [((v, c), build(v, c, b)) for v, c, b in g]

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for r in ex.map(one, groups.values()):
            res.update(r)
    say("built", len(res), "configurations")
    return res


# ------------------------------------------------------------------ jobs

CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


class Job:
    def __init__(self, variant, config, binary, prop, start, count, extra=None, weight=1.0, bins=("monitor",), corpus=None):
        self.variant, self.config, self.binary, self.prop, self.corpus = variant, config, binary, prop, corpus
        self.start, self.count, self.extra, self.weight, self.bins = start, count, extra, weight, bins


def whole(job):
    """The cases of one process belong together."""
    return job.prop in ("C10", "history", "races", "C19", "C22") or job.config.startswith("steered")


class Outcome:
    def __init__(self):
        self.report, self.violations, self.problem, self.log, self.wall, self.fp = None, [], None, "", 0.0, set()
        self.corpus = []


def run_job(job, work, seed=None, confirm=True):
    c = CONFIGS[job.config]
    o = Outcome()
    t = time.time()
    out = tempfile.mktemp(prefix="%s-%s-%s-" % (job.prop, job.variant, job.config), dir=work)
    name = os.path.basename(job.binary)
    args = [job.prop] if name in ("monitor", "steer") else []
    args += ["--seed", str(USEED if seed is None else seed), "--start", str(job.start), "--count", str(job.count), "--out", out]
    if job.extra is not None:
        args += ["--extra", str(job.extra)]
    if job.corpus:
        args += ["--corpus", job.corpus]
    cmd = [x.replace("{out}", out) for x in c.wrap] + [job.binary] + args
    try:
        rc, log = run(cmd, env=clean_env(c.env), cwd=work)
    except Inconclusive as e:
        o.problem = str(e)
        return o
    o.wall = time.time() - t
    o.log = log
    if os.path.exists(out + ".vg"):
        o.log += open(out + ".vg", errors="replace").read()
    case = job.start
    try:
        case = int(open(out + ".progress").read().strip() or job.start)
    except (OSError, ValueError):
        pass

    def died(what):
        """The process ended in the middle of a case: rerun just that case."""
        if confirm and whole(job):
            if not run_job(job, work, seed, False).violations:
                o.problem = "%s, not reproducible" % what
                return
        elif confirm:
            again = run_job(Job(job.variant, job.config, job.binary, job.prop, case, 1, job.extra, bins=job.bins, corpus=job.corpus), work, seed, False)
            if not again.violations:
                # not reproduced alone: run the shard up to that case once more
                again = run_job(Job(job.variant, job.config, job.binary, job.prop, job.start, case - job.start + 1, job.extra, bins=job.bins, corpus=job.corpus), work, seed, False)
            if not again.violations:
                o.problem = "%s in case %d, not reproducible" % (what, case)
                return
        o.violations.append({"case": case, "what": what, "detail": {"log": o.log[-4000:]}})

    if rc is None:
        o.problem = "watchdog: %s %s variant %s shard %d did not finish" % (job.prop, job.config, job.variant, job.start)
    elif rc in (0, 1) and os.path.exists(out):
        o.report = json.load(open(out))
        o.violations = o.report["violations"]
        for v in o.violations:
            if c.wrap and "detail" in v:
                v["detail"]["memcheck"] = o.log[-6000:]
        if os.path.exists(out + ".corpus"):
            o.corpus = open(out + ".corpus").read().split("\n")
        raw = open(out + ".fp", "rb").read()
        o.fp = set(struct.unpack("<%dQ" % (len(raw) // 8), raw))
    elif rc == 70 and os.path.exists(out + ".hang"):
        died("one call did not return within 120 s of CPU time")
    elif rc == 98 and job.config == "asan":
        m = re.search(r"ERROR: AddressSanitizer: ([a-z-]+)", log)
        died("AddressSanitizer: %s" % (m.group(1) if m else "error"))
    elif rc == 66 and job.config == "tsan":
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z ]+)", log)
        # schedules differ from run to run, so the report itself is the evidence
        o.violations.append({"case": job.start, "what": "ThreadSanitizer: %s" % (m.group(1).strip() if m else "report"), "detail": {"log": log[:6000]}})
    elif rc < 0 and -rc in CRASH:
        died("process killed by %s inside the library" % signal.Signals(-rc).name)
    else:
        o.problem = "%s %s variant %s shard %d ended with %s: %s" % (job.prop, job.config, job.variant, job.start, rc, o.log[-1500:])
    return o


def shards(variant, config, binary, prop, total, parts, weight=1.0, extra=None, bins=("monitor",)):
    res = []
    step = -(-total // parts)
    s = 0
    while s < total:
        n = min(step, total - s)
        res.append(Job(variant, config, binary, prop, s, n, extra, weight * n, bins))
        s += n
    return res


# ------------------------------------------------------------------ verdict

class Result:
    """Everything observed by one check."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.distinct = set()
        self.classes = {}
        self.samples = []
        self.configs = {}
        self.violations = []  # (what, replay dict)
        self.problems = []
        self.extra = {}
        self.calls = 0

    def add(self, job, o):
        key = "%s/%s" % (NAMES[job.variant], job.config)
        c = self.configs.setdefault(key, {"evaluations": 0, "library_calls": 0, "process_seconds": 0.0})
        c["process_seconds"] = round(c["process_seconds"] + o.wall, 1)
        if o.problem:
            self.problems.append(o.problem)
        if o.report:
            self.evaluations += o.report["evaluations"]
            self.calls += o.report["library_calls"]
            c["evaluations"] += o.report["evaluations"]
            c["library_calls"] += o.report["library_calls"]
            self.distinct |= {(job.variant, f) for f in o.fp}
            for k, n in o.report["classes"].items():
                self.classes[k] = self.classes.get(k, 0) + n
            if o.report["samples"]:
                self.samples.append("%s: %s" % (key, o.report["samples"][len(self.samples) % len(o.report["samples"])]))
        for v in o.violations:
            self.violations.append((v["what"], {
                "kind": "monitor", "variant": job.variant, "config": job.config, "prop": job.prop,
                "case": job.start if job.config.startswith("steered") else v["case"],
                "count": job.count if whole(job) else 1, "extra": job.extra,
                "corpus": open(job.corpus).read() if job.corpus else None,
                "bins": [os.path.basename(job.binary)], "detail": v.get("detail", {})}))

    def merge(self, r):
        self.evaluations += r.evaluations
        self.calls += r.calls
        self.distinct |= r.distinct
        for k, n in r.classes.items():
            self.classes[k] = self.classes.get(k, 0) + n
        self.samples = self.samples[:12] + r.samples
        self.configs.update(r.configs)
        self.violations += r.violations
        self.problems += r.problems
        self.extra.update(r.extra)

    def observe(self, fingerprint, config, sample=None, cls=None, calls=1):
        """One evaluation made by this script itself."""
        self.evaluations += 1
        self.calls += calls
        self.distinct.add(fingerprint)
        c = self.configs.setdefault(config, {"evaluations": 0})
        c["evaluations"] += 1
        if cls:
            self.classes[cls] = self.classes.get(cls, 0) + 1
        if sample and len(self.samples) < 16:
            self.samples.append(sample)


def known_signatures(prop):
    res = []
    try:
        for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\S+) signature=(.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop:
                res.append(m.group(2))
    except OSError:
        pass
    return res


def run_jobs(res, jobs, work):
    jobs = sorted(jobs, key=lambda j: -j.weight)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for job, o in zip(jobs, ex.map(lambda j: run_job(j, work), jobs)):
            res.add(job, o)
    say("ran", len(jobs), "monitor processes")


def conclude(res, meta, expected):
    prop = res.prop
    known = known_signatures(prop)
    fresh = []
    for what, rep in res.violations:
        if what in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        else:
            fresh.append((what, rep))
    samples = res.samples[:16]
    coverage = {
        "evaluations": res.evaluations,
        "distinct_nontrivial": len(res.distinct),
        "rule": meta["rule"],
        "samples": samples,
        "library_calls": res.calls,
        "observed": dict(sorted(res.classes.items())),
        "configurations": res.configs,
    }
    if meta.get("exhaustive"):
        coverage["exhaustive"] = bool(not res.problems)
    coverage.update(res.extra)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": meta["level"], "coverage": coverage,
        "assumptions": meta.get("assumptions", []), "violations": len(fresh), "wall_s": round(time.time() - T0, 1),
    }
    if res.problems:
        ev["coverage"]["inconclusive"] = [p[:500] for p in res.problems[:5]]
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    if fresh:
        os.makedirs(REPLAYS, exist_ok=True)
        seen = set()
        for what, rep in fresh:
            key = re.sub(r"[0-9a-f]{6,}|\d+", "#", what)
            if key in seen or len(seen) >= 5:
                continue
            seen.add(key)
            rp = os.path.join(REPLAYS, "%s-%d-%d.json" % (prop, USEED, len(seen)))
            rep.update({"property": prop, "seed": USEED, "what": what})
            with open(rp, "w") as f:
                json.dump(rep, f, indent=1)
                f.write("\n")
            say("%s: %s [%s]" % (prop, what[:600], rep.get("variant", "") + " " + rep.get("config", "")))
            print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        return 1
    if res.problems:
        for p in res.problems[:3]:
            say("inconclusive:", p)
        return 2
    if res.evaluations < expected or not res.distinct:
        say("inconclusive: only %d evaluations observed, %d expected" % (res.evaluations, expected))
        return 2
    say("%s held: %d evaluations, %d distinct" % (prop, res.evaluations, len(res.distinct)))
    return 0


# ------------------------------------------------------------------ properties
# quick case counts per variant; thorough multiplies them

MULT = 1 if TIER == "quick" else 12
W = {"509": 1.0, "677": 1.7, "821": 2.4, "701": 1.9}
INPUTS = "counted once per parameter set and input bytes; "
MONITORS = {
    # prop: ([(config, cases per variant, processes per variant, weight of a case)], rule, least share of cases evaluated)
    "C01": ([("release", 6000, 6, 1)], INPUTS + "an exchange with a key whose polynomials are not all zero", 0.8),
    "C02": ([("release", 14000, 6, 1)], INPUTS + "a key generation for which the scheme is defined, compared with the specification", 0.8),
    "C03": ([("release", 40000, 6, 1)], INPUTS + "an encapsulation compared with the model", 0.9),
    "C04": ([("release", 48000, 6, 1)], INPUTS + "a decapsulation compared with the model", 0.8),
    "C05": ([("release", 44000, 6, 1)], INPUTS + "only inputs that must be rejected count, genuine ones are the control group", 0.8),
    "C06": ([("release", 10000, 6, 1)], INPUTS + "a generated key pair whose relations were all evaluated", 0.8),
    "C07": ([("release", 48000, 6, 1)], INPUTS + "one sampled pair of polynomials recovered and compared", 0.8),
    "C08": ([("release", 12000, 2, 1), ("checked", 12000, 2, 1), ("dev", 1500, 2, 6)], "distinct histories of requests, reseeds and copies", 0.9),
    "C09": ([("release", 18000, 4, 1), ("checked", 2400, 2, 1)], INPUTS + "an operation run with a monitored source, healthy or failing", 0.9),
    "C11": ([("checked", 45000, 6, 1), ("dev", 1600, 3, 20), ("release", 30000, 3, 1)], INPUTS + "an operation run to completion on a distinct input", 0.9),
    "C17": ([("release", 36000, 6, 1)], INPUTS + "an emitted key pair or ciphertext that was decoded and re-encoded", 0.9),
    "C18": ([("release", 3600, 6, 1)], INPUTS + "an encapsulation, or the neighbourhood of one rejected ciphertext, compared with its siblings", 0.8),
    "C21": ([("release", 40000, 1, 1), ("dev", 8000, 1, 5)], "distinct pairs of generator states compared, printed, copied and run", 0.9),
}
ASSUME = ["the model in /verif/model implements NTRU round 3, SHA3-256 and AES-256 CTR_DRBG (checked at every start against published vectors)"]
LEVEL = {"C09": "fault_enumeration"}


# searches per variant, inputs aimed at by following the comparisons of the code
STEERED = {"C21": (), "C11": ("steered", "steered-checked"), "C08": ("steered", "steered-checked")}


def steered(prop):
    return STEERED.get(prop, ("steered",))


def steer_builds(prop):
    return [(v, c, ("steer",)) for v in VARIANTS for c in steered(prop)]


def steer_jobs(prop, bins):
    n = 1 if TIER == "quick" else 6
    # the arithmetic checks add many comparisons that never fail
    percent = {"steered": 100, "steered-checked": 20}
    return [Job(v, c, bins[(v, c)]["steer"], prop, k, 1, percent[c] * (1 if TIER == "quick" else 4), 8000 * W[v], ("steer",))
            for v in VARIANTS for c in steered(prop) for k in range(n)]


def found_jobs(res, prop, bins, uses, work):
    """Jobs that run inputs found by the search under other instruments.
    uses: list of (config, binary, name given to the binary, at most so many inputs, weight)"""
    search = [Job(v, "steered", bins[(v, "steered")]["steer"], "corpus", k, 1, 100 if TIER == "quick" else 400, W[v], ("steer",))
              for v in VARIANTS for k in range(1 if TIER == "quick" else 3)]
    lists = {v: {} for v in VARIANTS}
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for job, o in zip(search, ex.map(lambda j: run_job(j, work), search)):
            if o.violations and prop != "C12":
                o.problem, o.violations = "the search ended early: " + o.violations[0]["what"], []
            if o.problem or o.violations:
                res.add(job, o)
                continue
            for k, n in o.report["classes"].items():
                res.classes["search, " + k] = res.classes.get("search, " + k, 0) + n
            for l in o.corpus:
                if l:
                    lists[job.variant].setdefault(l.split(" ")[0], []).append(l)
    jobs = []
    for v in VARIANTS:
        # all operations in turn, so that a short prefix has something of everything
        ops = [list(reversed(x)) for _, x in sorted(lists[v].items())]
        mixed = []
        while any(ops):
            mixed += [x.pop() for x in ops if x]
        path = os.path.join(work, "found-" + v)
        with open(path, "w") as f:
            f.write("\n".join(mixed))
        for c, b, name, most, w in uses:
            n = min(len(mixed), most)
            if n:
                jobs.append(Job(v, c, bins[(v, c)][b], name, 0, n, None, w * n * W[v], (b,), path))
    say("search found", sum(len(x) for l in lists.values() for x in l.values()), "inputs")
    return jobs


def check_monitors(prop, work):
    plan, rule, share = MONITORS[prop]
    res = Result(prop)
    bins = build_all([(v, c, ("monitor",)) for c, _, _, _ in plan for v in VARIANTS] + steer_builds(prop))
    jobs, expected = steer_jobs(prop, bins), 0
    for c, n, parts, w in plan:
        for v in VARIANTS:
            total = n * MULT
            expected += int(total * share)
            jobs += shards(v, c, bins[(v, c)]["monitor"], prop, total, parts * (1 if TIER == "quick" else 4), w * W[v])
    run_jobs(res, jobs, work)
    return conclude(res, {"rule": rule, "level": LEVEL.get(prop, "exploration"), "assumptions": ASSUME}, expected)


def check_c10(work):
    res = Result("C10")
    tsan = ["509", "701"] if TIER == "quick" else VARIANTS
    bins = build_all([(v, "release", ("monitor",)) for v in VARIANTS] + [(v, "tsan", ("monitor",)) for v in tsan] + steer_builds("C10"))
    jobs = steer_jobs("C10", bins)
    for v in VARIANTS:
        # these processes use all cores themselves
        for k in range(2 if TIER == "quick" else 12):
            jobs.append(Job(v, "release", bins[(v, "release")]["monitor"], "C10", 8 * k, 8, 8, 100 * W[v]))
        # family of calls, number of calls in one process
        for family, n in ((0, 66000 if v == "509" else 4000), (1, 70000), (3, 70000), (7, 1100000)) if TIER == "quick" else ((0, 70000), (1, 140000), (3, 140000), (7, 20000000)):
            jobs.append(Job(v, "release", bins[(v, "release")]["monitor"], "history", family, n, None, 50 * W[v]))
    for v in tsan:
        for k in range(1 if TIER == "quick" else 4):
            jobs.append(Job(v, "tsan", bins[(v, "tsan")]["monitor"], "races", 8 * k, 8, None, 1))
    run_jobs(res, jobs, work)
    return conclude(res, {"rule": "distinct calls (operation and all its input bytes) whose result was compared with that of a fresh process",
                          "level": "exploration"}, 1000)


# -------------------------------------------------------------- Miri

MIRI_FAST = ("-Zmir-opt-level=2 -Zinline-mir=yes -Coverflow-checks=off -Cdebug-assertions=off",
             "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-alignment-check")
MIRI_MID = ("-Zmir-opt-level=2 -Zinline-mir=yes -Coverflow-checks=off -Cdebug-assertions=off", "-Zmiri-disable-stacked-borrows")
MIRI_FULL = ("", "")
# seconds kept for the verdict when interpreted runs take long
RESERVE = 90 if TIER == "quick" else 600
COST = {"key": 30, "enc": 1, "dec": 4, "rng": 0.1, "ctr": 0.1}


def miri_setup(targets):
    for t in targets:
        rc, out = run(["cargo", "+nightly", "miri", "setup", "--target", t], cwd=os.path.join(ROOT, "harness"))
        if rc != 0:
            raise Inconclusive("Miri cannot be set up for %s: %s" % (t, out[-800:]))


def miri_build(variant, target, mode):
    """Compile (not run) for the interpreter, so that runs can go in parallel."""
    return miri(variant, target, mode, [], probe=True)


def miri(variant, target, mode, cases, probe=False):
    """Runs portable cases under Miri; returns (rc, list of output lines, log)."""
    flags, mflags = mode
    tag = {MIRI_FAST: "fast", MIRI_MID: "mid", MIRI_FULL: "full"}[mode]
    tdir = os.path.join(TARGET, "miri-%s-%s" % (tag, variant))
    env = clean_env({"MIRIFLAGS": mflags, "RUSTFLAGS": flags})
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet", "--target", target, "--target-dir", tdir]
    cmd += features(variant) + ["--bin", "portable", "--", "run"] + cases
    p = subprocess.Popen(cmd, cwd=os.path.join(ROOT, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        out, err = p.communicate(timeout=left() if probe else max(left() - RESERVE, 1))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, [], "watchdog"
    return p.returncode, out.decode().split(), err.decode("utf-8", "replace")


def portable_cases(binary, count):
    rc, out = run([binary, "list", str(USEED), str(count)])
    if rc != 0:
        raise Inconclusive("cannot make transcript cases: " + out[-500:])
    return [tuple(l.split("\t")) for l in out.split("\n") if "\t" in l]


def miri_ub(err):
    """The interpreter's own verdict, if it is about the program."""
    m = re.search(r"error: (Undefined Behavior: .*)", err)
    if m:
        return m.group(1)
    return None


def miri_runs(res, plan, work, ub_only):
    """plan: list of (variant, target, mode, [(case, expected)...])
    A library that has become slow is interpreted on fewer cases, but on some for
    every parameter set and target."""
    done, cut = set(), []

    def one(item):
        v, t, mode, cases = item
        t1 = time.time()
        if left() < RESERVE + 5:
            return item, None, [], "not started", 0
        rc, lines, err = miri(v, t, mode, [c for c, _ in cases])
        return item, rc, lines, err, time.time() - t1

    # compile first, one compile per target directory at a time
    dirs = {}
    for v, t, mode, _ in plan:
        dirs.setdefault((v, mode), set()).add(t)
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        list(ex.map(lambda k: [miri_build(k[0], t, k[1]) for t in sorted(dirs[k])], dirs))
    say("compiled for the interpreter")
    # a short one for everything first, then the longest
    first = {}
    for i, item in enumerate(plan):
        first.setdefault(item[:2], i)
    order = sorted(range(len(plan)), key=lambda i: (first[plan[i][:2]] != i, -sum(COST[c[0][:3]] for c in plan[i][3]) * W[plan[i][0]]))
    plan = [plan[i] for i in order]
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for (v, t, mode, cases), rc, lines, err, wall in ex.map(one, plan):
            cfg = "%s/miri %s" % (NAMES[v], t)
            ops = ",".join(c[0].split(":")[0] for c in cases)
            rep = {"kind": "miri", "variant": v, "config": "miri", "target": t, "mode": list(mode), "cases": [list(c) for c in cases], "detail": {"log": err[-5000:]}}
            ub = miri_ub(err)
            if ub:
                res.violations.append(("%s under Miri (%s): %s" % (ops, t, ub[:300]), rep))
                continue
            if rc is None:
                cut.append("%s for %s on %s" % (ops, v, t))
                continue
            done.add((v, t))
            if rc != 0 or len(lines) < len(cases):
                # "failed: ..." lines contain spaces; an abnormal end is only an error of the check
                if "failed:" in " ".join(lines) and not ub_only:
                    res.violations.append(("%s fails under Miri (%s): %s" % (ops, t, " ".join(lines)[-300:]), rep))
                else:
                    res.problems.append("Miri ended with %s for %s %s on %s: %s" % (rc, v, ops, t, err[-800:]))
                continue
            if "failed:" in lines and not ub_only:
                res.violations.append(("%s fails under Miri (%s): %s" % (ops, t, " ".join(lines)[-300:]), rep))
                continue
            for (case, want), got in zip(cases, lines):
                op = case.split(":")[0]
                res.observe((v, t, hash(case)), cfg, "%s: %s -> %s.." % (cfg, op, got[:16]), "Miri %s on %s" % (op, t))
                res.configs[cfg]["process_seconds"] = round(res.configs[cfg].get("process_seconds", 0) + wall / len(cases), 1)
                if got != want and not ub_only:
                    res.violations.append(("%s on %s differs from the model: %s.. instead of %s.." % (op, t, got[:40], want[:40]), rep))
    if cut:
        res.extra["not interpreted for lack of time"] = cut
    if {(v, t) for v, t, _, _ in plan} - done:
        res.problems.append("Miri did not finish " + "; ".join(cut))
    say("ran", len(plan) - len(cut), "of", len(plan), "interpreter processes")


def pick(cases, *ops):
    """First unused case of each requested operation."""
    res, used = [], set()
    for o in ops:
        for i, c in enumerate(cases):
            if i not in used and c[0].startswith(o + ":"):
                used.add(i)
                res.append(c)
                break
    return res


def check_c12(work):
    res = Result("C12")
    wanted = [(v, c, ("monitor",)) for v in VARIANTS for c in ("asan", "memcheck", "checked")] + [(v, "release", ("portable",)) for v in VARIANTS]
    bins = build_all(wanted + [(v, "steered", ("steer",)) for v in VARIANTS])
    miri_setup([HOST])
    plan = []
    for v in VARIANTS:
        cs = portable_cases(bins[(v, "release")]["portable"], 2 if TIER == "quick" else 4)
        deep = MIRI_FULL if TIER != "quick" or v == "509" else MIRI_MID
        plan.append((v, HOST, deep, pick(cs, "enc", "rng", "ctr")))
        plan.append((v, HOST, deep, pick(cs, "dec")))
        if TIER != "quick" or v in ("509", "701"):
            plan.append((v, HOST, MIRI_MID if v == "509" or TIER != "quick" else MIRI_FAST, pick(cs, "key")))
        if TIER != "quick":
            plan.append((v, HOST, MIRI_FULL, pick(cs[6:], "key")))
            plan.append((v, HOST, MIRI_FULL, pick(cs, "dec", "dec")[1:] + pick(cs[6:], "enc", "dec", "ctr")))
    # the interpreter is slow but needs few cores in the end
    side = Result("C12")
    with cf.ThreadPoolExecutor(1) as ex:
        interpreted = ex.submit(miri_runs, side, plan, work, True)
        jobs = found_jobs(res, "C12", bins, [("asan", "monitor", "C12", 150 * MULT, 20), ("memcheck", "monitor", "C12", 15 * MULT, 900)], work)
        for v in VARIANTS:
            jobs += shards(v, "asan", bins[(v, "asan")]["monitor"], "C12", 1200 * MULT, 3, 20 * W[v])
            jobs += shards(v, "memcheck", bins[(v, "memcheck")]["monitor"], "C12", 24 * MULT, 2, 900 * W[v])
            jobs += shards(v, "checked", bins[(v, "checked")]["monitor"], "C12", 8000 * MULT, 1, W[v])
        run_jobs(res, jobs, work)
        interpreted.result()
    res.merge(side)
    return conclude(res, {"rule": "operations on distinct inputs that ran to the end under one of the instruments, counted once per parameter set and input",
                          "level": "exploration"}, int(4 * 9000 * 0.9))


def check_c13(work):
    res = Result("C13")
    bins = build_all([(v, c, ("ct",)) for v in VARIANTS for c in ("taint", "taint-O3")] + [(v, "steered", ("steer",)) for v in VARIANTS])
    jobs = found_jobs(res, "C13", bins, [("taint", "ct", "taint", 20 * MULT, 0.2)], work)
    for v in VARIANTS:
        jobs += shards(v, "taint", bins[(v, "taint")]["ct"], "taint", 8 * MULT, 4 if TIER == "quick" else 8, W[v], bins=("ct",))
    run_jobs(res, jobs, work)
    # seen, not judged: what the optimiser makes of it
    seen = {}
    o3 = [Job(v, "taint-O3", bins[(v, "taint-O3")]["ct"], "taint", 0, 2, None, 1, ("ct",)) for v in VARIANTS]
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for j, o in zip(o3, ex.map(lambda j: run_job(j, work), o3)):
            seen[NAMES[j.variant]] = {"operations": o.report["evaluations"] if o.report else 0, "with reports": o.report["classes"].get("violations", 0) if o.report else None}
    res.extra["optimised build (-O3), observed without influence on the verdict"] = seen
    return conclude(res, {"rule": "distinct operation and input run to the end with its secrets tainted", "level": "exploration",
                          "assumptions": ["memcheck propagates taint bit-precisely through the instructions used", "judged on unoptimised code"]}, 4 * 8 * MULT * 10)


def check_c14(work):
    res = Result("C14")
    levels = ["O0", "O1", "O2", "Os", "release", "checked", "native", "softaes", "abort"]
    bins = build_all([(v, c, ("monitor", "portable") if c == "release" else ("monitor",)) for c in levels for v in VARIANTS] + [(v, "steered", ("steer",)) for v in VARIANTS])
    targets = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"]
    # nothing in the library is known to look at these, so a few cases each
    others = ["aarch64-apple-darwin", "x86_64-pc-windows-msvc"]
    miri_setup(targets + others)
    say("interpreter ready")
    plan = []
    for v in VARIANTS:
        cs = portable_cases(bins[(v, "release")]["portable"], 2 if TIER == "quick" else 4)
        for t in targets + others:
            plan.append((v, t, MIRI_FAST, pick(cs, "enc", "rng", "ctr")))
            plan.append((v, t, MIRI_FAST, pick(cs, "dec")))
            if TIER != "quick" or v == "509" or (v == "701" and t in targets):
                plan.append((v, t, MIRI_FAST, pick(cs, "key")))
        for t in targets:
            plan.append((v, t, MIRI_FAST, pick(cs[6:], "enc", "dec", "rng", "ctr")))
            plan.append((v, t, MIRI_FAST, pick(cs, "dec", "dec")[1:]))
            if TIER != "quick":
                plan.append((v, t, MIRI_FAST, pick(cs[12:], "key", "enc", "dec", "dec", "ctr")))
    side = Result("C14")
    with cf.ThreadPoolExecutor(1) as ex:
        interpreted = ex.submit(miri_runs, side, plan, work, False)
        jobs, expected = found_jobs(res, "C14", bins, [(c, "monitor", "conform", 300 * MULT, 1) for c in levels], work), 0
        for c in levels:
            n = (500 if c == "O0" else 2500) * MULT
            for v in VARIANTS:
                jobs += shards(v, c, bins[(v, c)]["monitor"], "conform", n, 1 if TIER == "quick" else 2, W[v] * (15 if c == "O0" else 1))
                expected += int(n * 0.8)
        run_jobs(res, jobs, work)
        interpreted.result()
    res.merge(side)
    return conclude(res, {"rule": "counted once per parameter set and input (natively) and per parameter set, target and input (interpreter): outputs compared with the model",
                          "level": "exploration", "assumptions": ASSUME + ["Miri executes foreign targets faithfully"]}, expected)


def check_c15(work):
    res = Result("C15")
    names = [NAMES[v] for v in VARIANTS]
    model = build_all([(v, "release", ("portable",)) for v in VARIANTS])
    subsets = [[n for i, n in enumerate(names) if m >> i & 1] for m in range(16)]

    def lib(sub):
        tdir = os.path.join(TARGET, "c15-" + ("-".join(sub) or "default"))
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "--target-dir", tdir]
        if sub:
            cmd += ["--features", ",".join(sub)]
        rc, out = run(cmd, cwd=os.path.join(ROOT, "probe"))
        if rc != 0:
            # is it the library that refuses, or the program using it?
            if rc is None or re.search(r"(could not compile|custom build command for) `ntrust-native", out):
                return sub, rc, out, None, None
            if re.search(r"could not compile `probe", out):
                return sub, 0, out, 1, out
            return sub, None, out, None, None
        rc3, out3 = run([os.path.join(tdir, "release", "probe"), str(USEED % 256)])
        return sub, rc, out, rc3, out3

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        got = {tuple(r[0]): r for r in ex.map(lib, subsets)}
    base = got[()]
    if base[1] != 0 and all(got[(n,)][1] != 0 for n in names):
        raise Inconclusive("nothing builds: " + base[2][-1500:])
    transcripts = {}
    for sub in subsets:
        _, rc, out, rc2, out2 = got[tuple(sub)]
        label = "+".join(sub) or "(none)"
        rep = {"kind": "variants", "config": "features " + label, "variant": "", "detail": {"log": out[-3000:], "probe": (out2 or "")[-3000:]}}
        if rc is None or (rc == 0 and rc2 is None):
            res.problems.append("build of %s did not come to a verdict: %s" % (label, out[-800:]))
            continue
        if len(sub) >= 2:
            res.observe(label, label, "%s: %s" % (label, "built" if rc == 0 else "refused"), "conflicting selection", 0)
            if rc == 0:
                res.violations.append(("selecting %s builds" % label, rep))
            continue
        v = VARIANTS[names.index(sub[0])] if sub else "509"
        if rc != 0:
            res.violations.append(("selecting %s does not build" % label, rep))
            continue
        if rc2 != 0:
            res.violations.append(("a program using %s does not build or run: %s" % (label, (out2 or "")[-300:]), rep))
            continue
        lines = out2.strip().split("\n")
        pk, sk, ct = SIZES[v]
        want = ["name " + NAMES[v], "pk %d" % pk, "sk %d" % sk, "ct %d" % ct, "ss 32"]
        res.observe(label, label, "%s: %s" % (label, ", ".join(lines[:5])), "admissible selection", 24)
        if lines[:5] != want:
            res.violations.append(("%s exposes %s instead of %s" % (label, lines[:5], want), rep))
        transcripts[label] = (lines[5:], rep)
        # the selected variant also behaves as that variant
        rc4, exp = run([model[(v, "release")]["portable"], "probe", str(USEED % 256)])
        if rc4 != 0:
            res.problems.append("model transcript failed: " + exp[-300:])
        elif lines[5:] != exp.strip().split("\n"):
            res.violations.append(("%s does not behave as %s" % (label, NAMES[v]), rep))
        res.classes["transcript exchanges compared with the model"] = res.classes.get("transcript exchanges compared with the model", 0) + len(lines) - 5
    if "(none)" in transcripts and NAMES["509"] in transcripts and transcripts["(none)"][0] != transcripts[NAMES["509"]][0]:
        res.violations.append(("selecting nothing differs from selecting " + NAMES["509"], transcripts["(none)"][1]))
    return conclude(res, {"rule": "one evaluation per subset of the four features", "level": "exploration", "exhaustive": True}, 16)


def check_c16(work):
    res = Result("C16")
    model = build_all([(v, "release", ("kat",)) for v in VARIANTS])
    rng = random.Random(USEED)
    programs = {}

    def prog(v):
        tdir = os.path.join(TARGET, "katkem-" + v)
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "--target-dir", tdir, "--bin", "katkem"]
        if v != "509":
            cmd += ["--features", NAMES[v]]
        rc, out = run(cmd, cwd=os.path.join(ROOT, "katkem"))
        if rc != 0:
            raise Inconclusive("the known-answer program does not build for %s: %s" % (v, out[-1500:]))
        return v, os.path.join(tdir, "release", "katkem")

    with cf.ThreadPoolExecutor(4) as ex:
        programs = dict(ex.map(prog, VARIANTS))
    say("built the known-answer programs")
    master = "".join("%02x" % i for i in range(48))
    tasks = []
    for v in VARIANTS:
        wd = os.path.join(work, v)
        os.makedirs(wd)
        other = "".join("%02x" % rng.randrange(256) for _ in range(48))
        for tag, s in (("std", master), ("alt", other)):
            rc, out = run([model[(v, "release")]["kat"], s, os.path.join(wd, tag + ".req"), os.path.join(wd, tag + ".rsp")])
            if rc != 0:
                raise Inconclusive("model cannot write known answers: " + out[-500:])
        label = NAMES[v]
        # generation
        rc, out = run([programs[v], os.path.join(wd, "out.req"), os.path.join(wd, "out.rsp")], cwd=wd)
        for ext in ("req", "rsp"):
            want = open(os.path.join(wd, "std." + ext), "rb").read()
            try:
                got = open(os.path.join(wd, "out." + ext), "rb").read()
            except OSError:
                got = b""
            at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            res.observe((v, ext), label, "%s: generated .%s file, %d bytes, exit %s" % (label, ext, len(got), rc), "file generated and compared")
            if rc is None:
                res.problems.append("generation did not finish for " + label)
            elif rc != 0 or got != want:
                line = want[:at].count(b"\n") + 1
                res.violations.append(("generated .%s file of %s differs at line %d (exit %s)" % (ext, label, line, rc),
                                       {"kind": "kat", "variant": v, "config": "katkem", "detail": {"got": got[max(0, at - 60):at + 60].decode("latin1"), "want": want[max(0, at - 60):at + 60].decode("latin1")}}))
        for tag in ("std", "alt"):
            text = open(os.path.join(wd, tag + ".rsp")).read()
            tasks.append((v, tag + " as is", text, True))
        std = open(os.path.join(wd, "std.rsp")).read()
        alt = open(os.path.join(wd, "alt.rsp")).read()
        for i, (kind, text) in enumerate(corruptions(rng, std, alt, 40 if TIER == "quick" else 400)):
            tasks.append((v, kind, text, False))
        tasks.append((v, "lower case digits", "\n".join(l if l.startswith("#") else l.split("=")[0] + "=" + l.split("=")[1].lower() if "=" in l else l for l in std.split("\n")), True))

    def verify(t):
        i, (v, kind, text, good) = t
        f = os.path.join(work, v, "t%d.rsp" % i)
        with open(f, "w") as fh:
            fh.write(text)
        rc, out = run([programs[v], f], cwd=work)
        if not (rc is not None and (rc == 0) != good):
            os.unlink(f)
        return rc, out, f

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for (i, (v, kind, text, good)), (rc, out, f) in zip(enumerate(tasks), ex.map(verify, enumerate(tasks))):
            label = NAMES[v]
            if rc is None or (rc < 0 and -rc not in CRASH):
                res.problems.append("verification did not finish (%s)" % kind)
                continue
            res.observe((v, kind, hash(text)), label, "%s: %s -> exit %s" % (label, kind, rc), "verified: " + re.sub(r" \d+.*", "", kind))
            if (rc == 0) != good:
                keep = os.path.join(REPLAYS, "C16-%d-%s-%d.rsp" % (USEED, v, i))
                os.makedirs(REPLAYS, exist_ok=True)
                shutil.move(f, keep)
                res.violations.append(("verification %s a file that %s (%s, %s): exit %s" % (
                    "rejects" if good else "accepts", "matches" if good else "does not match", label, kind, rc),
                    {"kind": "kat", "variant": v, "config": "katkem", "file": keep, "detail": {"output": out[-1500:]}}))
    say("verified", len(tasks), "files")
    return conclude(res, {"rule": "distinct files generated or submitted to verification", "level": "exploration", "assumptions": ASSUME}, 4 * 30)


def corruptions(rng, std, alt, count):
    """Files that differ from a matching one in as little as possible."""
    fields = ["seed", "pk", "sk", "ct", "ss"]
    lines = std.split("\n")
    # line numbers of each field of each record
    pos, rec = {}, -1
    for i, l in enumerate(lines):
        if l.startswith("count = "):
            rec = int(l[8:])
        elif " = " in l:
            pos[(rec, l.split(" = ")[0])] = i
    res = []

    def put(i, s):
        n = list(lines)
        n[i] = s
        return "\n".join(n)

    special = [0, 1, 50, 98, 99]
    for k in range(count):
        f = fields[k % 5]
        r = special[(k // 5) % 5] if k % 2 == 0 else rng.randrange(100)
        i = pos[(r, f)]
        name, val = lines[i].split(" = ")
        mode = (k // 5) % 8
        if mode < 5:
            p = [0, len(val) - 1, rng.randrange(len(val)), rng.randrange(len(val)), len(val) // 2][mode]
            d = int(val[p], 16) ^ (1 << rng.randrange(4))
            res.append(("digit of %s changed (record %d, digit %d)" % (f, r, p), put(i, name + " = " + val[:p] + "%X" % d + val[p + 1:])))
        elif mode == 5:
            res.append(("emptied %s (record %d)" % (f, r), put(i, name + " = ")))
        elif mode == 6:
            n = list(lines)
            del n[i]
            res.append(("line of %s missing (record %d)" % (f, r), "\n".join(n)))
        else:
            o = alt.split("\n")[i]
            res.append(("%s of another record (record %d)" % (f, r), put(i, o)))
    # truncations: whole records, and inside a record
    for r in (0, 1, 57, 99):
        cut = pos[(r, "seed")] - 1
        res.append(("truncated before record %d" % r, "\n".join(lines[:cut]) + "\n"))
    for f in fields:
        r = rng.randrange(100)
        i = pos[(r, f)]
        res.append(("truncated inside %s of record %d" % (f, r), "\n".join(lines[:i]) + "\n" + lines[i][:len(lines[i]) // 2]))
        # value shorter or longer by a byte
        res.append(("%s too short in record %d" % (f, r), put(i, lines[i][:-2])))
        res.append(("%s too long in record %d" % (f, r), put(i, lines[i] + "00")))
    res.append(("only a header 0", lines[0] + "\n\n"))
    return res


def check_c19(work):
    res = Result("C19")
    plan = [("release", 1600, 4, 1), ("dev", 256, 2, 15)]
    bins = build_all([(v, c, ("quiet",)) for c, _, _, _ in plan for v in VARIANTS] + [(v, "steered", ("steer",)) for v in VARIANTS])
    jobs, expected = found_jobs(res, "C19", bins, [("release", "quiet", "C19", 400 * MULT, 1), ("dev", "quiet", "C19", 150 * MULT, 15)], work), 0
    for c, n, parts, w in plan:
        for v in VARIANTS:
            jobs += shards(v, c, bins[(v, c)]["quiet"], "C19", n * MULT, parts * (1 if TIER == "quick" else 4), w * W[v], bins=("quiet",))
            expected += 2 * n * MULT
    run_jobs(res, jobs, work)
    return conclude(res, {"rule": INPUTS + "an operation run confined, with heap, stack and system calls observed", "level": "exploration",
                          "assumptions": ["the kernel enforces the seccomp filter of the worker thread"]}, expected)


def check_c20(work):
    res = Result("C20")
    bins = build_all([(v, "aswritten", ("arith",)) for v in VARIANTS] + [(v, "steered", ("steer",)) for v in VARIANTS])
    jobs, expected = found_jobs(res, "C20", bins, [("aswritten", "arith", "C20", 60 * MULT, 1)], work), 0
    for v in VARIANTS:
        n = 240 * MULT
        jobs += shards(v, "aswritten", bins[(v, "aswritten")]["arith"], "C20", n, 4 if TIER == "quick" else 16, W[v], bins=("arith",))
        expected += 3 * n
    run_jobs(res, jobs, work)
    return conclude(res, {"rule": INPUTS + "an operation run with a breakpoint on every division, its operands compared with those under another secret",
                          "level": "exploration", "assumptions": ["the disassembler finds the division instructions", "judged on unoptimised code"]}, expected)


def check_c22(work):
    res = Result("C22")
    bins = build_all([(v, "counted", ("work",)) for v in VARIANTS] + [(v, "steered", ("steer",)) for v in VARIANTS])
    jobs, expected = found_jobs(res, "C22", bins, [("counted", "work", "C22", 300 * MULT, 1)], work), 0
    for v in VARIANTS:
        n = 1000 * MULT
        jobs += shards(v, "counted", bins[(v, "counted")]["work"], "C22", n, 4 if TIER == "quick" else 16, W[v], bins=("work",))
        expected += n
    run_jobs(res, jobs, work)
    return conclude(res, {"rule": INPUTS + "an operation run with its instructions counted", "level": "exploration",
                          "assumptions": ["callgrind counts every instruction executed"]}, expected)


SPECIAL = {"C22": check_c22, "C20": check_c20, "C10": check_c10, "C12": check_c12, "C13": check_c13, "C14": check_c14, "C15": check_c15, "C16": check_c16, "C19": check_c19}


def check(prop):
    say("%s %s seed %d" % (prop, TIER, SEED))
    os.makedirs(TARGET, exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-", dir=TARGET)
    try:
        if prop in SPECIAL:
            return SPECIAL[prop](work)
        if prop in MONITORS:
            return check_monitors(prop, work)
        say("unknown property", prop)
        return 2
    except Inconclusive as e:
        say("inconclusive:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rep = json.load(open(path))
    say("%s: %s" % (rep["property"], rep["what"]))
    if rep["kind"] == "monitor":
        b = build(rep["variant"], rep["config"], rep["bins"])
        work = tempfile.mkdtemp(prefix="replay-", dir=TARGET)
        try:
            job = Job(rep["variant"], rep["config"], b[rep["bins"][0]], rep["prop"], rep["case"], rep["count"], rep.get("extra"))
            if rep.get("corpus"):
                job.corpus = os.path.join(work, "found")
                with open(job.corpus, "w") as f:
                    f.write(rep["corpus"])
            o = run_job(job, work, rep["seed"])
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for v in o.violations:
            print(json.dumps(v, indent=1))
        if o.violations:
            print("VIOLATION property=%s replay=%s" % (rep["property"], path))
            return 1
        say(o.problem or "not reproduced")
        return 2 if o.problem else 0
    if rep["kind"] == "miri":
        miri_setup([rep["target"]])
        rc, lines, err = miri(rep["variant"], rep["target"], tuple(rep["mode"]), [c for c, _ in rep["cases"]])
        bad = miri_ub(err) or any(g != w for g, (_, w) in zip(lines, rep["cases"])) or "failed:" in lines
        print(err[-2000:])
        if bad:
            print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1 if bad else 0
    # the whole check is small enough to be its own replay
    global USEED
    USEED = rep["seed"]
    return check(rep["property"])


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a == ["--setup"]:
        try:
            build_all([(v, "release", ("monitor", "portable", "kat")) for v in VARIANTS] + steer_builds("C11"))
        except Inconclusive as e:
            say(e)
            sys.exit(2)
        sys.exit(0)
    if len(a) != 1:
        print(__doc__)
        sys.exit(2)
    try:
        sys.exit(check(a[0]))
    except KeyboardInterrupt:
        sys.exit(2)


if __name__ == "__main__":
    main()
