#!/usr/bin/env python3
"""Runs one check: builds the monitors against /repo's working tree, drives them, judges the outcome.

  check.py <ID> quick|thorough     exit 0: held on everything observed; 1: VIOLATION; 2: no verdict
  check.py replay <file>           runs the violating case of a replay file again
  check.py setup                   builds everything the checks need
"""
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
HOST = "x86_64-unknown-linux-gnu"
T0 = time.monotonic()


class NoVerdict(Exception):
    pass


def say(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- builds

# name: (toolchain, extra RUSTFLAGS, extra cargo arguments, path of the binary under its target directory)
BUILDS = {
    "native": ("", "", [], "mon/stunmon"),
    "asan": ("+nightly", "-Zsanitizer=address", ["--target", HOST], HOST + "/mon/stunmon"),
    "tsan": ("+nightly", "-Zsanitizer=thread", ["-Zbuild-std", "--target", HOST], HOST + "/mon/stunmon"),
}


def source_stamp():
    h = hashlib.sha256()
    names = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        names += [os.path.join(root, f) for f in files]
    names.append(os.path.join(REPO, "Cargo.toml"))
    for n in sorted(names):
        h.update(n.encode() + b"\0")
        with open(n, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def env_for(kind):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST", "MIRI")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e["CARGO_TARGET_DIR"] = TARGET if kind == "native" else os.path.join(TARGET, kind)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def locked(f):
    def g(kind):
        os.makedirs(TARGET, exist_ok=True)
        with open(os.path.join(TARGET, ".lock"), "w") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            return f(kind)
    return g


def freshen(kind, toolchain, env):
    """Cargo goes by modification times; a tree put back into place can have old ones."""
    stamp_file = os.path.join(TARGET, "stamp." + kind)
    now = source_stamp()
    try:
        old = open(stamp_file).read()
    except OSError:
        old = ""
    if old != now:
        if os.path.exists(stamp_file):
            os.unlink(stamp_file)
        subprocess.run(["cargo"] + ([toolchain] if toolchain else []) + ["clean", "--offline", "-p", "stun_codec"] + (["--profile", "mon"] if kind == "native" else []),
                       cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        # the profile directories cargo clean does not look at
        base = env["CARGO_TARGET_DIR"]
        for root in [os.path.join(base, "mon"), os.path.join(base, HOST, "mon"), os.path.join(base, "miri"), os.path.join(base, HOST, "debug"), os.path.join(base, "miri", HOST, "debug")]:
            for sub in (".fingerprint", "deps", "incremental"):
                d = os.path.join(root, sub)
                if os.path.isdir(d):
                    for n in os.listdir(d):
                        if "stun_codec" in n or "stunmon" in n:
                            p = os.path.join(d, n)
                            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    return stamp_file, now


@locked
def build(kind):
    toolchain, flags, extra, path = BUILDS[kind]
    env = env_for(kind)
    if flags:
        env["RUSTFLAGS"] = flags
    stamp_file, now = freshen(kind, toolchain, env)
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "--quiet", "--profile", "mon"] + extra
    p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise NoVerdict("building the %s monitors failed:\n%s" % (kind, p.stdout[-6000:]))
    with open(stamp_file, "w") as f:
        f.write(now)
    return os.path.join(env["CARGO_TARGET_DIR"], path)


MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"


def miri_env(flags=""):
    env = env_for("miri")
    env["MIRIFLAGS"] = (MIRIFLAGS + " " + flags).strip()
    return env


def miri_cmd(args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", "stunmon", "--"] + args


@locked
def build_miri(_kind):
    env = miri_env()
    stamp_file, now = freshen("miri", "+nightly", env)
    p = subprocess.run(miri_cmd(["list"]), cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise NoVerdict("building for the interpreter failed:\n%s" % p.stdout[-6000:])
    with open(stamp_file, "w") as f:
        f.write(now)


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    found, text = {}, ""
    try:
        text = open(KNOWN).read()
    except OSError:
        pass
    for line in text.splitlines():
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line)
        if m and m.group(1) == prop:
            found[m.group(2)] = m.group(3)
    return found


# ---------------------------------------------------------------- stages

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = known_findings(prop)
        self.violations = []
        self.stages = []
        self.notes = []
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.seen_known = {}

    def violation(self, **kw):
        self.violations.append(kw)

    def scratch(self, name):
        d = os.path.join(TARGET, "run")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s.%s.%d.%s" % (self.prop, self.tier, os.getpid(), name))


def limit_memory(n):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def limit_case():
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CPU, (150, 155))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1",
}


def describe_exit(rc):
    if rc < 0:
        try:
            return "signal %s" % signal.Signals(-rc).name
        except ValueError:
            return "signal %d" % -rc
    return "exit code %d" % rc


def inflight_cases(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return []
    out = []
    for i in range(0, len(b) - 15, 16):
        suite, idx = struct.unpack_from("<QQ", b, i)
        if suite:
            out.append((suite - 1, idx))
    return out


def sanitizer_report(err):
    for line in err.splitlines():
        if "ERROR: AddressSanitizer" in line or "WARNING: ThreadSanitizer" in line or "SUMMARY:" in line:
            return line.strip()
    return ""


def stage_worker(run, kind, soft, threads=None, scale=""):
    """The whole workload of the check, on a native or sanitized build."""
    t = time.monotonic()
    exe = build(kind)
    built = time.monotonic() - t
    res, inf = run.scratch(kind + ".json"), run.scratch(kind + ".inflight")
    for f in (res, inf):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ, **SAN_ENV)
    if kind != "native":
        env["STUNMON_ONE_PROCESS"] = "1"
    if threads:
        env["VERIF_THREADS"] = str(threads)
    base = [run.prop, run.tier, str(run.seed)]
    cmd = [exe, "worker"] + base + [res, inf, str(int(soft))] + sorted(run.known)
    # sanitizers map terabytes; only the plain build can have a memory limit
    pre = limit_memory(20 << 30) if kind == "native" else None
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=pre,
                           timeout=soft + 400)
        rc, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, err = 97, "the workload did not end in time"
    stage = {"stage": kind, "build_s": round(built, 1), "wall_s": round(time.monotonic() - t - built, 1)}
    run.stages.append(stage)
    if rc == 0:
        d = json.load(open(res))
        for f in (res, inf):
            os.unlink(f)
        stage["suites"] = d["suites"]
        stage["counters"] = d["counters"]
        stage["threads"] = d["threads"]
        run.evaluations += d["evaluations"]
        if kind == "native":
            run.distinct = d["distinct"]
            run.samples = d["samples"]
            run.rule = d["rule"]
            run.assumptions = d["assumptions"]
        else:
            stage["distinct"] = d["distinct"]
        run.seen_known.update(d["known"])
        for f in d["failures"]:
            run.violation(stage=kind, suite=f["suite"], idx=f["idx"], message=f["msg"], detail=f["detail"], key=f["key"])
        if not d["failures"]:
            if any(s["ran"] == 0 for s in d["suites"]) or d["evaluations"] == 0:
                raise NoVerdict("a suite of %s ran no case on the %s build" % (run.prop, kind))
        return
    # The process died. Which case did it, and does it again?
    cases = inflight_cases(inf)
    report = sanitizer_report(err)
    for suite, idx in cases:
        try:
            q = subprocess.run([exe, "one"] + base + [str(suite), str(idx)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", preexec_fn=limit_case if kind == "native" else None, timeout=400)
            rc1, out1, err1 = q.returncode, q.stdout, q.stderr
        except subprocess.TimeoutExpired:
            rc1, out1, err1 = 98, "", "the case did not end in 400 s"
        if rc1 == 0:
            continue
        why = sanitizer_report(err1) or describe_exit(rc1)
        if rc1 in (-signal.SIGXCPU, -signal.SIGKILL, 98):
            why = "the case does not end (more than 150 s of CPU time, normal cases take milliseconds)"
        elif rc1 == 1:
            m = re.search(r"violated: (.*)", out1)
            why = m.group(1) if m else "violated"
        run.violation(stage=kind, suite=suite, idx=idx, message="the process died or hung: " + why, detail=(out1[-2000:] + "\n" + err1[-6000:]), key=None)
        return
    if report and kind != "native":
        # A sanitizer report is a violation even if the schedule that led to it does not come back.
        run.violation(stage=kind, suite="", idx=-1, message=report, detail=err[-8000:], key=None)
        return
    raise NoVerdict("the %s workload ended with %s and no case in flight reproduces it:\n%s" % (kind, describe_exit(rc), err[-3000:]))


def stage_miri(run, jobs, flags="", name="miri", limit=420):
    """A few cases of chosen suites under the interpreter: jobs are (suite, first, end)."""
    t = time.monotonic()
    build_miri("miri")
    built = time.monotonic() - t
    env = miri_env(flags)
    pending = list(jobs)
    live = []
    done = 0
    evals = 0
    cut = 0
    ran = {}
    width = max(1, min(8, os.cpu_count() or 4))
    deadline = time.monotonic() + limit
    bad = None
    while (pending or live) and bad is None:
        while pending and len(live) < width and time.monotonic() < deadline:
            suite, lo, hi = pending.pop(0)
            out = open(run.scratch("miri.%s.%d.out" % (suite.replace(" ", "_"), lo)), "w+")
            p = subprocess.Popen(miri_cmd(["batch", run.prop, run.tier, str(run.seed), str(lo), str(hi), suite]), cwd=HARNESS, env=env, stdout=out,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            live.append((p, out, suite, lo, hi))
        if time.monotonic() >= deadline:
            cut += len(pending)
            pending = []
        for job in list(live):
            p, out, suite, lo, hi = job
            rc = p.poll()
            if rc is None:
                if time.monotonic() > deadline:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    rc = "late"
                else:
                    continue
            live.remove(job)
            out.seek(0)
            text = out.read()
            out.close()
            os.unlink(out.name)
            cases = re.findall(r"^case (\S+) (\d+)", text, re.M)
            ran[suite] = ran.get(suite, 0) + len(cases)
            done += len(cases)
            m = re.search(r"^done (\d+)", text, re.M)
            if rc == "late":
                cut += 1
            elif rc == 0 and m:
                evals += int(m.group(1))
            else:
                bad = (rc, text, suite, lo, hi, cases)
                break
        time.sleep(0.05)
    for p, out, *_ in live:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        out.close()
        os.unlink(out.name)
    run.stages.append({"stage": name, "flags": env["MIRIFLAGS"], "build_s": round(built, 1), "wall_s": round(time.monotonic() - t - built, 1),
                       "cases": ran, "jobs_cut_by_time": cut})
    run.evaluations += evals
    if bad:
        rc, text, suite, lo, hi, cases = bad
        last = int(cases[-1][1]) if cases else lo
        m = re.search(r"^error: (Undefined Behavior.*|.*[Dd]ata race.*)$", text, re.M)
        v = re.search(r"^violated: (.*)$", text, re.M)
        if m or v or re.search(r"the evaluated program (aborted|leaked|deadlocked)|deadlock", text):
            msg = (m.group(1) if m else v.group(1) if v else "the interpreted program aborted or deadlocked")
            run.violation(stage=name, suite=suite, idx=last, first=lo, flags=flags, message=msg, detail=text[-8000:], key=None)
        else:
            raise NoVerdict("the interpreter ended with %s:\n%s" % (rc, text[-4000:]))
    elif not done:
        raise NoVerdict("the interpreter ran no case")


def spread(suite, lo, hi, parts):
    step = (hi - lo + parts - 1) // parts
    return [(suite, a, min(a + step, hi)) for a in range(lo, hi, step)]


def optional(run, f, what):
    """Sanitizer stages add to the native one; a missing tool must not silence the rest."""
    try:
        f()
    except NoVerdict as e:
        run.notes.append("%s gave no verdict: %s" % (what, str(e)[-1500:]))
        say("NOTE: %s gave no verdict: %s" % (what, str(e)[-1500:]))


def execute(run):
    quick = run.tier == "quick"
    p = run.prop
    soft = 45 if quick else 1800
    stage_worker(run, "native", soft)
    if run.violations:
        return
    asan = {"C17": (40, 900), "C03": (25, 600), "C05": (0, 400), "C07": (0, 400), "C08": (0, 400), "C14": (0, 400), "C19": (0, 300)}
    a = asan.get(p, (0, 0))[0 if quick else 1]
    if a:
        optional(run, lambda: stage_worker(run, "asan", a), "AddressSanitizer")
        if run.violations:
            return
    if p == "C17":
        if quick:
            jobs = spread("points", 0, 128, 3) + spread("decode", 0, 50, 2) + spread("encode", 0, 50, 2) + spread("life", 0, 24, 1) + \
                spread("shipped", 0, 12, 1) + spread("clones", 0, 16, 1)
            optional(run, lambda: stage_miri(run, jobs, limit=240), "Miri")
        else:
            jobs = spread("points", 0, 600, 16) + spread("decode", 0, 800, 16) + spread("encode", 0, 800, 16) + spread("life", 0, 400, 16) + \
                spread("shipped", 0, 240, 16) + spread("clones", 0, 300, 16)
            optional(run, lambda: stage_miri(run, jobs, limit=1500), "Miri")
            if not run.violations:
                optional(run, lambda: stage_miri(run, spread("points", 0, 128, 8), flags="-Zmiri-symbolic-alignment-check", name="miri-alignment", limit=600),
                         "Miri (alignment)")
    if p == "C19":
        if quick:
            optional(run, lambda: stage_worker(run, "tsan", 40), "ThreadSanitizer")
            if not run.violations:
                jobs = spread("shared", 0, 12, 4) + spread("concurrent", 0, 8, 4)
                optional(run, lambda: stage_miri(run, jobs, limit=200), "Miri")
        else:
            optional(run, lambda: stage_worker(run, "tsan", 900), "ThreadSanitizer")
            for s in range(6):
                if run.violations:
                    break
                jobs = spread("shared", s * 40, s * 40 + 40, 8) + spread("concurrent", s * 24, s * 24 + 24, 8) + spread("moved", s * 8, s * 8 + 8, 4)
                optional(run, lambda: stage_miri(run, jobs, flags="-Zmiri-seed=%d -Zmiri-preemption-rate=%s" % (s, ["0.01", "0.1", "0.3"][s % 3]), limit=300),
                         "Miri")


# ---------------------------------------------------------------- verdict

def write_json(path, d):
    tmp = "%s.%d.tmp" % (path, os.getpid())
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def check(prop, tier, seed):
    os.makedirs(EVIDENCE, exist_ok=True)
    run = Run(prop, tier, seed)
    verdict = 0
    why = None
    try:
        execute(run)
    except NoVerdict as e:
        verdict, why = 2, str(e)
    if run.violations:
        verdict = 1
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": run.evaluations,
            "distinct_nontrivial": run.distinct,
            "rule": run.rule or "no verdict",
            "samples": run.samples or ["none"],
            "stages": run.stages,
            "known_findings_observed": run.seen_known,
            "notes": run.notes + ([why] if why else []),
        },
        "assumptions": list(run.assumptions),
        "wall_s": round(time.monotonic() - T0, 2),
        "violations": len(run.violations),
    }
    write_json(os.path.join(EVIDENCE, prop + ".json"), ev)
    if verdict == 0:
        for k, text in sorted(run.known.items()):
            say("KNOWN-FINDING: property=%s %s [%s%s]" % (prop, text, k, "" if k in run.seen_known else ", not exercised in this run"))
        say("%s %s: held on %d executions, %d distinct, %.1f s" % (prop, tier, run.evaluations, run.distinct, ev["wall_s"]))
        return 0
    if verdict == 2:
        say("%s %s: no verdict: %s" % (prop, tier, why))
        return 2
    for i, v in enumerate(run.violations):
        path = os.path.join(EVIDENCE, "replay-%s-%d.json" % (prop, i))
        write_json(path, dict(property=prop, tier=tier, seed=seed, **v))
        say("%s: %s case %s: %s\n%s" % (v["stage"], v["suite"], v["idx"], v["message"], v["detail"][:4000]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(path):
    d = json.load(open(path))
    base = [d["property"], d["tier"], str(d["seed"])]
    if d["stage"].startswith("miri"):
        build_miri("miri")
        cmd = miri_cmd(["batch"] + base + [str(d["idx"]), str(d["idx"] + 1), d["suite"]])
        return subprocess.run(cmd, cwd=HARNESS, env=miri_env(d.get("flags") or "")).returncode
    exe = build(d["stage"])
    return subprocess.run([exe, "one"] + base + [str(d["suite"]), str(d["idx"])] + sorted(known_findings(d["property"])),
                          env=dict(os.environ, **SAN_ENV), preexec_fn=limit_case if d["stage"] == "native" else None).returncode


def setup():
    build("native")
    for f, what in ((lambda: build("asan"), "AddressSanitizer"), (lambda: build("tsan"), "ThreadSanitizer"), (lambda: build_miri("miri"), "Miri")):
        try:
            f()
        except NoVerdict as e:
            say("NOTE: no %s: %s" % (what, e))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["setup"]:
            return setup()
        if a[:1] == ["replay"] and len(a) == 2:
            return replay(a[1])
        if len(a) == 2 and a[1] in ("quick", "thorough"):
            return check(a[0], a[1], int(os.environ.get("VERIF_SEED", "1") or "1"))
    except NoVerdict as e:
        say(str(e))
        return 2
    say(__doc__)
    return 2


sys.exit(main())
