#!/usr/bin/env python3
"""Decides one property:  check.py C01 [quick|thorough]      replays a violation:  check.py --replay FILE

Builds the harness against /repo's working tree in every configuration the property needs, runs its
generated-input searches on all cores, confirms and shrinks any failure, and writes the evidence file.
Exit 0: held on everything explored. 1: VIOLATION. 2: no verdict (build failure, harness error)."""
import concurrent.futures as cf
import contextlib
import fcntl
import glob
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tarfile
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
import dictionary  # noqa: E402
import neon_overlay  # noqa: E402
import plan  # noqa: E402

HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
CORES = 8
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---- building -------------------------------------------------------------------------------------

def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("RUSTFLAGS", "CARGO_BUILD", "RUSTC"))}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_AUTO_INSTALL="0", RUSTC_WRAPPER="")
    return e


def locked_packages():
    """(name, version, checksum) of the registry packages in the harness's lock file."""
    with open(os.path.join(HARNESS, "Cargo.lock")) as f:
        t = f.read()
    return re.findall(r'name = "([^"]+)"\nversion = "([^"]+)"\nsource = "registry[^\n]*\nchecksum = "([^"]+)"', t)


def vendor_dir(toolchain):
    """A directory source with the packages of the standard library and of the harness (for -Zbuild-std offline)."""
    out = os.path.join(TARGET, "vendor-" + toolchain)
    done = os.path.join(out, ".complete")
    if os.path.exists(done):
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    root = subprocess.run(["rustc", "+" + toolchain, "--print", "sysroot"], env=base_env(), stdout=subprocess.PIPE, text=True).stdout.strip()
    std = os.path.join(root, "lib/rustlib/src/rust/library/vendor")
    for d in os.listdir(std):
        os.symlink(os.path.join(std, d), os.path.join(out, d))
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for name, version, checksum in locked_packages():
        d = os.path.join(out, f"{name}-{version}")
        if os.path.lexists(d):
            continue
        crates = glob.glob(os.path.join(home, "registry/cache/*", f"{name}-{version}.crate"))
        if not crates:
            raise NoVerdict(f"{name}-{version} is not in the cargo cache")
        with tarfile.open(crates[0]) as t:
            t.extractall(out, filter="data")
        with open(os.path.join(d, ".cargo-checksum.json"), "w") as f:
            json.dump({"files": {}, "package": checksum}, f)
    open(done, "w").close()
    return out


def interpreter(cfg_name, cfg, features):
    """The command that runs the harness in Miri."""
    target, toolchain = cfg.get("target"), cfg["toolchain"]
    env = {"CARGO_TARGET_DIR": os.path.join(TARGET, "build", cfg_name), "RUSTFLAGS": cfg["rustflags"] + " -Awarnings",
           "MIRIFLAGS": "-Zmiri-disable-isolation " + cfg["miri"]}
    os.makedirs(env["CARGO_TARGET_DIR"], exist_ok=True)
    at = ["--target", target] if target else []
    with open(os.path.join(TARGET, ".lock-miri-" + (target or "host")), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if target:
            cache = os.path.join(TARGET, "miri-" + target)
            env["XDG_CACHE_HOME"] = cache
            lib = os.path.join(cache, "library")
            if "aarch64" in target:
                env["MIRI_LIB_SRC"] = lib
            if not os.path.exists(os.path.join(cache, ".complete")):
                shutil.rmtree(cache, ignore_errors=True)
                os.makedirs(cache)
                if "aarch64" in target:
                    root = subprocess.run(["rustc", "+" + toolchain, "--print", "sysroot"], env=base_env(), stdout=subprocess.PIPE, text=True).stdout.strip()
                    neon_overlay.make(os.path.join(root, "lib/rustlib/src/rust/library"), lib)
                open(os.path.join(cache, ".complete"), "w").close()
        r = subprocess.run(["cargo", "+" + toolchain, "miri", "setup"] + at, env={**base_env(), **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise NoVerdict(f"Miri set-up of {cfg_name} failed:\n{r.stdout[-3000:]}")
    cmd = ["env", "-u", "RUSTC_WRAPPER"] + [f"{k}={v}" for k, v in env.items()] + ["cargo", "+" + toolchain, "miri", "run", "-q", "--offline", "--locked", "--manifest-path",
           os.path.join(HARNESS, "Cargo.toml"), "--features", ",".join(features)] + at + ["--"]
    with open(os.path.join(env["CARGO_TARGET_DIR"], ".lock-check"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # builds, and stops at the unknown command
        r = subprocess.run(cmd + ["nothing"], env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if "harness: unknown command" not in r.stdout:
            raise NoVerdict(f"build of {cfg_name} failed:\n{r.stdout[-6000:]}")
    return cmd


def build(cfg_name, feats, out_dir):
    """Builds the harness in one configuration; returns the command that runs it."""
    cfg = plan.CONFIGS[cfg_name]
    features = sorted(set(feats) | set(cfg["features"]))
    if "miri" in cfg:
        return interpreter(cfg_name, cfg, features)
    target_dir = os.path.join(TARGET, "build", cfg_name)
    os.makedirs(target_dir, exist_ok=True)
    env = base_env()
    env["RUSTFLAGS"] = cfg["rustflags"]
    if "@FUZZER@" in cfg["rustflags"]:
        lib = sorted(glob.glob("/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a"))
        if not lib:
            raise NoVerdict("libFuzzer's run-time library is not installed")
        env["RUSTFLAGS"] = cfg["rustflags"].replace("@FUZZER@", lib[-1])
    env["CARGO_TARGET_DIR"] = target_dir
    toolchain, target = cfg.get("toolchain"), cfg.get("target", "")
    wasm = target.startswith("wasm")
    with open(os.path.join(target_dir, ".lock-check"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["cargo"]
        if toolchain:
            cmd.append("+" + toolchain)
        if cfg["build_std"]:
            with open(os.path.join(TARGET, ".lock-vendor"), "w") as lv:
                fcntl.flock(lv, fcntl.LOCK_EX)
                v = vendor_dir(toolchain)
            cmd += ["--config", 'source.crates-io.replace-with="vs"', "--config", f'source.vs.directory="{v}"']
        cmd += ["build", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
                "--profile", cfg["profile"], "--features", ",".join(features)]
        if target:
            cmd += ["--target", target]
        if cfg["build_std"]:
            cmd += ["-Zbuild-std=std,panic_unwind,panic_abort"]
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HARNESS)
        if r.returncode != 0:
            raise NoVerdict(f"build of {cfg_name} failed:\n{r.stdout[-6000:]}")
        d = os.path.join(target_dir, target, {"dev": "debug"}.get(cfg["profile"], cfg["profile"]))
        ext = ".wasm" if wasm else ""
        dst = os.path.join(out_dir, "simdcheck-" + cfg_name + ext)
        shutil.copy2(os.path.join(d, "simdcheck" + ext), dst)
    return ["node", os.path.join(VERIF, "tools", "wasm.mjs"), dst] if wasm else [dst]


# ---- running --------------------------------------------------------------------------------------

def run_env():
    e = base_env()
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:die_after_fork=0"
    e["RUST_BACKTRACE"] = "0"
    e["RAYON_NUM_THREADS"] = "2"
    return e


LIVE = set()
LIVE_LOCK = threading.Lock()
STOP = threading.Event()
HEAVY = threading.Lock()  # one job at a time that needs many gigabytes


def run(cmd, timeout):
    """Returns (returncode or None on timeout, stdout, stderr)."""
    p = subprocess.Popen(cmd, env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    with LIVE_LOCK:
        LIVE.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o, e
    finally:
        with LIVE_LOCK:
            LIVE.discard(p)


def kill_all():
    with LIVE_LOCK:
        for p in LIVE:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def config_name(cfg, level):
    return cfg + (f"@{plan.LEVEL_NAMES[level]}" if level < 5 else "")


class Job:
    def __init__(self, cfg, level, shard, shards, scale, part="all", cmd="run", extra=()):
        self.cfg, self.level, self.shard, self.shards, self.scale = cfg, level, shard, shards, scale
        self.part, self.cmd, self.extra = part, cmd, list(extra)

    def name(self):
        return config_name(self.cfg, self.level) + ("" if self.part == "all" else ":" + self.part)

    def memory(self):
        return HEAVY if self.part == "huge" else None

    def argv(self, ctx, journal=None):
        a = ctx.bins[self.cfg] + [self.cmd, "--prop", str(ctx.num), "--shard", f"{self.shard}/{self.shards}",
             "--seed", str(ctx.seed), "--tier", ctx.tier, "--level", str(self.level), "--scale", str(self.scale),
             "--part", self.part, "--dict", ctx.dict_file]
        if journal:
            a += ["--journal", journal]
        if ctx.seen_file:
            a += ["--seen", ctx.seen_file]
        return a + self.extra


def read_journal(path):
    try:
        with open(path, "rb") as f:
            head = f.read(40)
            w = struct.unpack("<10I", head)
            if w[0] != 1:
                return None
            a, b = f.read(w[8]), f.read(w[9])
        return f"{w[1]} {','.join(map(str, w[2:8]))} x{a.hex()} x{b.hex()}"
    except (OSError, struct.error):
        return None


INTERPRETED = re.compile(r"error: (Undefined Behavior: .*|memory leaked: .*|abnormal termination.*|the evaluated program .*)")
UNSUPPORTED = re.compile(r"error: (unsupported operation: .*|resource exhaustion: .*)")


class Failure:
    """A failing case: config, level, case text (or a whole job), message."""

    def __init__(self, job, case, msg, what=""):
        self.job, self.case, self.msg, self.what = job, case, msg, what


def crashed(rc, err):
    if rc < 0:
        return signal.Signals(-rc) in CRASH_SIGNALS
    return rc == 1 and INTERPRETED.search(err) is not None


def describe_exit(rc, err):
    if rc is None:
        return "did not terminate"
    if crashed(rc, err) and rc > 0:
        return INTERPRETED.search(err).group(1)[:300]
    if rc < 0:
        try:
            s = signal.Signals(-rc).name
        except ValueError:
            s = str(-rc)
        m = re.search(r"(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|panicked at[^\n]*\n[^\n]*|fatal runtime error.*|memory allocation of.*)", err)
        return f"process ended by {s}" + (": " + m.group(1).replace("\n", " ")[:300] if m else "")
    return f"exit status {rc}"


def exec_case(ctx, cfg, level, case, timeout=60):
    """None if the case passes, else a message. Raises NoVerdict on a harness error."""
    with tempfile.NamedTemporaryFile("w", dir=ctx.dir, suffix=".case", delete=False) as f:
        f.write(case)
    try:
        def once(cfg, level):
            return run(ctx.bins[cfg] + ["exec", "--prop", str(ctx.num), "--level", str(level), "--file", f.name, "--repeat", str(ctx.repeat)], timeout + ctx.repeat)
        rc, o, e = once(cfg, level)
        if rc == 0 and ctx.other:
            d = json.loads(o)
            rc2, o2, e2 = once(*ctx.other)
            if rc2 == 0:
                if json.loads(o2)["digest"] != d["digest"]:
                    return f"the result differs from that of {config_name(*ctx.other)}", d["what"]
                return None
            rc, o, e = rc2, o2, e2
    finally:
        os.unlink(f.name)
    if rc == 0:
        d = json.loads(o)
        if d["ok"]:
            return None
        return d["msg"], d["what"]
    if rc is None or crashed(rc, e):
        return describe_exit(rc, e), ""
    raise NoVerdict(f"harness error on a case: {describe_exit(rc, e)}: {e[-500:]}")


def shrink(ctx, f, budget_s):
    """Delta-debugging of a failing case: shorter data, simpler bytes, zero parameters."""
    end = time.time() + budget_s
    fam, p, a, b = f.case.split()
    p = [int(x) for x in p.split(",")]
    a, b = bytes.fromhex(a[1:]), bytes.fromhex(b[1:])
    best = (p, a, b)
    msg = (f.msg, f.what)
    hang = "did not terminate" in f.msg

    def fails(c):
        nonlocal best, msg
        if time.time() > end:
            return False
        t = f"{fam} {','.join(map(str, c[0]))} x{c[1].hex()} x{c[2].hex()}"
        try:
            r = exec_case(ctx, f.job.cfg, f.job.level, t, 10 if not hang else 5)
        except NoVerdict:
            return False
        if r is None:
            return False
        best, msg = c, r
        return True

    unit = plan.SHRINK_UNIT.get(int(fam), 1)
    for which in (1, 2):
        size = len(best[which])
        while size >= unit:
            size = size // unit * unit
            i = 0
            while i < len(best[which]) and time.time() < end:
                d = best[which][:i] + best[which][i + size:]
                c = list(best)
                c[which] = d
                if not fails(tuple(c)):
                    i += size
            size //= 2
    for i in range(6):
        v = best[0][i]
        if i >= 2:
            for w in ([0, v // 2, v - 1] if v < 1 << 31 else [0]):
                if 0 <= w < v and fails((best[0][:i] + [w] + best[0][i + 1:], best[1], best[2])):
                    break
    # simpler bytes
    if len(best[1]) <= 400 and not hang:
        plain = 65 if int(fam) in (2, 3) else 0
        for i in range(0, len(best[1])):
            if best[1][i] != plain and time.time() < end:
                fails((best[0], best[1][:i] + bytes([plain]) + best[1][i + 1:], best[2]))
    p, a, b = best
    return Failure(f.job, f"{fam} {','.join(map(str, p))} x{a.hex()} x{b.hex()}", msg[0], msg[1])


class Ctx:
    pass


def run_job(ctx, job, idx):
    """Runs one job. Returns ("ok", report) | ("fail", Failure)."""
    if STOP.is_set():
        return "skipped", None
    journal = os.path.join(ctx.dir, f"journal-{idx}")
    t0 = time.time()
    with job.memory() or contextlib.nullcontext():
        if STOP.is_set():
            return "skipped", None
        rc, o, e = run(job.argv(ctx, journal), ctx.job_timeout)
    try:
        if STOP.is_set() and rc != 0:
            return "skipped", None
        if rc == 0:
            rep = json.loads(o)
            rep["wall_s"] = round(time.time() - t0, 1)
            if rep.get("fail"):
                x = rep["fail"]
                if "Sanitizer" in e:
                    log(e[-3000:])
                return "fail", Failure(job, x["case"] or None, x["msg"], x["what"])
            return "ok", rep
        if rc is None or crashed(rc, e):
            return "fail", Failure(job, read_journal(journal), describe_exit(rc, e))
        if rc == -signal.SIGKILL and job.part == "huge":
            log(f"{job.name()}: ended for lack of memory, skipped")
            return "skipped", None
        m = UNSUPPORTED.search(e)
        if m and "miri" in plan.CONFIGS[job.cfg]:
            log(f"{job.name()}: {m.group(1)}, skipped")
            return "skipped", None
        raise NoVerdict(f"job {job.name()} shard {job.shard}: {describe_exit(rc, e)}\n{e[-2000:]}")
    finally:
        try:
            os.unlink(journal)
        except OSError:
            pass


def confirm(ctx, f):
    """Re-executes a failure on its own. Returns a (possibly shrunk) failure, or None if it does not recur."""
    races = plan.PROPS[ctx.prop].get("races")
    ctx.repeat = 15 if races else 0
    if f.case:
        try:
            r = exec_case(ctx, f.job.cfg, f.job.level, f.case)
        except NoVerdict as e:
            log("confirmation:", e)
            r = None
        if r is not None:
            f.msg, f.what = r[0], r[1] or f.what
            ctx.repeat = 5 if races else 0
            return shrink(ctx, f, 60 if ctx.tier == "quick" else 200)
    if races and f.case:
        return Failure(f.job, f.case, f.msg + " (depends on the schedule: did not recur in 15 s)", f.what)
    # the failure needs the history before it: the whole job is the replay
    log(f"replaying the whole job {f.job.name()} ({f.msg})")
    for _ in range(1 if f.case else 3):
        seen, ctx.seen_file = ctx.seen_file, None
        try:
            kind, r = run_job(ctx, f.job, "confirm")
        finally:
            ctx.seen_file = seen
        if kind == "fail":
            g = Failure(f.job, None, r.msg, r.what)
            return g
    if "process ended by" in f.msg or f.job.cmd != "run":
        return Failure(f.job, None, f.msg + " (seen once; depends on the schedule or memory layout)", f.what)
    return None


def violation_id(f):
    return f"{f.job.name()} {f.case or f.job.part}"


def load_known(prop):
    """Known findings: lines 'finding: property=<id> match=<regex> | <what fails>'; 'fixed:' lines suppress nothing."""
    out = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) match=(.*?) \| (.*)", line.strip())
                if m and m.group(1) == prop:
                    out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


def write_replay(ctx, f):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{ctx.prop}-{os.getpid()}-{int(time.time())}.json")
    j = f.job
    with open(path, "w") as h:
        json.dump({"property": ctx.prop, "config": j.cfg, "level": j.level, "case": f.case, "message": f.msg,
                   "what": f.what, "seed": ctx.seed, "tier": ctx.tier,
                   "job": {"shard": j.shard, "shards": j.shards, "scale": j.scale, "part": j.part, "cmd": j.cmd, "extra": j.extra},
                   "other": ctx.other, "replay": f"python3 /verif/check.py --replay {path}"}, h, indent=1)
        h.write("\n")
    return path


def setup(prop, tier, seed):
    ctx = Ctx()
    ctx.prop, ctx.num, ctx.tier, ctx.seed = prop, int(prop[1:]), tier, seed
    os.makedirs(os.path.join(TARGET, "run"), exist_ok=True)
    ctx.dir = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(TARGET, "run"))
    ctx.seen_file = os.path.join(ctx.dir, "seen")
    ctx.dict_file = os.path.join(ctx.dir, "dict")
    ctx.job_timeout = 420 if tier == "quick" else 5400
    ctx.bins = {}
    ctx.repeat = 0  # seconds to repeat a single case for (schedules are not reproducible)
    ctx.other = None  # for comparisons: the configuration to agree with
    with open(ctx.dict_file, "w") as f:
        f.write(" ".join(dictionary.words("/repo/crates")) + "\n")
    return ctx


def build_all(ctx, cfgs):
    feats = plan.PROPS[ctx.prop]["features"]
    with cf.ThreadPoolExecutor(CORES) as ex:
        for c, b in zip(cfgs, ex.map(lambda c: build(c, feats, ctx.dir), cfgs)):
            ctx.bins[c] = b


def make_jobs(p, tier):
    jobs = []
    for spec in p["jobs"](tier):
        jobs.append(Job(**spec))
    return jobs


def check(prop, tier, seed):
    t0 = time.time()
    p = plan.PROPS[prop]
    ctx = setup(prop, tier, seed)
    known = load_known(prop)
    try:
        jobs = make_jobs(p, tier)
        cfgs = list(dict.fromkeys(j.cfg for j in jobs))
        build_all(ctx, cfgs)
        t1 = time.time()
        log(f"{prop}: built {len(cfgs)} configurations in {t1 - t0:.1f} s; {len(jobs)} jobs")
        reports, failures, errors = [], [], []
        with cf.ThreadPoolExecutor(p.get("workers", CORES)) as ex:
            futs = {ex.submit(run_job, ctx, j, i): j for i, j in enumerate(jobs)}
            for fu in cf.as_completed(futs):
                try:
                    kind, r = fu.result()
                except NoVerdict as e:
                    errors.append(str(e))
                    continue
                if kind == "ok":
                    reports.append((futs[fu], r))
                elif kind == "fail":
                    log(f"{futs[fu].name()} shard {futs[fu].shard}: {r.msg} | {r.what}")
                    if any(rx.search(violation_id(r)) for rx, _ in known):
                        continue
                    failures.append(r)
                    if not STOP.is_set():
                        STOP.set()
                        kill_all()
        STOP.clear()
        result = 0
        violations = []
        if not failures and not errors and p.get("compare"):
            failures += compare(ctx, reports)
        for f in failures:
            g = f if getattr(f, "confirmed", False) else confirm(ctx, f)
            if g is None:
                errors.append(f"failure did not recur on its own: {f.msg} | {f.what}")
                continue
            violations.append(g)
            break
        write_evidence(ctx, p, jobs, reports, violations, time.time() - t0)
        for rx, text in known:
            print(f"KNOWN-FINDING: property={prop} {text}")
        if violations:
            g = violations[0]
            path = write_replay(ctx, g)
            log(f"{g.job.name()}: {g.msg}\n  {g.what}\n  case: {(g.case or 'whole job')[:400]}")
            print(f"VIOLATION property={prop} replay={path}", flush=True)
            result = 1
        elif errors:
            for e in errors:
                log("ERROR:", e)
            result = 2
        log(f"{prop}: {'held' if result == 0 else 'VIOLATED' if result == 1 else 'no verdict'} after {time.time() - t0:.1f} s")
        return result
    except NoVerdict as e:
        log("ERROR:", e)
        return 2
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)


def compare(ctx, reports):
    """All jobs over the same cases must have the same digests; finds the first case that differs."""
    groups = {}
    for j, r in reports:
        groups.setdefault((j.shard, j.shards, j.scale, j.part), []).append((j, r["digests"]))
    for _, g in sorted(groups.items()):
        votes = {}
        for j, d in g:
            votes.setdefault(tuple(d), []).append(j)
        if len(votes) == 1:
            continue
        agreed = max(votes, key=lambda d: len(votes[d]))
        ref = votes[agreed][0]
        odd, digests = next((js[0], d) for d, js in votes.items() if d != agreed)
        k = next((i for i, (x, y) in enumerate(zip(agreed, digests)) if x != y), min(len(agreed), len(digests)))
        traces = []
        for j in (ref, odd):
            x = Job(j.cfg, j.level, j.shard, j.shards, j.scale, j.part, j.cmd, j.extra + ["--trace", str(k)])
            rc, o, e = run(x.argv(ctx), ctx.job_timeout)
            if rc != 0:
                raise NoVerdict(f"rerun of {j.name()}: {describe_exit(rc, e)}")
            traces.append(json.loads(o).get("trace", []))
        for x, y in zip(*traces):
            if x != y:
                if x.split(" ", 1)[1] != y.split(" ", 1)[1]:
                    raise NoVerdict(f"{odd.name()} and {ref.name()} generate different cases")
                ctx.other = (ref.cfg, ref.level)
                return [Failure(odd, x.split(" ", 1)[1], f"the result differs from that of {ref.name()}")]
        raise NoVerdict(f"digests of {odd.name()} and {ref.name()} differ once only")
    return []


def write_evidence(ctx, p, jobs, reports, violations, wall):
    ev = sum(r["evaluations"] for _, r in reports)
    dn = sum(r["distinct"] for _, r in reports)
    classes, per = {}, {}
    for j, r in reports:
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
        q = per.setdefault(j.name(), {"evaluations": 0, "cpu_s": 0})
        q["evaluations"] += r["evaluations"]
        q["cpu_s"] = round(q["cpu_s"] + r["wall_s"], 1)
        for k, v in r.get("extra", {}).items():
            q[k] = q.get(k, 0) + v
    samples = []
    for j, r in reports:
        step = max(1, len(r["samples"]) // 4)
        samples += [f"[{j.name()}] {s}" for s in r["samples"][::step][:4]]
    step = max(1, len(samples) // 40)
    d = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn, "rule": p["rule"],
            "samples": samples[::step][:40], "classes": classes, "configurations": per,
            "jobs_planned": len(jobs), "jobs_completed": len(reports),
        },
        "assumptions": p.get("assumptions", plan.ASSUMPTIONS),
        "wall_s": round(wall, 1), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", ctx.prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    ctx = setup(d["property"], d["tier"], d["seed"])
    ctx.seen_file = None
    try:
        j = Job(d["config"], d["level"], **d["job"])
        cfgs = [d["config"]]
        if d.get("other"):
            ctx.other = tuple(d["other"])
            cfgs.append(d["other"][0])
        build_all(ctx, cfgs)
        ctx.repeat = 15 if plan.PROPS[ctx.prop].get("races") else 0
        if d.get("case") and d["job"]["cmd"] == "run":
            r = exec_case(ctx, j.cfg, j.level, d["case"])
            print("passes" if r is None else f"fails: {r[0]} | {r[1]}")
            return 0 if r is None else 1
        kind, r = run_job(ctx, j, "replay")
        print("passes" if kind == "ok" else f"fails: {r.msg} | {r.what}")
        return 0 if kind == "ok" else 1
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1:] == ["--setup"]:
        d = tempfile.mkdtemp(prefix="simdcheck-")
        try:
            build("rel", ["b64", "b32", "hex", "uuid", "uni"], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        sys.exit(0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.exit(check(prop, tier, seed))


if __name__ == "__main__":
    main()
