"""N01, N02, N03: worker failures, process-wide state, independence of history, threads and environment.

N02 and N03 use the workloads of all other checks: their cases run with a recorder in place of the case object, which sees
every call into the package (arguments and results) and takes snapshots of the process around it.
"""
import decimal
import gc
import importlib
import json
import locale
import logging
import multiprocessing
import os
import pickle
import random
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import warnings
from pathlib import Path

import numpy as np

from vp.core import Case, Skip, Violation

VERIF = Path(__file__).resolve().parent.parent
# case functions that change the process themselves (stand-in pools, servers, forks) or take long
NOT_STATE = {("J03", "real"), ("J03", "known"), ("R03", "realpool"), ("A01", "many")}
STATE = ["S01", "S02", "L01", "D01", "J01", "J02", "J03", "J04", "R01", "R02", "R03", "R04", "C01", "C02", "K01", "K02", "A01", "A02", "A03", "A04", "O01", "O02", "O03",
         "M01", "M02", "W01", "W02", "W03", "T01", "T02", "V01"]
HEAVY = {"M01", "T01", "A01", "J04", "K01", "K02"}
THREADS = {("S01", "ramps"), ("S02", "patterns"), ("L01", "plain"), ("L01", "reads"), ("D01", "exposures"), ("J01", "random"), ("J01", "short"), ("J02", "random"), ("J04", "snowballs"), ("J04", "showers"),
           ("R01", "general"), ("R02", "general"), ("R04", "general"), ("R03", "permute"), ("R03", "layout"), ("C01", "estimator"), ("C02", "search"), ("C02", "planted"), ("K01", "fit"), ("K02", "search"),
           ("A04", "maps"), ("A04", "areas"), ("A04", "weights"), ("O02", "masks"), ("O02", "weight"), ("O03", "blot"), ("W01", "grids"), ("W02", "regions"), ("W03", "helpers"),
           ("T02", "filtering"), ("V01", "sphere")}
# overlap areas of regions that touch are noisy from call to call (spherical_geometry tries random points)
NOISY = {("M02", "regions"), ("M02", "groups")}
_CASES = {}


def cases(pid):
    """{stream: case function} of another check."""
    if pid not in _CASES:
        spec = json.loads((VERIF / "checks/index.json").read_text())[pid]
        mod = importlib.import_module("checks." + spec["module"])
        mod = mod.CHECKS[pid] if isinstance(getattr(mod, "CHECKS", None), dict) else mod
        _CASES[pid] = {n: f for n, _, f in mod.streams("quick") if (pid, n) not in NOT_STATE}
    return _CASES[pid]


# --------------------------------------------------------------------------------------- results in comparable form
def flatten(x, path="", out=None, depth=0, seen=None):
    """Arrays, numbers and texts reachable from a value, by path; whatever cannot be compared is left out."""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if depth > 6 or id(x) in seen:
        return out
    if x is None or isinstance(x, (bool, int, float, complex, np.generic)):
        out.append((path, np.asarray(np.nan if x is None else x)))
    elif isinstance(x, str):
        if "/" not in x:  # paths of scratch files differ
            out.append((path, np.asarray(x)))
    elif isinstance(x, np.ma.MaskedArray):
        out.append((path, np.ma.getmaskarray(x).copy()))
        out.append((path, np.where(np.ma.getmaskarray(x), 0, x.data) if x.dtype.kind in "fiub" else np.asarray([str(v) for v in x.ravel()])))
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "fciub":
            out.append((path, np.array(x, copy=True)))
        elif x.dtype.kind in "US":
            out.append((path, np.array(x, copy=True)))
    elif isinstance(x, dict):
        seen = seen | {id(x)}
        for k in sorted(x, key=str):
            flatten(x[k], f"{path}.{k}", out, depth + 1, seen)
    elif isinstance(x, (list, tuple)):
        seen = seen | {id(x)}
        for i, v in enumerate(x):
            flatten(v, f"{path}[{i}]", out, depth + 1, seen)
    elif type(x).__module__.startswith(("stcal", "types", "checks")) and not isinstance(x, type) and hasattr(x, "__dict__") and not callable(x):
        flatten({k: v for k, v in vars(x).items() if not k.startswith("__") and "time_" not in k and "elapsed" not in k}, path, out, depth + 1, seen | {id(x)})
    return out


def differs(a, b):
    if len(a) != len(b):
        return f"{len(a)} values against {len(b)}"
    for (p, x), (q, y) in zip(a, b):
        if p != q or x.shape != y.shape or x.dtype.kind != y.dtype.kind:
            return f"{p} {x.shape} {x.dtype} against {q} {y.shape} {y.dtype}"
        if x.dtype.kind in "fc":
            one = x.dtype.itemsize <= 4 or (x.dtype.kind == "c" and x.dtype.itemsize <= 8)
            with np.errstate(all="ignore"):
                bad = ~((x == y) | (np.isnan(x) & np.isnan(y)) | (np.abs(x - y) <= (2e-5 if one else 1e-9) * np.maximum(np.abs(x), np.abs(y))))
                top = np.nanmax(np.where(np.isfinite(x), np.abs(x), 0)) if x.size else 0
                bad &= ~(np.abs(x - y) <= (1e-6 if one else 1e-11) * top)
        else:
            bad = x != y
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0]) if x.ndim else ()
            return f"{p}{list(map(int, i))}: {x[i]!r} against {y[i]!r} ({int(np.sum(bad))} of {x.size})"
    return None


class Recorder(Case):
    """Stands in for the case of another check and records each call into the package."""

    def __init__(self, pid, seed, stream, idx, watch=None, keep=True):
        super().__init__(pid, seed, "quick", stream, idx)
        self.watch, self.keep, self.log, self.changes, self.ncalls = watch, keep, [], [], 0

    def call(self, fn, *a, **k):
        name = getattr(fn, "__name__", type(fn).__name__)
        self.ncalls += 1
        before = self.watch() if self.watch else None
        try:
            r = fn(*a, **k)
            out = None
        except (Violation, Skip):
            raise
        except Exception as e:
            out = e
        if self.watch:
            after = self.watch()
            self.changes += [(name, key, before[key], after[key]) for key in before if not same_state(before[key], after[key])]
        if self.keep:
            try:
                self.log.append((name, type(out).__name__ if out is not None else "", flatten([a, k, None if out is not None else r])))
            except Exception as e:  # an object that refuses to be looked at
                self.log.append((name, f"unreadable {type(e).__name__}", []))
        if out is not None:
            raise Violation("exception") from out
        return r


def play(pid, stream, idx, seed, watch=None, keep=True, base=None):
    """(outcome, recorder) of one case of another check."""
    r = Recorder(pid, seed, stream, idx, watch, keep)
    try:
        cases(pid)[stream](r)
        how = "done"
    except Violation:
        how = "violation " + (r.fails[-1]["mech"] if r.fails else "")
    except Skip:
        how = "skipped"
    except MemoryError:
        raise
    except Exception as e:
        how = f"broke {type(e).__name__}"
    finally:
        if r.scratch_dir:
            import shutil

            shutil.rmtree(r.scratch_dir, ignore_errors=True)
    return how, r


# --------------------------------------------------------------------------------------- the process
def same_state(a, b):
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_state(x, y) for x, y in zip(a, b))
    return a is b or a == b


def snapshot():
    """Everything process-wide a library could disturb; cheap enough to take around every call."""
    um = os.umask(0o77)
    os.umask(um)
    loggers = {n: (v.level, v.disabled, v.propagate, tuple(map(id, v.handlers)), len(v.filters)) for n, v in logging.root.manager.loggerDict.items() if isinstance(v, logging.Logger) and (n == "stcal" or not n.startswith(("stcal.", "tweakwcs")) or v.level or v.handlers or v.disabled)}
    return {
        "numpy error handling": tuple(sorted(np.geterr().items())) + (np.geterrcall(),),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "numpy buffer size": np.getbufsize(),
        "numpy random state": np.random.get_state(),
        "random state": random.getstate(),
        "warning filters": tuple(warnings.filters),
        "warning printer": (warnings.showwarning, warnings.formatwarning),
        "root logging": (logging.root.level, tuple(logging.root.handlers), logging.root.manager.disable),
        "loggers": loggers,
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "file mode mask": um,
        "signal handlers": tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE, signal.SIGALRM, signal.SIGUSR1, signal.SIGHUP)),
        "timer": signal.getitimer(signal.ITIMER_REAL)[0] > 0,
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "import path": tuple(sys.path),
        "streams": (sys.stdout, sys.stderr, sys.stdin),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.gettrace(), sys.getprofile()),
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "socket timeout": socket.getdefaulttimeout(),
        "decimal context": (decimal.getcontext().prec, decimal.getcontext().rounding),
        "start method": multiprocessing.get_start_method(allow_none=True),
        "priority": os.nice(0),
        "processors": tuple(sorted(os.sched_getaffinity(0))),
        "default temporary directory": tempfile.tempdir,
        "time zone": (time.tzname, os.environ.get("TZ")),
    }


def children():
    me, out = os.getpid(), {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                st = Path(f"/proc/{p}/stat").read_text().rsplit(")", 1)[1].split()
                cmd = Path(f"/proc/{p}/cmdline").read_text()
            except OSError:
                continue
            if int(st[1]) == me and "resource_tracker" not in cmd:
                out[int(p)] = st[0]
    return out


def belongings(*dirs):
    """What outlives the calls of a case: threads, children, open files, files left in working and temporary directories."""
    gc.collect()
    fds = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            fds[f] = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            pass
    return {
        "threads": sorted(t.name for t in threading.enumerate()), "children": sorted(children()),
        "open files": sorted(v for v in fds.values() if not v.startswith("/proc/")),
        "files left": sorted(str(p) for d in dirs for p in Path(d).rglob("*")),
    }


class N02:
    PID = "N02"
    RULE = "cases of all other checks replayed with snapshots of the process around every call and around every case; distinct = (check, stream, calls made, outcome)"
    ASSUMPTIONS = ["files, threads and open files are judged once the objects of a case are gone", "everything is run once before it is judged, so lazy imports do not count"]
    REQUIRE = {"calls_watched": 1000, "cases_watched": 150}
    CASE_TIMEOUT = 400

    @staticmethod
    def watched(pid):
        def case(c):
            known = cases(pid)
            stream = sorted(known)[int(c.rng.integers(len(known)))]
            idx = int(c.rng.integers(1 << 20))
            if c.rng.random() < .5:  # a lively process: nothing at its default
                np.random.seed(int(c.rng.integers(1 << 30)))
                random.seed(int(c.rng.integers(1 << 30)))
            old_dir, old_tmp, old_err = os.getcwd(), tempfile.tempdir, np.geterr()
            work, tmp = c.scratch() / "work", c.scratch() / "tmp"
            work.mkdir()
            tmp.mkdir()
            os.chdir(work)
            tempfile.tempdir = str(tmp)
            try:
                play(pid, stream, idx, c.seed, keep=False)
                for p in list(work.rglob("*")) + list(tmp.rglob("*")):
                    if p.is_file() or p.is_symlink():
                        p.unlink()
                s0, b0 = snapshot(), belongings()
                how, r = play(pid, stream, idx, c.seed, watch=snapshot, keep=False)
                calls, changes = r.ncalls, r.changes
                del r
                s1, b1 = snapshot(), belongings(*(p for p in (work, tmp) if how == "done"))
            finally:
                os.chdir(old_dir)
                tempfile.tempdir = old_tmp
                np.seterr(**old_err)
            for name, key, x, y in changes:
                c.fail("state", f"{pid}/{stream}#{idx}: {name} changed the {key}: {str(x)[:200]} -> {str(y)[:200]}")
            for key in s0:
                c.check(same_state(s0[key], s1[key]), "state", f"{pid}/{stream}#{idx}: {key} changed: {str(s0[key])[:200]} -> {str(s1[key])[:200]}")
            if how != "skipped":
                for key in ("threads", "children", "open files"):
                    more = list(b1[key])
                    for v in b0[key]:
                        if v in more:
                            more.remove(v)
                    c.check(not more, "left_behind", f"{pid}/{stream}#{idx}: {key} left behind: {more}")
                left = [p for p in b1["files left"] if os.path.basename(p) not in ("tmp", "work")]
                c.check(not left, "left_behind", f"{pid}/{stream}#{idx}: files left behind: {left}")
            c.count("calls_watched", max(calls, 1))
            c.count("cases_watched")
            c.state(pid, stream, calls, how)
            c.describe(check=pid, case_stream=stream, case_idx=idx, outcome=how)
        return case

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [(p, (3 if p in HEAVY else 12) * k, N02.watched(p)) for p in STATE]


# --------------------------------------------------------------------------------------- independence
def replayed(seed, plan):
    """Results of cases in this order, in this process."""
    return [(how, r.log) for how, r in (play(p, s, i, seed) for p, s, i in plan)]


def compare(c, plan, a, b, what):
    for (p, s, i), (ha, la), (hb, lb) in zip(plan, a, b):
        where = f"{p}/{s}#{i} {what}"
        c.check(ha == hb, "outcome", f"{where}: {ha} against {hb}")
        c.check(len(la) == len(lb), "calls", f"{where}: {len(la)} calls against {len(lb)}")
        for k, (x, y) in enumerate(zip(la, lb)):
            c.check(x[:2] == y[:2], "outcome", f"{where}: call {k} {x[:2]} against {y[:2]}")
            d = differs(x[2], y[2])
            c.check(d is None, "result", lambda: f"{where}: call {k} ({x[0]}): {d}")
            c.count("calls_compared")
            c.count("values_compared", sum(v.size for _, v in x[2]))
        c.state(what, p, s, len(la), ha)


def plan(rng, n, only=None, heavy=True):
    out = []
    while len(out) < n:
        p = STATE[int(rng.integers(len(STATE)))]
        if p in HEAVY and (not heavy or rng.random() < .6):
            continue
        ks = sorted(k for k in cases(p) if (p, k) not in NOISY and (only is None or (p, k) in only))
        if ks:
            out.append((p, ks[int(rng.integers(len(ks)))], int(rng.integers(1 << 20))))
    return out


class N03:
    PID = "N03"
    RULE = "cases of all other checks replayed in another order, in threads that run at the same time, and in fresh processes with another hash seed, time zone, directory, optimisation level; distinct = (what changed, check, stream, calls, outcome)"
    ASSUMPTIONS = ["results are compared to 1e-9 (2e-5 for single precision)", "concurrent calls work on separate arguments", "relative and absolute alignment, which rely on the process-wide record of warnings, are not run in concurrent threads"]
    REQUIRE = {"calls_compared": 1500, "thread_runs": 10, "fresh_processes": 8, "orders": 20}
    CASE_TIMEOUT = 600

    @staticmethod
    def order(c):
        todo = plan(c.rng, 8)
        a = replayed(c.seed, todo)
        ix = c.rng.permutation(len(todo))
        again = replayed(c.seed, [todo[i] for i in ix])
        b = [None] * len(todo)
        for j, i in enumerate(ix):
            b[i] = again[j]
        compare(c, todo, a, b, "in another order")
        c.count("orders")
        c.describe(plan=todo)

    @staticmethod
    def threads(c):
        n = int(c.rng.integers(2, 6))
        # several threads in the same function, or all over the package
        if c.rng.random() < .5:
            p, s, _ = plan(c.rng, 1, only=THREADS, heavy=True)[0]
            todo = [(p, s, int(i)) for i in c.rng.integers(1 << 20, size=3 * n)]
        else:
            todo = plan(c.rng, 3 * n, only=THREADS, heavy=c.rng.random() < .3)
        a = replayed(c.seed, todo)
        b, bar, old = [None] * len(todo), threading.Barrier(n), sys.getswitchinterval()

        def run(k):
            bar.wait()
            for i in range(k, len(todo), n):
                b[i] = replayed(c.seed, [todo[i]])[0]

        sys.setswitchinterval(float(10 ** c.rng.uniform(-6, -3)))
        filters = list(warnings.filters)
        try:
            ts = [threading.Thread(target=run, args=(k,)) for k in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
            warnings.filters[:] = filters
            warnings._filters_mutated()
        c.check(all(x is not None for x in b), "thread", "a thread ended early")
        compare(c, todo, a, b, f"in {n} threads")
        c.count("thread_runs")
        c.describe(plan=todo, threads=n)

    @staticmethod
    def fresh(c):
        todo = plan(c.rng, 12)
        a = replayed(c.seed, todo)
        d = c.scratch()
        (d / "elsewhere").mkdir()
        (d / "plan.json").write_text(json.dumps({"seed": c.seed, "plan": todo}))
        flags = []
        env = dict(os.environ, PYTHONHASHSEED=str(int(c.rng.integers(1, 1 << 31))), TZ=str(c.rng.choice(["UTC", "Asia/Tokyo", "America/New_York"])), TMPDIR=str(d / "elsewhere"))
        what = ["hash seed", "time zone", "directory"]
        if c.rng.random() < .5:
            flags.append("-O")
            what.append("no assertions")
        if c.rng.random() < .3:
            env["OMP_NUM_THREADS"] = "3"
        p = subprocess.run([sys.executable, *flags, "-W", "ignore", "-m", "checks.process", str(d / "plan.json"), str(d / "out.pkl")], cwd=d / "elsewhere", env=env, capture_output=True, text=True, timeout=400)
        if p.returncode:
            c.fail("process", f"fresh process ended with {p.returncode}: {p.stderr[-600:]}")
        b = pickle.loads((d / "out.pkl").read_bytes())
        compare(c, todo, a, b, "in a fresh process (" + ", ".join(what) + ")")
        c.count("fresh_processes")
        c.describe(plan=todo, what=what)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [("order", 40 * k, N03.order), ("threads", 60 * k, N03.threads), ("fresh", 16 * k, N03.fresh)]


# --------------------------------------------------------------------------------------- worker failures
class N01:
    PID = "N01"
    RULE = "jump detection and ramp fitting with real worker processes that are killed at random points of their life, run out of memory or find an unusable input; distinct = (step, slices, fault, point, outcome)"
    ASSUMPTIONS = ["a worker that dies early enough may be replaced, so that the call still succeeds"]
    REQUIRE = {"faults": 5, "kills": 2, "intact": 1}
    CASE_TIMEOUT = 300

    @staticmethod
    def case(c):
        d = c.scratch()
        job = {"seed": int(c.rng.integers(1 << 30)), "which": str(c.rng.choice(["jump", "ramp"])), "slices": int(c.rng.integers(2, 5)), "fault": ["kill", "kill", "memory", "kill", "none"][c.idx % 5],
               "cpu": float(c.rng.uniform(.02, 1.0)), "victim": int(c.rng.integers(4)), "limit": 75}
        (d / "job.json").write_text(json.dumps(job))
        err = open(d / "err", "w")
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "checks.process", "worker", str(d / "job.json"), str(d / "res.json")], cwd=VERIF, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        try:
            p.wait(timeout=200)
        except subprocess.TimeoutExpired:
            pass
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        if not (d / "res.json").exists():
            c.fail("caller_died", f"{job}: the calling process ended with {p.returncode}: {(d / 'err').read_text()[-500:]}")
        res = json.loads((d / "res.json").read_text())
        c.describe(**job, **res)
        c.check(res["outcome"] != "hang", "hang", f"{job}: no answer {job['limit']} s after a worker failed ({res['fired']})")
        c.check(not res["left"], "left_behind", f"{job}: processes left behind: {res['left']}")
        if res["outcome"] == "result":
            c.check(res["same"], "partial_result", f"{job}: a result that differs from that of an undisturbed run")
            c.count("intact")
        else:
            c.check(bool(res["fired"]), "spurious", f"{job}: {res['outcome']} without a fault: {res['error'][:300]}")
            c.count("errors")
        c.check(res["again"], "not_repeatable", f"{job}: a later call does not give the undisturbed result")
        c.count("faults", int(bool(res["fired"])))
        c.count("kills", int(bool(res["fired"]) and job["fault"] == "kill"))
        c.state(job["which"], job["slices"], job["fault"], round(job["cpu"] * 5), res["outcome"])

    @staticmethod
    def streams(tier):
        return [("workers", 20 if tier == "quick" else 250, N01.case)]


def worker_job(path, out):
    """Runs in a process of its own: an undisturbed run, a disturbed one, and one after that."""
    import resource

    from .lib import jumpgen, rampgen
    from . import jump as J

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    job = json.loads(Path(path).read_text())
    r = np.random.default_rng(job["seed"])
    if job["which"] == "jump":
        d = J.exposure(r, nrows=700, ncols=700, nints=1, ngroups=12, read_pattern=None)
        o = J.options(r, True)
        o.update(flag_4_neighbors=False, after_jump_flag_n1=0, after_jump_flag_n2=0, minimum_sigclip_groups=100, only_use_ints=True)
        run = lambda cores, d=d: jumpgen.run(d, dict(o, max_cores=cores))
        small = jumpgen.clone(d)
    else:
        m = rampgen.make(r, nints=2, ngroups=8, nrows=700, ncols=700)
        run = lambda cores, m=m: rampgen.run_ols(m, save_opt=False, max_cores=cores)
    cpus = os.cpu_count
    os.cpu_count = lambda: 8
    multiprocessing.cpu_count = lambda: 8
    good = flatten(run("none"))
    res = {"outcome": None, "fired": "", "error": "", "same": None, "left": [], "again": None}
    done = threading.Event()

    def spawned():
        return sorted(p for p, s in children().items() if s != "Z")

    def used(p):
        try:
            st = Path(f"/proc/{p}/stat").read_text().rsplit(")", 1)[1].split()
        except OSError:
            return 0
        return (int(st[11]) + int(st[12])) / os.sysconf("SC_CLK_TCK")

    def disturb():
        while not done.is_set():
            ps = spawned()
            if job["fault"] == "kill" and ps:
                p = ps[job["victim"] % len(ps)]
                if used(p) >= job["cpu"]:
                    try:
                        os.kill(p, signal.SIGKILL)
                    except OSError:
                        continue
                    res["fired"] = f"killed after {used(p):.2f} s"
                    return
            if job["fault"] == "memory":
                for p in ps:
                    if used(p) >= .05:
                        try:
                            size = int(Path(f"/proc/{p}/statm").read_text().split()[0]) * os.sysconf("SC_PAGE_SIZE")
                            resource.prlimit(p, resource.RLIMIT_AS, (size + int(job["cpu"] * 100e6),) * 2)
                            res["fired"] = "memory limited"
                        except OSError:
                            pass
                if res["fired"]:
                    return
            time.sleep(.005)

    def judge(v):
        return differs(good, flatten(v)) is None

    def expire():
        if not done.wait(job["limit"]):
            res["outcome"] = "hang"
            Path(out).write_text(json.dumps(res))
            os._exit(0)

    for t in (disturb, expire):
        threading.Thread(target=t, daemon=True).start()
    try:
        v = run(str(job["slices"]))
        res["outcome"], res["same"] = "result", judge(v)
        del v
    except Exception as e:
        res["outcome"], res["error"] = "error", repr(e)[:500]
    done.set()
    gc.collect()
    for _ in range(100):
        if not spawned():
            break
        time.sleep(.05)
    res["left"] = [Path(f"/proc/{p}/cmdline").read_text()[:200] for p in spawned()]
    res["again"] = judge(run("none"))
    Path(out).write_text(json.dumps(res))
    os._exit(0)


if __name__ == "__main__":
    if sys.argv[1] == "worker":
        from checks.process import worker_job

        worker_job(*sys.argv[2:])
    else:
        from checks.process import replayed as again

        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        p = json.loads(Path(sys.argv[1]).read_text())
        Path(sys.argv[2]).write_bytes(pickle.dumps(again(p["seed"], [tuple(x) for x in p["plan"]])))

CHECKS = {"N01": N01, "N02": N02, "N03": N03}
