"""R05, R06: memory safety, undefined arithmetic and resource balance of the compiled fitters.

R05 runs the extensions built with AddressSanitizer and UndefinedBehaviorSanitizer inside the
workers (a report aborts the worker, which the runner turns into a violation with the report),
plus the plain build under valgrind memcheck and under different allocator fill patterns.
R06 watches the native heap, interpreter objects and reference counts over repeated calls.
"""
import copy
import ctypes
import gc
import hashlib
import os
import re
import subprocess
import sys

import numpy as np

from vp import build
from .lib import nativegen as g


class Shim:
    """The allocation counters compiled into the staged C extension (vp/alloc_shim.h)."""

    def __init__(self):
        import stcal.ramp_fitting.slope_fitter as ext

        self.lib = ctypes.CDLL(ext.__file__)

    def __getattr__(self, name):
        return ctypes.c_long.in_dll(self.__dict__["lib"], "vp_" + name)


def plain_env(**extra):
    src = build.stage(("cas22", "slope"), "plain")
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
    env.update(PYTHONPATH=f"{src}:{build.VERIF}", PYTHONMALLOC="malloc", **extra)
    return env


def legal_ols(c, extreme=False):
    for _ in range(6):
        m = g.ols_exposure(c.rng, extreme)
        if c.rng.random() < .5:
            g.relayout_all(c.rng, m)
        save = bool(c.rng.random() < .6)
        try:
            out = g.call_ols(m, save, suppress=bool(c.rng.random() < .3))
        except Exception as e:  # noqa: BLE001
            if not extreme:
                c.fail(f"exception:{type(e).__name__}", f"legal exposure of shape {m.data.shape} rejected: {e}")
            c.count("rejected")
            continue
        c.count("ols_fits")
        c.count("sanitized_calls")
        if out[0] is not None:
            c.count("ols_results")
            if save:
                c.count("ols_segments", int((out[2]["var_rnoise"] != 0).sum()))
        c.state("ols", m.data.shape[:2], save, m.zeroframe is not None, extreme)


def extreme_ols(c):
    legal_ols(c, True)


def out_of_memory(c):
    """Fail the n-th allocation of a fit: an exception, nothing freed twice, nothing lost, and the next fit works."""
    shim = Shim()
    m = g.ols_exposure(c.rng)
    save = bool(c.rng.random() < .6)
    shim.allocs.value, shim.fail_at.value = 0, 1 << 60
    before = shim.live.value
    good = g.call_ols(copy.deepcopy(m), save)
    total = shim.allocs.value
    c.check(shim.live.value == before, "native_leak", f"{shim.live.value - before} blocks not released by a fit")
    if good[0] is None or total == 0:
        shim.fail_at.value = -1
        return
    at = {0, 1, 2, total - 1} | set(int(x) for x in c.rng.integers(0, total, 14))
    for k in sorted(x for x in at if x < total):
        shim.allocs.value, shim.fail_at.value = 0, k
        try:
            g.call_ols(copy.deepcopy(m), save)
        except Exception as e:  # noqa: BLE001
            shim.fail_at.value = -1
            c.check(not isinstance(e, SystemError), "system_error", f"allocation {k} of {total} failed: {e!r}")
            c.count("failed_allocations_reported")
        else:
            hit, shim.fail_at.value = shim.allocs.value > k, -1
            c.check(not hit, "allocation_failure_hidden", f"allocation {k} of {total} failed, but the fit returned a result")
        c.check(shim.live.value == before, "native_leak",
                f"{shim.live.value - before} blocks not released after allocation {k} of {total} failed")
        c.count("failed_allocations")
        c.state("oom", k if k < 30 else (k - 30) % 14, m.data.shape[:2])
    a, b = (hashlib.sha256() for _ in range(2))
    g.digest(a, good)
    g.digest(b, g.call_ols(copy.deepcopy(m), save))
    c.check(a.digest() == b.digest(), "history", "a fit after failed ones gives another result")


def bad_ols(c):
    for _ in range(12):
        m = g.ols_exposure(c.rng)
        what, must, kw = g.break_ols(c.rng, m)
        try:
            out = g.call_ols(m, bool(c.rng.random() < .5), **kw)
        except Exception as e:  # noqa: BLE001
            c.count("rejected")
            c.check(not isinstance(e, SystemError), "system_error", f"{what}: {e!r}")
        else:
            # an exposure without usable groups is answered before anything is read
            c.check(not must or out[0] is None, f"accepted:{what.split(':')[0]}", f"malformed call ({what}) produced a result")
            c.count("tolerated")
        c.count("malformed_calls")
        c.count("sanitized_calls")
        c.state("bad", what)


def legal_cas(c, extreme=False):
    for _ in range(8):
        d = g.cas_case(c.rng, extreme)
        try:
            out = g.call_cas(d)
        except Exception as e:  # noqa: BLE001
            if not extreme:
                c.fail(f"exception:{type(e).__name__}", f"legal ramps of shape {d['resultants'].shape} rejected: {e}")
            c.count("rejected")
            continue
        c.count("cas_fits", out.parameters[..., 0].size)
        c.count("sanitized_calls")
        c.state("cas", d["resultants"].shape[0], d["use_jump"], extreme)


def extreme_cas(c):
    legal_cas(c, True)


def bad_cas(c):
    for _ in range(12):
        d = g.cas_case(c.rng)
        what, must = g.break_cas(c.rng, d)
        try:
            g.call_cas(d)
        except Exception as e:  # noqa: BLE001
            c.count("rejected")
            c.check(not isinstance(e, SystemError), "system_error", f"{what}: {e!r}")
        else:
            c.check(not must, f"accepted:{what}", f"malformed Casertano fit ({what}) produced a result")
            c.count("tolerated")
        c.count("malformed_calls")
        c.count("sanitized_calls")
        c.state("badcas", what)


def fill_patterns(c):
    """Uninitialised memory would make results depend on what the allocator left behind."""
    n = 30 if c.tier == "quick" else 90
    outs = []
    for fill in (0, 85, 171, 254):
        r = subprocess.run([sys.executable, "-m", "checks.lib.nativegen", str(int(c.rng.bit_generator.seed_seq.entropy[0]) * 1000 + c.idx),
                            str(n)], env=plain_env(MALLOC_PERTURB_=str(fill)), cwd=build.VERIF, capture_output=True, text=True)
        if r.returncode:
            c.fail("crash", f"process with allocator fill {fill} died with status {r.returncode}: {r.stderr[-1500:]}")
        outs.append([x for x in r.stdout.splitlines() if x.startswith("DIGEST")])
        c.check(len(outs[-1]) == n, "lost_output", f"{len(outs[-1])} of {n} results")
    for i in range(n):
        c.check(len({o[i] for o in outs}) == 1, "uninitialised", f"result {i} depends on the contents of fresh memory: "
                f"{[o[i] for o in outs]}")
        c.count("results_under_4_fills")
        c.state("fill", outs[0][i])


def little_memory(c):
    """Result arrays that cannot be allocated: MemoryError, no crash, and the process stays usable."""
    env = plain_env(MALLOC_MMAP_THRESHOLD_="65536", MALLOC_ARENA_MAX="1")
    env["PYTHONMALLOC"] = "debug"
    r = subprocess.run([sys.executable, "-m", "checks.lib.nativegen", "limited", str(c.idx)], env=env, cwd=build.VERIF,
                       capture_output=True, text=True)
    got = [x.split() for x in r.stdout.splitlines()]
    if r.returncode or not got or got[-1][0] != "AFTER":
        c.fail("crash", f"process short of memory died with status {r.returncode} after {got[-1:]}: {r.stderr[-1500:]}")
    for x in got[:-1]:
        c.count("memory_limits")
        c.state("limit", x[1], x[2])
        if x[2] == "MemoryError":
            c.count("memory_errors")
        c.check(x[2] in ("same", "MemoryError"), "memory_error", f"limit {x[1]}: {x[2]}")
    c.check(got[-1][1] == "same", "history", "a fit after failed ones gives another result")


VG_ERR = re.compile(r"^==\d+== (Invalid|Conditional jump|Use of uninit|Source and dest|Mismatched|Argument|Syscall param)")


def memcheck(c):
    """Binary-level checking of the plain build: out of bounds, freed and uninitialised memory."""
    n = 24 if c.tier == "quick" else 150
    log = c.scratch() / "vg"
    r = subprocess.run(["valgrind", f"--log-file={log}", "--num-callers=25", "--error-limit=no", sys.executable, "-m",
                        "checks.lib.nativegen", str(1000 + c.idx + 77 * int(c.rng.integers(0, 1000))), str(n)], env=plain_env(), cwd=build.VERIF,
                       capture_output=True, text=True)
    done = r.stdout.count("DIGEST")
    if r.returncode or done != n:
        c.fail("crash", f"under valgrind: status {r.returncode}, {done} of {n} results; {r.stderr[-1500:]}")
    c.count("memcheck_results", done)
    block, bad = [], []
    for line in log.read_text(errors="replace").splitlines() + ["==0== "]:
        if re.match(r"^==\d+== *$", line):
            if block and VG_ERR.match(block[0]) and any(("slope_fitter" in b or "ols_cas22" in b) for b in block[:12]):
                bad.append("\n".join(block[:14]))
            block = []
        else:
            block.append(line)
    c.state("memcheck", done)
    if bad:
        c.fail("memcheck", f"{len(bad)} reports; first:\n{bad[0]}")


class R05:
    PID = "R05"
    RULE = "distinct (fitter, groups, integrations, options, kind of malformation, digest) seen under a sanitizer"
    ASSUMPTIONS = ["alignment of array elements is not judged (x86 tolerates it)",
                   "small NumPy allocations come from NumPy's own cache, so overruns between them are only seen by the "
                   "larger cases and by valgrind"]
    REQUIRE = {"ols_results": 50, "malformed_calls": 100, "cas_fits": 300, "results_under_4_fills": 20, "memcheck_results": 20,
               "failed_allocations": 100, "memory_errors": 5}
    CASE_TIMEOUT = 800

    @staticmethod
    def streams(t):
        k = 1 if t == "quick" else 12
        return [("legal_ols", 60 * k, legal_ols), ("extreme_ols", 40 * k, extreme_ols), ("bad_ols", 40 * k, bad_ols),
                ("out_of_memory", 40 * k, out_of_memory), ("legal_cas", 30 * k, legal_cas), ("extreme_cas", 20 * k, extreme_cas), ("bad_cas", 20 * k, bad_cas),
                ("fill_patterns", 1 if t == "quick" else 6, fill_patterns), ("little_memory", 2, little_memory),
                ("memcheck", 1 if t == "quick" else 4, memcheck)]


# ------------------------------------------------------------------ R06
class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks",
                                               "uordblks", "fordblks", "keepcost")]


def heap():
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Mallinfo2
    i = libc.mallinfo2()
    return i.uordblks + i.hblkhd


def arrays_of(x):
    return [(k, v) for k, v in (x.items() if isinstance(x, dict) else vars(x).items()) if isinstance(v, np.ndarray)]


def balance(c, make, call, what):
    """Repeat one call; native heap, interpreter blocks and references must not grow with the repetitions."""
    reps = 40
    orig = make()
    arg = copy.deepcopy(orig)
    digests = set()
    errs = set()

    def once(n):
        for _ in range(n):
            k = copy.deepcopy(orig)
            refs = {name: sys.getrefcount(a) for name, a in arrays_of(k)}
            h = hashlib.sha256()
            try:
                out = call(k)
                g.digest(h, out)
                out = None
            except Exception as e:  # noqa: BLE001
                errs.add(type(e).__name__)
                h.update(repr(e).encode())
                e = None
            digests.add(h.hexdigest())
            c.count("calls")
            for name, a in arrays_of(k):
                r = sys.getrefcount(a)
                c.count("refcounts_compared")
                if name in refs and getattr(k, name, None) is a if not isinstance(k, dict) else True:
                    if r > refs[name] + 1:
                        c.fail("refcount", f"{what}: {name} is referenced {r - refs[name]} more times after the call")
            k = None
        gc.collect()
        sys._clear_type_cache()  # it keeps attribute-name strings alive for a while

    once(8)
    samples = []
    shim = Shim()
    live = shim.live.value
    for _ in range(4):
        once(reps // 4)
        samples.append((heap(), sys.getallocatedblocks()))
    del arg
    c.check(len(digests) == 1, "history", f"{what}: {len(digests)} different results of the same call repeated")
    dh = [b[0] - a[0] for a, b in zip(samples, samples[1:])]
    db = [b[1] - a[1] for a, b in zip(samples, samples[1:])]
    per = reps // 4
    c.check(shim.live.value == live, "native_leak", f"{what}: {shim.live.value - live} blocks lost in {reps} calls")
    # a leak repeats in every block of calls
    c.check(min(dh) < 8 * per, "native_leak", f"{what}: native heap grows by {dh} bytes per {per} calls")
    c.check(min(db) < per, "object_leak", f"{what}: interpreter blocks grow by {db} per {per} calls")
    c.count("balances")
    c.count("rejecting_balances" if errs else "succeeding_balances")
    c.state(what, tuple(sorted(errs)), min(dh) // 64)


def leak_ols(c):
    seed = int(c.rng.integers(0, 2**31))
    save, sup = bool(c.rng.random() < .6), bool(c.rng.random() < .3)

    def make():
        r = np.random.default_rng(seed)
        m = g.ols_exposure(r)
        return g.relayout_all(r, m) if seed % 2 else m

    balance(c, make, lambda m: g.call_ols(m, save, suppress=sup), f"ols save={save}")


def leak_ols_bad(c):
    seed = int(c.rng.integers(0, 2**31))
    kw, info = {}, []

    def make():
        r = np.random.default_rng(seed)
        m = g.ols_exposure(r)
        what, _, k = g.break_ols(r, m)
        kw.update(k)
        info.append(what)
        return m

    balance(c, make, lambda m: g.call_ols(m, bool(seed % 2), **kw), "bad ols")


def leak_cas(c):
    seed = int(c.rng.integers(0, 2**31))

    def make():
        r = np.random.default_rng(seed)
        d = g.cas_case(r)
        if seed % 3 == 0:
            g.break_cas(r, d)
        return d

    balance(c, make, g.call_cas, "cas")


def sequence(c):
    """Interleave different calls, good and bad: each result equals the one obtained first."""
    seeds = [int(x) for x in c.rng.integers(0, 2**31, 5)]
    first = {}
    for step in range(25):
        s = seeds[int(c.rng.integers(0, len(seeds)))]
        r = np.random.default_rng(s)
        h = hashlib.sha256()
        try:
            if s % 3:
                m = g.ols_exposure(r)
                kw = g.break_ols(r, m)[2] if s % 5 == 0 else {}
                g.digest(h, g.call_ols(m, bool(s % 2), **kw))
            else:
                d = g.cas_case(r)
                if s % 5 == 0:
                    g.break_cas(r, d)
                g.digest(h, g.call_cas(d))
        except Exception as e:  # noqa: BLE001
            h.update(repr(e).encode())
        c.count("interleaved_calls")
        if first.setdefault(s, h.hexdigest()) != h.hexdigest():
            c.fail("history", f"call {s} gave another result at step {step}")
    c.state(tuple(first.values()))


class R06:
    PID = "R06"
    RULE = "distinct (fitter, outcome, heap growth class) of repeated calls, and distinct interleavings of calls"
    ASSUMPTIONS = ["growth is judged over 30 repetitions after a warm-up of 8; leaks smaller than 8 bytes a call are not seen"]
    REQUIRE = {"balances": 30, "rejecting_balances": 5, "succeeding_balances": 15, "interleaved_calls": 100,
               "refcounts_compared": 1000}
    CASE_TIMEOUT = 200

    @staticmethod
    def streams(t):
        k = 1 if t == "quick" else 12
        return [("leak_ols", 60 * k, leak_ols), ("leak_ols_bad", 40 * k, leak_ols_bad), ("leak_cas", 24 * k, leak_cas),
                ("sequence", 16 * k, sequence)]


CHECKS = {"R05": R05, "R06": R06}
