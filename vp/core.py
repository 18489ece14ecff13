"""Runner: workload streams, monitors' event counters, verdicts, evidence.

A check module defines

    PID, TITLE-free metadata, NATIVE (tuple), RULE (str), ASSUMPTIONS (list)
    REQUIRE = {event: minimum}    # fewer observed events => inconclusive (exit 2)
    def streams(tier): return [(name, number_of_cases, function), ...]

Each function receives a Case.  All randomness of a case derives from
(VERIF_SEED, stream, index), so `--replay FILE` re-runs exactly one case.
Verdicts: exit 0 held, exit 1 + VIOLATION line broken, exit 2 inconclusive.
"""

import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import time
import traceback
import zlib
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVID = Path(os.environ.get("VP_EVIDENCE_DIR", VERIF / "evidence"))
KNOWN = VERIF / "known_findings.txt"


class Violation(Exception):
    """Raised to abort a case after its violation has been recorded."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


class SutError(Exception):
    pass


class Case:
    def __init__(self, pid, seed, tier, stream, idx):
        import numpy as np

        self.pid, self.seed, self.tier, self.stream, self.idx = pid, seed, tier, stream, idx
        self.rng = np.random.default_rng([seed & 0xFFFFFFFF, zlib.crc32(pid.encode()), zlib.crc32(stream.encode()), idx])
        self.events = {}
        self.states = set()
        self.fails = []
        self.sample = None
        self.scratch_dir = None

    # ---- observations -------------------------------------------------
    def count(self, event, n=1):
        n = int(n)
        if n:
            self.events[event] = self.events.get(event, 0) + n

    def state(self, *key):
        """Record a distinct, non-trivial situation the monitor observed."""
        self.states.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

    def describe(self, **kw):
        self.sample = {k: _plain(v) for k, v in kw.items()}

    # ---- verdicts -----------------------------------------------------
    def fail(self, mech, msg, abort=True, **data):
        self.fails.append({"mech": mech, "msg": str(msg)[:1500], "data": {k: _plain(v) for k, v in data.items()}})
        if abort:
            raise Violation(mech)

    def check(self, cond, mech, msg="", **data):
        self.count("assertions")
        if not cond:
            self.fail(mech, msg() if callable(msg) else msg, **data)

    def call(self, fn, *a, **k):
        """Call into the code under test; an exception on a legal input is a violation."""
        self.count("sut_calls")
        try:
            return fn(*a, **k)
        except (Violation, Skip):
            raise
        except MemoryError:
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            loc = tb[-1]
            name = getattr(fn, "__name__", str(fn))
            self.fail(
                f"exception:{name}:{type(e).__name__}",
                f"{name} raised {type(e).__name__}: {e} at {Path(loc.filename).name}:{loc.name}",
                traceback="".join(traceback.format_exception(e))[-3000:],
            )

    def close_to(self, got, want, mech, rtol=1e-5, atol=1e-8, msg="", nan_ok=True, mask=None):
        import numpy as np

        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(mech, f"{msg} shape {got.shape} != {want.shape}")
        self.count("assertions")
        with np.errstate(all="ignore"):
            bad = ~(np.abs(got.astype(float) - want.astype(float)) <= atol + rtol * np.abs(want.astype(float)))
            bad &= ~(got.astype(float) == want.astype(float))
            if nan_ok:
                bad &= ~(np.isnan(got) & np.isnan(want))
        if mask is not None:
            bad &= mask
            self.count("values_compared", int(np.sum(np.broadcast_to(mask, got.shape))))
        else:
            self.count("values_compared", got.size)
        if bad.any():
            w = np.argwhere(bad) if bad.ndim else [()]
            i = tuple(int(x) for x in w[0])
            self.fail(
                mech,
                f"{msg}: {int(bad.sum())}/{bad.size} values differ; first at {i}: got {got[i]!r}, expected {want[i]!r}",
            )

    def equal(self, got, want, mech, msg="", mask=None):
        import numpy as np

        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(mech, f"{msg} shape {got.shape} != {want.shape}")
        self.count("assertions")
        bad = got != want
        if got.dtype.kind == "f" and want.dtype.kind == "f":
            bad &= ~(np.isnan(got) & np.isnan(want))
        if mask is not None:
            bad = bad & mask
            self.count("values_compared", int(np.sum(np.broadcast_to(mask, got.shape))))
        else:
            self.count("values_compared", got.size)
        if np.any(bad):
            w = np.argwhere(bad) if bad.ndim else [()]
            i = tuple(int(x) for x in w[0])
            self.fail(
                mech,
                f"{msg}: {int(np.sum(bad))}/{got.size} values differ; first at {i}: got {got[i]!r}, expected {want[i]!r}",
            )

    def scratch(self):
        """A private scratch directory, removed when the case ends."""
        import tempfile

        if self.scratch_dir is None:
            self.scratch_dir = tempfile.mkdtemp(prefix=f"vp-{self.pid}-")
        return Path(self.scratch_dir)


def _plain(v):
    import numpy as np

    if isinstance(v, np.ndarray):
        return v.tolist() if v.size <= 400 else {"shape": list(v.shape), "head": v.ravel()[:20].tolist()}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return repr(v)[:500]


def run_case(mod, seed, tier, stream, idx, fn):
    c = Case(mod.PID, seed, tier, stream, idx)
    t0 = time.time()
    harness = None
    skipped = False
    try:
        fn(c)
    except Violation:
        pass
    except Skip:
        skipped = True
    except Exception as e:  # noqa: BLE001
        harness = "".join(traceback.format_exception(e))[-4000:]
    finally:
        if c.scratch_dir:
            shutil.rmtree(c.scratch_dir, ignore_errors=True)
    return {
        "stream": stream, "idx": idx, "events": c.events, "states": sorted(c.states), "fails": c.fails,
        "harness": harness, "skipped": skipped, "sample": c.sample, "t": time.time() - t0,
    }


def load_known():
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line.startswith("known:"):
                continue
            parts = line[len("known:"):].split(None, 2)
            kv = dict(p.split("=", 1) for p in parts[:2])
            out[(kv["property"], kv["mech"])] = parts[2] if len(parts) > 2 else ""
    return out


def _worker(mod, seed, tier, jobs, fns, out, journal):
    with open(out, "a") as fo:
        for stream, idx in jobs:
            with open(journal, "w") as fj:
                json.dump([stream, idx, time.time()], fj)
            r = run_case(mod, seed, tier, stream, idx, fns[stream])
            fo.write(json.dumps(r) + "\n")
            fo.flush()
        with open(journal, "w") as fj:
            json.dump(["", -1, time.time()], fj)


def run_parallel(mod, seed, tier, jobs, fns, nworkers, case_timeout):
    """Run jobs in forked workers; a worker killed by a signal or stuck is reported per case."""
    import tempfile

    tmp = Path(tempfile.mkdtemp(prefix=f"vp-run-{mod.PID}-"))
    results, crashes, hangs = [], [], []
    try:
        pending = [jobs[i::nworkers] for i in range(nworkers)]
        live = {}

        def launch(slot, js):
            out, jn = tmp / f"o{slot}.{time.time_ns()}", tmp / f"j{slot}"
            if jn.exists():
                jn.unlink()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    err = os.open(str(tmp / f"e{slot}"), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                    os.dup2(err, 2)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    _worker(mod, seed, tier, js, fns, out, jn)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                    code = 99
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            live[pid] = (slot, js, out, jn)

        for s, js in enumerate(pending):
            if js:
                launch(s, js)
        while live:
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid in live:
                slot, js, out, jn = live.pop(pid)
                done = set()
                if out.exists():
                    for line in out.read_text().splitlines():
                        try:
                            r = json.loads(line)
                        except ValueError:
                            continue
                        results.append(r)
                        done.add((r["stream"], r["idx"]))
                rest = [j for j in js if tuple(j) not in done]
                if rest and (os.WIFSIGNALED(status) or os.WEXITSTATUS(status) != 0):
                    st, ix = rest[0]
                    errtxt = ""
                    ef = tmp / f"e{slot}"
                    if ef.exists():
                        errtxt = ef.read_text(errors="replace")[-6000:]
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                    rec = {"stream": st, "idx": ix, "signal": sig, "exit": None if sig else os.WEXITSTATUS(status),
                           "stderr": errtxt}
                    (hangs if (sig == signal.SIGKILL and (tmp / f"hang{slot}").exists()) else crashes).append(rec)
                    if (tmp / f"hang{slot}").exists():
                        (tmp / f"hang{slot}").unlink()
                    if len(crashes) + len(hangs) < 12 and len(rest) > 1:
                        launch(slot, rest[1:])
                continue
            now = time.time()
            for pid, (slot, js, out, jn) in list(live.items()):
                try:
                    st, ix, t0 = json.loads(jn.read_text())
                except (OSError, ValueError):
                    continue
                if ix >= 0 and now - t0 > case_timeout:
                    (tmp / f"hang{slot}").write_text("x")
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
            time.sleep(0.02)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return results, crashes, hangs


def main(argv=None):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    ap.add_argument("--stream")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    pid = a.pid
    sys.path.insert(0, str(VERIF))
    spec = json.loads((VERIF / "checks" / "index.json").read_text())[pid]
    from vp import build

    flavour = spec.get("flavour", "plain")
    if flavour == "asan" and "libasan" not in os.environ.get("LD_PRELOAD", ""):
        os.execve(sys.executable, [sys.executable, "-m", "vp.core", *(argv or sys.argv[1:])], build.asan_env())
    try:
        src = build.stage(spec.get("native", ()), flavour)
    except build.BuildError as e:
        print(f"INCONCLUSIVE property={pid} build failed\n{e}")
        return 2
    os.environ["PYTHONPATH"] = f"{src}:{VERIF}"
    sys.path.insert(0, str(src))
    import stcal

    if not str(Path(stcal.__file__).resolve()).startswith(str(Path(src).resolve())):
        print(f"INCONCLUSIVE property={pid} wrong stcal imported: {stcal.__file__}")
        return 2
    os.environ["VP_STAGE"] = str(src)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    try:
        mod = importlib.import_module("checks." + spec["module"])
        if isinstance(getattr(mod, "CHECKS", None), dict):
            mod = mod.CHECKS[pid]
    except Exception as e:  # noqa: BLE001
        tb = "".join(traceback.format_exception(e))
        # code under test that no longer imports is broken, but decides nothing by itself
        print(f"INCONCLUSIVE property={pid} import failed\n{tb}")
        return 2
    if a.replay:
        rep = json.loads(Path(a.replay).read_text())
        seed, tier = rep["seed"], rep["tier"]
    streams = mod.streams(tier)
    fns = {n: f for n, _, f in streams}
    if a.replay:
        r = run_case(mod, seed, tier, rep["stream"], rep["idx"], fns[rep["stream"]])
        print(json.dumps(r, indent=1)[:8000])
        if r["fails"]:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 2 if r["harness"] else 0
    jobs = [(n, i) for n, k, _ in streams for i in range(k) if a.stream in (None, n)]
    # interleave streams over workers deterministically
    jobs.sort(key=lambda j: zlib.crc32(f"{j[0]}/{j[1]}".encode()))
    case_timeout = getattr(mod, "CASE_TIMEOUT", 200)
    results, crashes, hangs = run_parallel(mod, seed, tier, jobs, fns, max(1, min(a.jobs, len(jobs))), case_timeout)
    results.sort(key=lambda r: (r["stream"], r["idx"]))

    events, states, nskip, viol, harness = {}, set(), 0, [], []
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        states.update(r["states"])
        nskip += r["skipped"]
        if r["harness"]:
            last = r["harness"].strip().splitlines()[-1]
            if last.startswith(("MemoryError", "OSError", "BlockingIOError", "ChildProcessError", "PermissionError")):
                harness.append(r)
            else:  # the oracle got something it was never given by the unchanged code
                viol.append({"mech": "unjudgeable", "msg": f"what came back could not be judged: {last[:300]}",
                             "data": {"traceback": r["harness"]}, "stream": r["stream"], "idx": r["idx"]})
        for f in r["fails"]:
            viol.append(dict(f, stream=r["stream"], idx=r["idx"]))
    for cr in crashes:
        if cr["signal"] == signal.SIGKILL:
            harness.append({"stream": cr["stream"], "idx": cr["idx"], "harness": "worker killed (out of memory?)"})
        elif cr["signal"] or cr["exit"] not in (99,):
            viol.append({"mech": "crash", "msg": f"process died: signal={cr['signal']} exit={cr['exit']}",
                         "data": {"stderr": cr["stderr"]}, "stream": cr["stream"], "idx": cr["idx"]})
        else:
            harness.append({"stream": cr["stream"], "idx": cr["idx"], "harness": cr["stderr"]})
    for h in hangs:
        viol.append({"mech": "no_answer", "msg": f"no result within {case_timeout} s (typical cases take well under 1 %)",
                     "data": {}, "stream": h["stream"], "idx": h["idx"]})

    known = load_known()
    new, seen_known = [], {}
    for v in viol:
        k = (pid, v["mech"])
        if k in known:
            seen_known[k] = known[k]
        else:
            new.append(v)
    for k, d in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {k[1]} {d}")

    EVID.mkdir(parents=True, exist_ok=True)
    repd = EVID / "replays"
    printed = 0
    for v in new:
        repd.mkdir(exist_ok=True)
        p = repd / f"{pid}-{tier}-{seed}-{v['stream']}-{v['idx']}.json"
        p.write_text(json.dumps({"property": pid, "seed": seed, "tier": tier, "stream": v["stream"], "idx": v["idx"],
                                 "mech": v["mech"], "msg": v["msg"], "data": v["data"]}, indent=1))
        if printed < 5:
            print(f"VIOLATION property={pid} replay={p}")
            print(f"  [{v['stream']}#{v['idx']}] {v['mech']}: {v['msg']}")
        printed += 1
    samples = [dict(stream=r["stream"], idx=r["idx"], **(r["sample"] or {}), events=r["events"]) for r in results
               if r["sample"]][:4]
    per_stream = {}
    for r in results:
        per_stream[r["stream"]] = per_stream.get(r["stream"], 0) + 1
    missing = {k: m for k, m in getattr(mod, "REQUIRE", {}).items() if events.get(k, 0) < (m if tier == "quick" else m)}
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results) - nskip, "distinct_nontrivial": len(states), "rule": mod.RULE,
            "samples": samples or [dict(stream=r["stream"], idx=r["idx"], events=r["events"]) for r in results[:3]],
            "events_observed": events, "cases_per_stream": per_stream, "cases_outside_domain": nskip,
            "known_findings_seen": [f"{k[1]}: {d}" for k, d in sorted(seen_known.items())],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    (EVID / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if new:
        print(f"{pid}: {len(new)} violations in {len(results)} cases ({tier}, seed {seed})")
        return 1
    if harness:
        h = harness[0]
        print(f"INCONCLUSIVE property={pid} harness error in {h['stream']}#{h['idx']}:\n{h['harness']}")
        return 2
    if missing:
        print(f"INCONCLUSIVE property={pid} monitors observed too little: need {missing}, saw "
              f"{ {k: events.get(k, 0) for k in missing} }")
        return 2
    print(f"OK property={pid} tier={tier} seed={seed} cases={len(results)} distinct={len(states)} "
          f"assertions={events.get('assertions', 0)} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    from vp.core import main as _main  # one copy of the classes, shared with the checks

    sys.exit(_main())
