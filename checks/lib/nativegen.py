"""Workloads for the compiled fitters: legal exposures, extreme values, and malformed calls."""
import hashlib
import os

import numpy as np

from . import rampgen


# ------------------------------------------------------------------ OLS (C extension)
def ols_exposure(rng, extreme=False):
    kw = dict(
        nints=int(rng.integers(1, 4)), ngroups=int(rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 13, 30])),
        nrows=int(rng.integers(1, 9)), ncols=int(rng.integers(1, 9)), nframes=int(rng.choice([1, 4, 8])),
        groupgap=int(rng.choice([0, 2])), drop=int(rng.choice([0, 2])), sat_p=float(rng.choice([0, .3, .9])),
        dnu_p=float(rng.choice([0, .1, .5])), jump_p=float(rng.choice([0, .2, .6])), pers_p=float(rng.choice([0, .2])),
        charge_p=float(rng.choice([0, .3])), other_p=float(rng.choice([0, .2])), zeroframe=bool(rng.random() < .4),
        dark=bool(rng.random() < .5), badgain_p=float(rng.choice([0, .2])), nan_p=float(rng.choice([0, .5])),
        jump_first_p=float(rng.choice([0, .3])), instrument=str(rng.choice(["NIRCam", "MIRI"])),
        dq=rampgen.DQ if rng.random() < .6 else rampgen.DQ2)
    m = rampgen.make(rng, **kw)
    if rng.random() < .3:
        m.gdq[:] = rng.integers(0, 256, m.gdq.shape).astype(np.uint8)
    if m.drop == 0 and rng.random() < .3:
        m.drop = None
    if extreme:
        ext = np.array([np.nan, np.inf, -np.inf, 3e38, -3e38, 1e-45, 0.0, -0.0, 1e30], np.float32)
        for name in ("data", "gain", "rn", "dark", "zeroframe"):
            a = getattr(m, name)
            if a is not None and rng.random() < .6:
                hit = rng.random(a.shape) < rng.choice([.05, .5, 1.0])
                a[hit] = rng.choice(ext, size=int(hit.sum()))
        if rng.random() < .3:
            m.gain[:], m.rn[:] = np.float32(1e-30), np.float32(1e30)
        if rng.random() < .3:
            m.frame_time, m.group_time = float(rng.choice([1e-30, 1e30, 1.0])), float(rng.choice([1e-30, 1e30, 5.0]))
        m.pdq[:] = np.where(rng.random(m.pdq.shape) < .3, 0xFFFFFFFF, m.pdq)
    return m


def relayout(rng, a):
    """The same values in another memory layout."""
    how = int(rng.integers(0, 5))
    if how == 0:
        return np.asfortranarray(a)
    if how == 1:
        return a[::-1].copy()[::-1]
    if how == 2:
        big = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == 3:
        return a.astype(a.dtype.newbyteorder(">"))
    return a


def relayout_all(rng, m):
    swap = rng.random() < .2
    for name in ("data", "gdq", "pdq", "gain", "rn", "dark", "zeroframe"):
        a = getattr(m, name)
        if a is None:
            continue
        if swap:
            setattr(m, name, a.astype(a.dtype.newbyteorder(">")))
        elif rng.random() < .6:
            b = relayout(rng, a)
            setattr(m, name, b if b.dtype == a.dtype else a)
    return m


MALFORMED = ("dtype", "ndim", "small", "object", "groups0", "empty_image", "list", "weighting")


def break_ols(rng, m):
    """Spoil one array of a legal exposure; returns (description, must_raise, extra keyword arguments)."""
    what = str(rng.choice(MALFORMED))
    names = ["data", "gdq", "pdq", "gain", "rn", "dark"] + (["zeroframe"] if m.zeroframe is not None else [])
    name = str(rng.choice(names))
    a = getattr(m, name)
    must = True
    if what == "dtype":
        to = [t for t in (np.float64, np.float16, np.int32, np.uint8, np.uint32, np.complex64, np.bool_)
              if np.dtype(t) != a.dtype]
        setattr(m, name, a.astype(to[int(rng.integers(0, len(to)))]))
        must = False  # some conversions are done for the caller
    elif what == "ndim":
        setattr(m, name, a[0] if rng.random() < .5 else a.ravel() if rng.random() < .5 else a[None])
    elif what == "small":
        ax = int(rng.integers(0, a.ndim))
        if name == "data" or a.shape[ax] < 2:
            name, ax = "gain", 1
            m.gain = m.gain[:, :0]
        else:
            sl = [slice(None)] * a.ndim
            sl[ax] = slice(0, a.shape[ax] // 2)
            setattr(m, name, a[tuple(sl)])
    elif what == "object":
        setattr(m, name, a.astype(object))
    elif what == "groups0":
        m.data, m.gdq = m.data[:, :0], m.gdq[:, :0]
        name, must = "data", False
    elif what == "empty_image":
        m.data, m.gdq, m.pdq = m.data[..., :0], m.gdq[..., :0], m.pdq[..., :0]
        m.gain, m.rn, m.dark = m.gain[:, :0], m.rn[:, :0], m.dark[:, :0]
        m.zeroframe = None
        name, must = "data", False
    elif what == "list":
        name = str(rng.choice(["gain", "rn", "dark"]))
        setattr(m, name, [1.0] if rng.random() < .5 else None if rng.random() < .5 else "x")
        must = False
    elif what == "weighting":
        return "weighting", True, {"weighting": str(rng.choice(["", "unweighted", "x" * 5000])) if rng.random() < .7 else None}
    return f"{what}:{name}", must, {}


def call_ols(m, save_opt, weighting="optimal", max_cores="none", suppress=False):
    from stcal.ramp_fitting.ramp_fit import ramp_fit

    return ramp_fit(rampgen.pack(m), save_opt, m.rn, m.gain, "OLS_C", weighting, max_cores, m.dq, suppress)


# ------------------------------------------------------------------ Casertano (Cython extensions)
def read_pattern(rng, n):
    pat, r = [], 1
    style = int(rng.integers(0, 4))
    for _ in range(n):
        k = {0: 1, 1: int(rng.integers(1, 5)), 2: 4, 3: int(rng.choice([1, 1, 8]))}[style]
        r += int(rng.integers(0, 4)) if style in (1, 3) and rng.random() < .4 else 0
        pat.append(list(range(r, r + k)))
        r += k
    return pat


def cas_case(rng, extreme=False):
    n = int(rng.choice([1, 2, 3, 4, 6, 10, 25]))
    shape = [(), (int(rng.integers(1, 40)),), (int(rng.integers(1, 7)), int(rng.integers(1, 7)))][int(rng.integers(0, 3))]
    pat = read_pattern(rng, n)
    rt = float(rng.uniform(.5, 10))
    t = np.array([np.mean(p) for p in pat]) * rt
    rate = 10 ** rng.uniform(-2, 3.5, shape)
    res = np.multiply.outer(t, rate) + rng.normal(0, 6, (n, *shape))
    jump = rng.random((n, *shape)) < rng.choice([0, .1])
    res = res + np.cumsum(jump * rng.uniform(30, 5000, (n, *shape)), axis=0)
    dq = np.zeros((n, *shape), np.int32)
    dq[rng.random((n, *shape)) < rng.choice([0, .2, .7, 1.0])] = int(rng.choice([1, 2, 4, -1, 1 << 30]))
    rn = rng.uniform(1, 20, shape).astype(np.float32) if len(shape) and rng.random() < .7 else np.float32(rng.uniform(1, 20))
    if extreme:
        ext = np.array([np.nan, np.inf, -np.inf, 3e38, -3e38, 1e-45, 0.0])
        hit = rng.random(res.shape) < rng.choice([.05, .5, 1.0])
        res[hit] = rng.choice(ext, size=int(hit.sum()))
        if len(shape):
            rn = np.array(np.broadcast_to(rn, shape), np.float32)
            hit = rng.random(shape) < .3
            rn[hit] = rng.choice(ext, size=int(hit.sum()))
        if rng.random() < .2:
            rt = float(rng.choice([0.0, np.nan, -1.0, 1e30]))
        if rng.random() < .2:
            pat = [[1] for _ in pat]
    return dict(resultants=res.astype(np.float32), dq=dq, read_noise=rn, read_time=rt, read_pattern=pat,
                use_jump=bool(rng.random() < .6))


CAS_MALFORMED = ("pattern_len", "dq_small", "dq_large", "rn_shape", "pattern_junk", "pattern_empty", "empty", "none")


def break_cas(rng, d):
    what = str(rng.choice(CAS_MALFORMED))
    must = True
    n = len(d["read_pattern"])
    npix = int(np.prod(d["resultants"].shape[1:]))
    if what == "pattern_len":
        d["read_pattern"] = d["read_pattern"][: n // 2] if rng.random() < .5 else d["read_pattern"] + [[999]]
    elif what == "dq_small":
        d["dq"] = d["dq"][: n // 2]
    elif what == "dq_large":
        d["dq"] = np.concatenate([d["dq"], d["dq"]])
    elif what == "rn_shape":
        k = max(2, int(np.sqrt(npix)) - 1)
        d["resultants"] = np.repeat(d["resultants"].reshape(n, -1), k * k + 1, axis=1)
        d["dq"] = np.repeat(d["dq"].reshape(n, -1), k * k + 1, axis=1)
        d["read_noise"] = np.ones((k, k), np.float32)
        must = d["resultants"].shape[1] != k * k
    elif what == "pattern_junk":
        d["read_pattern"] = [["a"] for _ in range(n)] if rng.random() < .5 else [3] * n
    elif what == "pattern_empty":
        d["read_pattern"] = [[] for _ in range(n)]
        must = False
    elif what == "empty":
        d["resultants"], d["dq"] = d["resultants"][..., :0], d["dq"][..., :0]
        if d["resultants"].ndim == 2 and np.ndim(d["read_noise"]) == 1:
            d["read_noise"] = d["read_noise"][:0]
        must = False
    elif what == "none":
        d[str(rng.choice(["resultants", "dq", "read_noise", "read_pattern", "read_time"]))] = None
    return what, must


def call_cas(d):
    from stcal.ramp_fitting.ols_cas22_fit import fit_ramps_casertano

    return fit_ramps_casertano(**d)


# ------------------------------------------------------------------ fingerprints of results
def digest(h, out):
    if out is None:
        h.update(b"none")
    elif isinstance(out, (tuple, list)):
        for x in out:
            digest(h, x)
    elif isinstance(out, dict):
        for k in sorted(out):
            h.update(k.encode())
            digest(h, out[k])
    elif isinstance(out, np.ndarray):
        a = np.ascontiguousarray(out)
        if a.dtype.kind == "f":  # the sign and payload of a NaN are not part of a result
            a = np.where(np.isnan(a), a.dtype.type(np.nan), a)
        h.update(str((a.shape, a.dtype.str)).encode() + a.tobytes())
    else:
        h.update(repr(out).encode())


def main():
    """A batch run in a process of its own (other allocator fill, or under valgrind): prints digests."""
    import sys
    import warnings

    import logging

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    sink = os.open(os.devnull, os.O_WRONLY)
    for i in range(count):
        rng = np.random.default_rng([seed, i])
        h = hashlib.sha256()
        kind = "ols" if i % 3 else "cas"
        try:
            if kind == "ols":
                m = ols_exposure(rng)
                digest(h, call_ols(m, bool(rng.random() < .7), suppress=bool(rng.random() < .3)))
            else:
                digest(h, call_cas(cas_case(rng)))
        except Exception as e:  # noqa: BLE001
            h.update(repr(e).encode())
        print("DIGEST", i, kind, h.hexdigest()[:16], flush=True)
    os.close(sink)


def limited():
    """Fits under a shrinking address-space limit: large arrays cannot be allocated.  Prints what happened."""
    import copy
    import logging
    import resource
    import sys

    logging.disable(logging.CRITICAL)
    seed = int(sys.argv[2])
    rng = np.random.default_rng(seed)
    side = 420
    m = rampgen.make(rng, nints=1, ngroups=2, nrows=4, ncols=4, sat_p=0, dnu_p=0)
    for name in ("data", "gdq", "pdq", "gain", "rn", "dark"):
        a = getattr(m, name)
        setattr(m, name, np.tile(a, (1,) * (a.ndim - 2) + (side // 4, side // 4)))
    save = bool(seed % 2)
    one = side * side * 4

    def digestof(k):
        h = hashlib.sha256()
        digest(h, call_ols(k, save))
        return h.hexdigest()[:16]

    first = digestof(copy.deepcopy(m))
    for n in range(16, 90):
        k = copy.deepcopy(m)
        vm = int(open("/proc/self/statm").read().split()[0]) * 4096
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (vm + n * one // 2, hard))
        try:
            r = digestof(k)
        except BaseException as e:  # noqa: BLE001
            r = type(e).__name__
            e = None
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
        print("LIMIT", n, "same" if r == first else r, flush=True)
    print("AFTER", "same" if digestof(copy.deepcopy(m)) == first else "different", flush=True)


if __name__ == "__main__":
    import sys

    if sys.argv[1] == "limited":
        limited()
    else:
        main()
