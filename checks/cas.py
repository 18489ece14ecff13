"""C01, C02: the Casertano (2022) ramp fit and its jump search.

Oracle: an independent double-precision evaluation of the published estimator and of the
recursive split.  Decisions the single-precision code may legitimately take either way (a power
or a statistic within rounding error of its limit) are not judged; the metamorphic relations are.
"""
import copy

import numpy as np

from .lib import nativegen

EPS = 1.2e-7
SIG = (-np.inf, 5, 10, 20, 50, 100)
POW = (0, 0.4, 1, 3, 6, 10)


class Ambiguous(Exception):
    pass


def timing(pat, rt):
    n = np.array([len(p) for p in pat])
    tbar = np.array([np.mean(p) for p in pat]) * rt
    tau = np.array([np.sum((2 * (len(p) - np.arange(len(p))) - 1) * np.array(p)) / len(p) ** 2 for p in pat]) * rt
    return n, tbar, tau


def power_of(first, last, rn):
    s = max(float(last) - float(first), 0.0)
    den = np.sqrt(rn ** 2 + s)
    snr = s / den if den > 0 else np.nan
    for lim in SIG[1:]:
        if abs(snr - lim) < 1e-4 * lim + 2e-7 * (abs(first) + abs(last)) / max(den, 1e-30):
            raise Ambiguous
    if snr != snr:
        return 10.0
    return POW[int(np.searchsorted(SIG, snr, side="right")) - 1]


def run_fit(res, n, t, tau, rn):
    """Slope, read variance, Poisson variance per unit flux, and a bound on rounding of one run (Eq. 35-45)."""
    p = power_of(res[0], res[-1], rn)
    mid, half = (t[0] + t[-1]) / 2, (t[-1] - t[0]) / 2
    half = half if half else 1.0
    w = (1 + p) * n / (1 + p * n) * np.abs((t - mid) / half) ** p
    dx = 4 * EPS * (abs(t[0]) + abs(t[-1])) / abs(half)  # rounding of the times, largest effect at the mid point
    wrel = float(np.sum((1 + p) * n / (1 + p * n) * ((np.abs((t - mid) / half) + dx) ** p - np.abs((t - mid) / half) ** p)) / w.sum())
    f0, f1, f2 = w.sum(), (w * t).sum(), (w * t * t).sum()
    det = f2 * f0 - f1 * f1
    if det <= 1e-9 * f2 * f0:
        raise Ambiguous
    k = (f0 * t - f1) * w / det
    pv = np.sum(k * k * tau)
    pm = np.sum(np.abs(k * k * tau))
    for j in range(1, len(k)):
        pv += 2 * k[j] * np.sum(k[:j] * t[:j])
        pm += 2 * abs(k[j]) * np.sum(np.abs(k[:j] * t[:j]))
    cond = f2 * f0 / det
    return dict(wrel=wrel + 1e-7 * cond, slope=float(np.sum(k * res)), read=float(np.sum(k * k / n) * rn ** 2), pois=float(pv), power=p,
                scale=float(np.sum(np.abs(k * res))) * (1 + cond * 0.3 + 4 * wrel / 1e-6), pscale=float(pm) * (1 + cond * 0.3))


def runs_of(dq):
    out, start = [], None
    for i, d in enumerate(list(dq) + [1]):
        if d == 0 and start is None:
            start = i
        elif d != 0 and start is not None:
            out.append((start, i - 1))
            start = None
    return out


def average(fits):
    """Inverse-read-variance weights; runs without read variance count for nothing."""
    ws = [0.0 if f["read"] == 0 else 1 / f["read"] for f in fits]
    tot = sum(ws)
    if tot == 0:
        return 0.0, 0.0, 0.0, 0.0, 0.0
    s = sum(w * f["slope"] for w, f in zip(ws, fits)) / tot
    r = sum(w * w * f["read"] for w, f in zip(ws, fits)) / tot ** 2
    p = sum(w * w * f["pois"] for w, f in zip(ws, fits)) / tot ** 2
    sc = sum(w * f["scale"] for w, f in zip(ws, fits)) / tot
    ps = sum(w * w * f["pscale"] for w, f in zip(ws, fits)) / tot ** 2
    return s, r, p * max(s, 0.0), sc, ps


def fit_pixel(res, dq, rn, n, t, tau):
    fits = [run_fit(res[a:b + 1], n[a:b + 1], t[a:b + 1], tau[a:b + 1], rn) for a, b in runs_of(dq) if b > a]
    return average(fits), fits


# ------------------------------------------------------------------ the jump search
def stat(res, i, j, n, t, tau, rn, slope, slope_err, corr):
    dt = t[j] - t[i]
    local = (res[j] - res[i]) / dt
    delta = local - slope
    derr = slope_err + 4 * EPS * (abs(res[i]) + abs(res[j])) / abs(dt) + 4 * EPS * abs(local)
    coef = tau[i] + tau[j] - 2 * min(t[i], t[j])
    var = (rn ** 2 * (1 / n[i] + 1 / n[j]) + slope * coef) / dt ** 2 + corr
    cerr = 4 * EPS * (abs(tau[i]) + abs(tau[j]) + 2 * abs(t[i]))
    verr = 8 * EPS * (rn ** 2 * 2 + abs(slope * coef)) / dt ** 2 + (slope_err * abs(coef) + abs(slope) * cerr) / dt ** 2 \
        + 8 * EPS * abs(corr) + slope_err / abs(dt)
    if var + verr < 0:
        return None  # the statistic is undefined
    if var - verr <= 0:
        raise Ambiguous
    s = delta / np.sqrt(var)
    return s, derr / np.sqrt(var) + abs(s) * verr / var


def search(res, dq, rn, n, t, tau, intercept, constant):
    """The flags after recursively splitting at the largest statistic above threshold."""
    dq = np.array(dq)
    todo = runs_of(dq)
    jumps = []
    while todo:
        a, b = todo.pop()
        if b <= a:
            continue
        f = run_fit(res[a:b + 1], n[a:b + 1], t[a:b + 1], tau[a:b + 1], rn)
        slope, serr = f["slope"], 3 * EPS * f["scale"]
        corr = -slope / (t[b] - t[a])
        args = (n, t, tau, rn, slope, serr, corr)
        cands = {b - 1: stat(res, b - 1, b, *args)}
        if cands[b - 1] is None:
            continue  # nothing compares with an undefined statistic
        for i in range(a, b - 1):
            both = [s for s in (stat(res, i, i + 1, *args), stat(res, i, i + 2, *args)) if s is not None]
            if both:
                cands[i] = max(both)
                for other in both:
                    if other is not cands[i] and other[0] + other[1] > cands[i][0]:
                        cands[i] = (cands[i][0], max(cands[i][1], other[0] + other[1] - cands[i][0]))
        lim = intercept - constant * np.log10(min(max(slope, 1.0), 1e4))
        lerr = 1e-5 + constant * serr / max(slope, 1.0)
        best = max(cands, key=lambda i: cands[i][0])
        top, err = cands[best]
        if abs(top - lim) < err + lerr:
            raise Ambiguous
        if top < lim:
            if any(c is not None and c[0] + c[1] > lim - lerr for c in cands.values()):
                raise Ambiguous
            continue
        for i, s in cands.items():
            if i != best and s[0] + s[1] > top - err:
                raise Ambiguous
        jumps.append(best)
        dq[best] = dq[best + 1] = 4
        todo += [(a, best - 1), (best + 2, b)]
    return dq, jumps


# ------------------------------------------------------------------ workloads
def draw(rng, tier, jump=False):
    n = int(rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 12] + ([20, 40] if tier == "thorough" else [])))
    pat = nativegen.read_pattern(rng, n)
    rt = float(rng.choice([1.0, 3.04, 0.1, rng.uniform(.5, 20)]))
    npix = int(rng.integers(1, 30))
    t = np.array([np.mean(p) for p in pat]) * rt
    rate = 10 ** rng.uniform(-2, 4, npix) * rng.choice([1, 1, 1, 1, -1, 0], npix)
    rn = rng.uniform(0.5, 30, npix)
    nr = np.array([len(p) for p in pat])
    res = np.outer(t, rate) + rng.normal(0, 1, (n, npix)) * rn / np.sqrt(nr)[:, None]
    res += np.sqrt(np.abs(np.outer(t, rate))) * rng.normal(0, .3, (n, npix)) + rng.normal(0, 50, npix) * (rng.random() < .5)
    if rng.random() < (.85 if jump else .4):
        hit = rng.random((n, npix)) < rng.choice([.05, .15, .4])
        res += np.cumsum(hit * 10 ** rng.uniform(1, 4.5, (n, npix)), axis=0)
    dq = np.zeros((n, npix), np.int64)
    bad = rng.random((n, npix)) < rng.choice([0, .1, .3, .7])
    dq[bad] = rng.choice([1, 2, 4, 1024, 3, 1 << 20], size=int(bad.sum()))
    if rng.random() < .15:
        dq[:, int(rng.integers(0, npix))] = 1
    d = dict(resultants=res.astype(np.float32), dq=dq.astype([np.int32, np.uint8, np.int64, np.uint32][int(rng.integers(0, 4))])
             if dq.max() < 256 else dq.astype(np.int32), read_noise=rn.astype(np.float32), read_time=rt, read_pattern=pat)
    return d


def ref_inputs(d):
    n, t, tau = timing(d["read_pattern"], d["read_time"])
    res = np.asarray(d["resultants"], np.float32).astype(float)
    rn = np.broadcast_to(np.asarray(d["read_noise"], np.float32).astype(float), res.shape[1:])
    return res, np.asarray(d["dq"]).astype(np.int32), rn, n, t, tau


def fit(c, d, **kw):
    from stcal.ramp_fitting.ols_cas22_fit import fit_ramps_casertano

    keep = copy.deepcopy(d)
    out = c.call(fit_ramps_casertano, **d, **kw)
    for k in ("resultants", "dq", "read_noise"):
        a, b = np.asarray(keep[k]), np.asarray(d[k])
        c.check(a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), f"modified:{k}", f"the caller's {k} was modified")
    c.check(keep["read_pattern"] == d["read_pattern"], "modified:read_pattern")
    return out


def compare(c, d, out, dqs):
    """Parameters and variances against the estimator on the given flags (2-D problem)."""
    res, _, rn, n, t, tau = ref_inputs(d)
    npix = res.shape[1]
    c.check(out.parameters.shape == (npix, 2) and out.variances.shape == (npix, 3), "shape",
            f"{out.parameters.shape} {out.variances.shape}")
    for i in range(npix):
        try:
            (s, r, p, sc, ps), fits = fit_pixel(res[:, i], dqs[:, i], rn[i], n, t, tau)
        except Ambiguous:
            c.count("near_limit_skipped")
            continue
        gs, gr, gp, gt = float(out.parameters[i, 1]), *[float(x) for x in out.variances[i]]
        info = dict(resultants=res[:, i], dq=dqs[:, i], read_noise=rn[i], pattern=d["read_pattern"], read_time=d["read_time"])
        serr = 1e-6 * sc + 1e-9
        c.check(out.parameters[i, 0] == 0, "intercept", f"intercept {out.parameters[i, 0]}")
        if not abs(gs - s) <= serr + 1e-5 * abs(s):
            c.fail("slope", f"slope {gs!r}, the estimator gives {s!r}", **info)
        wrel = 4 * max((f["wrel"] for f in fits), default=0.0)
        if not abs(gr - r) <= (3e-5 + wrel) * r:
            c.fail("read_var", f"read variance {gr!r}, the estimator gives {r!r}", **info)
        if not abs(gp - p) <= (3e-5 + wrel) * abs(p) + (2e-6 + wrel) * ps * max(s, 0) + serr * ps:
            c.fail("poisson_var", f"Poisson variance {gp!r}, the estimator gives {p!r}", **info)
        if not abs(gt - (gr + gp)) <= 1e-6 * (abs(gr) + abs(gp)):
            c.fail("total_var", f"total variance {gt!r} is not {gr!r} + {gp!r}", **info)
        c.count("pixels_compared")
        c.count("runs", len(fits))
        if len(fits) > 1:
            c.count("multi_run_pixels")
        if not fits:
            c.count("pixels_without_run")
        c.state(tuple(b - a + 1 for a, b in runs_of(dqs[:, i]))[:5], tuple(f["power"] for f in fits)[:4])


def c01_estimator(c):
    d = draw(c.rng, c.tier)
    c.describe(n=len(d["read_pattern"]), npix=d["resultants"].shape[1], pattern=d["read_pattern"][:6])
    out = fit(c, d)
    c.check(np.array_equal(out.dq, d["dq"].astype(np.int32)), "dq_changed", "flags changed without jump detection")
    compare(c, d, out, np.asarray(d["dq"]))


def c01_shapes(c):
    """Array shapes, single ramps, scalar noise, units, layouts: the same numbers per pixel."""
    from astropy import units as u

    rng = c.rng
    d = draw(rng, c.tier)
    n, npix = d["resultants"].shape
    kw = dict(use_jump=bool(rng.random() < .5))
    base = fit(c, d, **kw)

    def same(out, want_p, want_v, want_dq, what):
        c.check(out.parameters.shape == want_p.shape and out.variances.shape == want_v.shape, f"shape:{what}",
                f"{what}: {out.parameters.shape} instead of {want_p.shape}")
        c.equal(np.asarray(out.parameters), want_p, f"parameters:{what}")
        c.equal(np.asarray(out.variances), want_v, f"variances:{what}")
        c.equal(np.asarray(out.dq), want_dq, f"dq:{what}")
        c.count("relations")
        c.state(what, n)

    perm = rng.permutation(npix)
    e = dict(d, resultants=d["resultants"][:, perm], dq=d["dq"][:, perm], read_noise=d["read_noise"][perm])
    same(fit(c, e, **kw), base.parameters[perm], base.variances[perm], base.dq[:, perm], "permuted")
    i = int(rng.integers(0, npix))
    e = dict(d, resultants=d["resultants"][:, i], dq=d["dq"][:, i], read_noise=float(d["read_noise"][i]))
    same(fit(c, e, **kw), base.parameters[i], base.variances[i], base.dq[:, i], "single ramp")
    k = max(x for x in range(1, npix + 1) if npix % x == 0 and x * x <= npix)
    s = (k, npix // k)
    e = dict(d, resultants=d["resultants"].reshape(n, *s), dq=d["dq"].reshape(n, *s), read_noise=d["read_noise"].reshape(s))
    same(fit(c, e, **kw), base.parameters.reshape(*s, 2), base.variances.reshape(*s, 3), base.dq.reshape(n, *s), "image")
    e["resultants"] = np.asfortranarray(e["resultants"]).astype(np.float64)
    e["dq"] = e["dq"][::-1].copy()[::-1]
    same(fit(c, e, **kw), base.parameters.reshape(*s, 2), base.variances.reshape(*s, 3), base.dq.reshape(n, *s), "layout")
    e = dict(d, resultants=d["resultants"] * u.electron)
    out = fit(c, e, **kw)
    c.check(getattr(out.parameters, "unit", None) == u.electron, "unit", f"{getattr(out.parameters, 'unit', None)}")
    same(type(out)(out.parameters.to_value(u.electron), out.variances, out.dq), base.parameters, base.variances, base.dq, "units")
    e = dict(d, resultants=(d["resultants"].astype(float) / 1024) * u.Unit(1024 * u.electron))
    out = fit(c, e, **kw)
    c.close_to(out.parameters.to_value(u.electron), base.parameters, "parameters:scaled units", 1e-6, 1e-6)
    e = dict(d, read_noise=7.5)
    f = dict(d, read_noise=np.full(npix, 7.5, np.float32))
    a, b = fit(c, e, **kw), fit(c, f, **kw)
    same(a, b.parameters, b.variances, b.dq, "scalar noise")


def c01_unused(c):
    """Samples under a flag do not matter, whatever they hold; other pixels do not matter either."""
    rng = c.rng
    d = draw(rng, c.tier)
    kw = dict(use_jump=bool(rng.random() < .5))
    base = fit(c, d, **kw)
    e = copy.deepcopy(d)
    bad = e["dq"] != 0
    if not kw["use_jump"]:
        e["resultants"][bad] = rng.choice(np.array([np.nan, np.inf, -1e30, 0, 1e9], np.float32), size=int(bad.sum()))
        out = fit(c, e)
        c.equal(out.parameters, base.parameters, "garbage:parameters")
        c.equal(out.variances, base.variances, "garbage:variances")
        c.count("relations")
    e = copy.deepcopy(d)
    i = int(rng.integers(0, bad.shape[1]))
    e["resultants"][:, i] = np.nan
    e["dq"][:, i] = rng.integers(0, 2, bad.shape[0])
    out = fit(c, e, **kw)
    others = np.arange(bad.shape[1]) != i
    c.equal(out.parameters[others], base.parameters[others], "neighbour:parameters")
    c.equal(out.variances[others], base.variances[others], "neighbour:variances")
    c.equal(out.dq[:, others], base.dq[:, others], "neighbour:dq")
    c.count("relations")
    c.state("unused", int(bad.sum()) > 0, kw["use_jump"])


# ------------------------------------------------------------------ C02
def c02_search(c):
    rng = c.rng
    d = draw(rng, c.tier, True)
    if rng.random() < .25:
        d["dq"][:] = 0
    d["read_noise"] = np.maximum(d["read_noise"], 2)
    kw, ic, co = {}, 5.5, 1 / 3
    if rng.random() < .6:
        ic = float(rng.uniform(3, 12))
        kw["threshold_intercept"] = ic
    if rng.random() < .6:
        co = float(rng.uniform(0, 2))
        kw["threshold_constant"] = co
    if rng.random() < .05:
        ic = kw["threshold_intercept"] = 0.0
    if rng.random() < .05:
        co = kw["threshold_constant"] = 0.0
    out = fit(c, d, use_jump=True, **kw)
    res, dq, rn, n, t, tau = ref_inputs(d)
    c.describe(n=len(n), npix=res.shape[1], intercept=ic, constant=co)
    jumps_seen = 0
    c.check(out.dq.shape == dq.shape, "shape", f"{out.dq.shape}")
    for i in range(res.shape[1]):
        kept = dq[:, i] != 0
        c.check(np.array_equal(out.dq[kept, i], dq[kept, i]), "prior_flags", "a flag given by the caller changed")
        c.check(np.isin(out.dq[~kept, i], (0, 4)).all(), "flag_value", f"{out.dq[:, i]}")
        try:
            want, jumps = search(res[:, i], dq[:, i], rn[i], n, t, tau, ic, co)
        except Ambiguous:
            c.count("near_limit_skipped")
            continue
        if not np.array_equal(want, out.dq[:, i]):
            c.fail("jumps", f"flags {out.dq[:, i].tolist()}, the search gives {want.tolist()}", resultants=res[:, i],
                   dq=dq[:, i], read_noise=rn[i], pattern=d["read_pattern"], read_time=d["read_time"], threshold=[ic, co])
        c.count("pixels_searched")
        c.count("jumps_found", len(jumps))
        if len(jumps) > 1:
            c.count("pixels_with_several_jumps")
        jumps_seen += len(jumps)
        c.state(tuple(jumps)[:4], len(n), tuple(runs_of(dq[:, i]))[:3])
    # the fit is the one without detection on the flags found
    e = dict(d, dq=out.dq)
    again = fit(c, e)
    scale = np.abs(again.parameters) + 1e-6
    c.check(np.all(np.abs(again.parameters - out.parameters) <= 3e-6 * np.maximum(scale, scale.max() * 1e-3)), "refit",
            lambda: f"{out.parameters.tolist()} with the search, {again.parameters.tolist()} on its flags")
    c.close_to(out.variances, again.variances, "refit_variance", 1e-4, 1e-9)
    c.count("refits")
    compare(c, d, out, out.dq)
    # the search finds nothing more than fewer flags when thresholds are infinite
    if c.idx % 4 == 0:
        off = fit(c, d, use_jump=True, threshold_intercept=1e9)
        plain = fit(c, d)
        c.equal(off.dq, plain.dq, "no_threshold:dq")
        c.equal(off.parameters, plain.parameters, "no_threshold:parameters")


def c02_planted(c):
    """A jump far above the noise in a quiet ramp is flagged, and the slope recovered around it."""
    rng = c.rng
    n = int(rng.integers(5, 14))
    pat = nativegen.read_pattern(rng, n)
    rt = float(rng.uniform(1, 10))
    t = np.array([np.mean(p) for p in pat]) * rt
    npix = 12
    rate = rng.uniform(.1, 5, npix)
    rn = np.full(npix, 5.0, np.float32)
    res = np.outer(t, rate)
    where = rng.integers(1, n, npix)
    size = rng.uniform(2000, 20000, npix)
    for i in range(npix):
        res[where[i]:, i] += size[i]
    d = dict(resultants=res.astype(np.float32), dq=np.zeros((n, npix), np.int32), read_noise=rn, read_time=rt, read_pattern=pat)
    out = fit(c, d, use_jump=True)
    for i in range(npix):
        w = where[i]
        fl = np.flatnonzero(out.dq[:, i])
        c.check(w in fl or w - 1 in fl, "missed", f"jump of {size[i]:.0f} e- at {w} of {n} not flagged: {fl.tolist()}")
        ref, _, _, nn, tt, ta = ref_inputs(d)
        c.count("planted_jumps")
        if any(b > a for a, b in runs_of(out.dq[:, i])) and not (w not in fl and w - 1 not in fl):
            err = np.sqrt(out.variances[i, 2]) + 1e-3
            ok = abs(out.parameters[i, 1] - rate[i]) < 6 * err + 1e-5 * size[i] / rt
            if len(fl) == 2:
                c.check(ok, "slope", f"slope {out.parameters[i, 1]} around a jump, true rate {rate[i]}")
        c.state("planted", w, n)


class C01:
    PID = "C01"
    RULE = "distinct (run lengths, weight powers) of fitted pixels, and relation kinds"
    ASSUMPTIONS = ["pixels whose signal-to-noise lies within rounding of a weight-table limit are not compared",
                   "single-precision tolerance 1e-5 plus 1e-6 of the summed magnitudes"]
    REQUIRE = {"pixels_compared": 1500, "multi_run_pixels": 100, "pixels_without_run": 20, "relations": 100}

    @staticmethod
    def streams(t):
        k = 8 if t == "quick" else 150
        return [("estimator", 300 * k, c01_estimator), ("shapes", 60 * k, c01_shapes), ("unused", 60 * k, c01_unused)]


class C02:
    PID = "C02"
    RULE = "distinct (jump positions, number of resultants, initial runs) of searched pixels"
    ASSUMPTIONS = ["pixels for which a statistic lies within single-precision rounding of the threshold, or two statistics "
                   "of each other, are not judged (near_limit_skipped)"]
    REQUIRE = {"pixels_searched": 1500, "jumps_found": 500, "pixels_with_several_jumps": 100, "planted_jumps": 100}

    @staticmethod
    def streams(t):
        k = 8 if t == "quick" else 150
        return [("search", 300 * k, c02_search), ("planted", 30 * k, c02_planted)]


CHECKS = {"C01": C01, "C02": C02}
