"""K01, K02: the likelihood ramp fit and its jump search.

Oracle: dense generalised least squares in double precision.  The covariance of the group
differences is built read by read (each read's photon noise accumulates, each read has its own read
noise), inverted as a matrix, and every candidate omission of the search is a fit of the remaining
differences.  Pixels where two decisions lie within rounding of each other are not judged.
"""
import copy
import warnings

import numpy as np
from scipy import special, stats

from vp.core import Skip

from .lib import jumpgen, rampgen


class Ambiguous(Exception):
    pass


# ------------------------------------------------------------------ reference
class Cov:
    """Photon (per unit rate) and read (per unit variance) covariance of scaled group differences."""

    def __init__(self, reads):
        # reads: list of arrays of read times, one array per group
        n = len(reads)
        times = np.concatenate([np.asarray(r, float) for r in reads])
        avg = np.zeros((n, len(times)))
        k = 0
        for i, r in enumerate(reads):
            avg[i, k:k + len(r)] = 1.0 / len(r)
            k += len(r)
        t = avg @ times
        self.dt = np.diff(t)
        dif = np.diff(np.eye(n), axis=0) / self.dt[:, None] @ avg
        self.photon = dif @ np.minimum.outer(times, times) @ dif.T  # cov of a Poisson process at two times
        self.read = dif @ dif.T
        self.nreads = np.array([len(r) for r in reads])
        self.n = n - 1


def gls(cov, d, idx, guess, gain, rn):
    """Dense fit of the differences in idx; returns slope, chi-squared, 1/C, Poisson and read variance."""
    ix = np.ix_(idx, idx)
    p, r = guess / gain * cov.photon[ix], rn ** 2 * cov.read[ix]
    v = p + r
    x = d[idx]
    one = np.ones(len(idx))
    sol = np.linalg.solve(v, np.stack([one, x], 1))
    cc, bb, aa = one @ sol[:, 0], one @ sol[:, 1], x @ sol[:, 1]
    w = sol[:, 0] / cc
    return dict(slope=bb / cc, chi=aa - bb * bb / cc, var=1 / cc, vp=w @ p @ w, vr=w @ r @ w, a=aa, w=w)


def search(cov, d, used, gain, rn, t1, t2):
    """Leave-one/two-out search.  Returns the differences kept, the rate of the last fit, omissions in order."""
    used = used.copy()
    guess = max(float(np.median(d)), 0.0)
    order = []
    if not used.any():
        return used, np.nan, order
    base = gls(cov, d, np.flatnonzero(used), guess, gain, rn)
    rate = base["slope"]
    for _ in range(cov.n):
        idx = np.flatnonzero(used)
        if len(idx) <= 2:
            break
        base = gls(cov, d, idx, guess, gain, rn)
        rows = []
        for i in idx:
            f = gls(cov, d, idx[idx != i], guess, gain, rn)
            rows.append((base["chi"] - f["chi"], 1, (i,), f["slope"]))
        if len(idx) > 3:
            for i in range(cov.n - 1):
                if cov.nreads[i + 1] <= 1:
                    continue
                out = tuple(j for j in (i, i + 1) if used[j])
                if out:
                    f = gls(cov, d, np.array([j for j in idx if j not in out]), guess, gain, rn)
                    rows.append((base["chi"] - f["chi"], 2, out, f["slope"]))
        tol = 1e-6 + 2e-5 * abs(base["chi"]) + 1e-9 * abs(base["a"])
        margin = [g - (t1 if k == 1 else t2) for g, k, _, _ in rows]
        best = int(np.argmax(margin))
        if abs(margin[best]) < tol:
            raise Ambiguous
        if margin[best] < 0:
            break
        for m, r in zip(margin, rows):
            if r[2] != rows[best][2] and margin[best] - m < tol:
                raise Ambiguous
        for i in rows[best][2]:
            used[i] = False
        order.append(rows[best][2])
        rate = rows[best][3]
        if used.sum() <= 3:
            break
    return used, rate, order


def thresholds(t):
    if t is None:
        return 20.25, 23.8
    one = t ** 2
    two = stats.chi2.isf(special.erfc(t / np.sqrt(2)), 2)
    return one, (one + 10 if np.isinf(two) else two)


def expected(m, reads, thr, large=None):
    """Reference for a whole exposure; pixels that cannot be decided are left out of the returned mask."""
    ni, ng, ny, nx = m.data.shape
    dq = m.dq
    J, S, D = dq["JUMP_DET"], dq["SATURATED"], dq["DO_NOT_USE"]
    zf = m.zeroframe is not None and len(reads[0]) >= 2
    if zf:
        reads = [reads[0][:1], reads[0][1:]] + list(reads[1:])
    cov = Cov(reads)
    t1, t2 = thresholds(thr)
    shp = (ni, ny, nx)
    out = {k: np.full(shp, np.nan) for k in ("slope", "chi", "var", "vp", "vr", "tslope", "tchi")}
    judged = np.ones(shp, bool)
    gdq_out = m.gdq.copy()
    idq = np.zeros(shp, np.uint32)
    drops = []
    masks = {}
    for i in range(ni):
        data, g = m.data[i], m.gdq[i].copy()
        if zf:
            first = (data[0] * m.nframes - m.zeroframe[i]) / (m.nframes - 1)
            data = np.concatenate([m.zeroframe[i][None], first[None], data[1:]])
            g = np.concatenate([g[:1], g])
        d = np.diff(data, axis=0) / cov.dt[:, None, None]
        keep = np.zeros(d.shape, bool)
        rates = np.full((ny, nx), np.nan)
        for y in range(ny):
            for x in range(nx):
                bad = g[:, y, x] != 0
                used0 = ~(bad[1:] | bad[:-1])
                gain, rn = float(m.gain[y, x]), float(m.rn[y, x]) / np.sqrt(2)
                if not (np.isfinite(gain) and gain > 0 and np.isfinite(rn) and rn > 0 and np.isfinite(d[:, y, x]).all()):
                    judged[i, y, x] = False
                    keep[:, y, x] = used0
                    continue
                try:
                    used, rate, order = search(cov, d[:, y, x].astype(float), used0, gain, rn, t1, t2)
                except Ambiguous:
                    judged[i, y, x] = False
                    keep[:, y, x] = used0
                    continue
                keep[:, y, x], rates[y, x] = used, rate
                g[1:, y, x][used0 & ~used] |= J
                drops.append((order, int(used0.sum())))
        if large is not None and not judged[i].all():
            raise Skip()
        if large is not None:
            large(g[None])
            keep &= (g[1:] & J) == 0
        gdq_out[i] |= g[-ng:]
        for y in range(ny):
            for x in range(nx):
                if judged[i, y, x] and keep[:, y, x].any():
                    guess = max(rates[y, x], 0.0) + float(m.dark[y, x])
                    idx = np.flatnonzero(keep[:, y, x])
                    f = gls(cov, d[:, y, x].astype(float), idx, guess, float(m.gain[y, x]), float(m.rn[y, x]) / np.sqrt(2))
                    for k in ("slope", "chi", "var", "vp", "vr"):
                        out[k][i, y, x] = f[k]
                    err = 3e-7 * np.abs(data[:, y, x]).max() / cov.dt.min()
                    out["tslope"][i, y, x] = 1e-9 + err * np.abs(f["w"]).sum()
                    out["tchi"][i, y, x] = 1e-5 + 1e-8 * abs(f["a"]) + 2 * err * np.sqrt(abs(f["chi"]) / max(
                        (float(m.rn[y, x]) ** 2 / 2 * np.diag(cov.read)).min(), 1e-12)) * len(idx)
                masks[i, y, x] = keep[:, y, x]
        p = m.pdq.astype(np.uint32).copy()
        p[np.all(g & (S | D), axis=0)] |= D
        p[np.any(g & S, axis=0)] |= S
        p[np.any(g & J, axis=0)] |= J
        idq[i] = p
    return dict(out, judged=judged, gdq=gdq_out, dq=idq, drops=drops, masks=masks, zf=zf, ndiff=cov.n)


def combine(integ):
    """Inverse-variance combination of the observed integrations (Poisson part rescaled to the combined rate)."""
    d, vp, vr = (np.asarray(integ[k], float) for k in ("slope", "var_poisson", "var_rnoise"))
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        slope = np.nanmedian(d, axis=0)
        for _ in range(2):
            s = slope / d
            s[~(np.isfinite(s) & (s >= 0))] = 0
            p = vp * s
            w = 1 / (p + vr)
            w = w / np.nansum(w, axis=0)
            slope = np.nansum(d * w, axis=0)
        none = np.isnan(d * w).all(axis=0)
        slope[none] = np.nan
        vp2, vr2 = np.nansum(p * w ** 2, axis=0), np.nansum(vr * w ** 2, axis=0)
        vp2[none] = np.nan
        vr2[none] = np.nan
        return slope, vp2, vr2, np.sqrt(vp2 + vr2)


# ------------------------------------------------------------------ running
def exposure(c, **kw):
    rng = c.rng
    opts = dict(nints=int(rng.integers(1, 4)), ngroups=int(rng.integers(4, 13)), nrows=2, ncols=4,
                nframes=int(rng.choice([1, 1, 2, 4, 8])), groupgap=int(rng.integers(0, 3)),
                jump_p=float(rng.choice([0, .05, .2])), sat_p=.15, dnu_p=float(rng.choice([0, .05, .2])),
                pers_p=.05 * (rng.random() < .3), other_p=.05 * (rng.random() < .3), dark=rng.random() < .4,
                zeroframe=rng.random() < .3, dq=rampgen.DQ if rng.random() < .7 else rampgen.DQ2,
                rate_max=float(rng.choice([5, 80, 2000])))
    opts.update(kw)
    m = rampgen.make(rng, **opts)
    J = m.dq["JUMP_DET"]
    if rng.random() < .8:  # leave the cosmic rays for the search to find
        m.gdq &= np.uint8(0xFF ^ J)
    return m


def reads_of(m):
    if getattr(m, "read_times", None) is not None:
        return [np.asarray(r, float) for r in m.read_times]
    tot = m.nframes + m.groupgap
    return [(np.arange(1, m.nframes + 1) + k * tot) * m.frame_time for k in range(m.data.shape[1])]


def irregular(rng, m, first=None):
    """Give the exposure its own read times: a list of read times per group."""
    out, r = [], 0
    for g in range(m.data.shape[1]):
        n = int(rng.integers(1, 6)) if not (first and g == 0) else first
        r += int(rng.integers(0, 3)) if rng.random() < .4 else 0
        out.append([float((r + j + 1) * m.frame_time) for j in range(n)])
        r += n
    m.read_times = out


def fit(c, m, thr=None, jump_data=None):
    """Fit a private copy; thr or jump_data need the class-level entry point."""
    if thr is None and jump_data is None:
        k = rampgen.clone(m)
        from stcal.ramp_fitting.ramp_fit import ramp_fit

        im, ii, oo = c.call(ramp_fit, rampgen.pack(k), bool(c.rng.random() < .5), k.rn, k.gain,
                            str(c.rng.choice(["LIKELY", "likely"])), "optimal", "none", m.dq)
        return im, ii, k
    k = rampgen.clone(m)
    rd = ramp_data(k)
    rd.rejection_threshold = thr
    from stcal.ramp_fitting.likely_fit import likely_ramp_fit

    im, ii, oo = c.call(likely_ramp_fit, rd, k.rn, k.gain, jump_data)
    return im, ii, k


def ramp_data(k):
    from stcal.ramp_fitting.ramp_fit import create_ramp_fit_class

    return create_ramp_fit_class(rampgen.pack(k), "LIKELY", k.dq, False)


def unchanged(c, m, k):
    for name in ("data", "gain", "rn", "pdq", "dark", "zeroframe"):
        a, b = getattr(m, name), getattr(k, name)
        if a is not None:
            c.equal(b, a, "input_changed", name)
    if getattr(m, "read_times", None) is not None:
        c.check([list(map(float, r)) for r in k.read_times] == [list(map(float, r)) for r in m.read_times], "read_times_changed",
                "the caller's read times changed")


def compare(c, m, ref, im, ii, jumps=True):
    ok = ref["judged"]
    c.count("pixels", ok.size)
    c.count("near_limit_skipped", int((~ok).sum()))
    fitted = ok & np.isfinite(ref["slope"])
    c.count("pixels_compared", int(fitted.sum()))
    c.count("pixels_unusable", int((ok & ~fitted).sum()))
    for key, name in (("slope", "slope"), ("chi", "chisq"), ("var", "err"), ("vp", "var_poisson"), ("vr", "var_rnoise")):
        got = np.asarray(ii[name], float)
        want = np.sqrt(ref[key]) if key == "var" else ref[key]
        if key == "slope":
            tol = ref["tslope"]
        elif key == "chi":
            tol = ref["tchi"] + 1e-4 * np.abs(want)
        else:
            tol = 1e-4 * np.sqrt(ref["var"]) if key == "var" else 2e-4 * ref["var"]
        tol = tol + 3e-5 * np.abs(want)
        bad = fitted & ~(np.abs(got - want) <= tol)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            c.fail(name, f"{int(bad.sum())} pixels; at {i} got {got[i]!r}, dense fit {want[i]!r} (tolerance {tol[i]:.2g})",
                   mask=ref["masks"][i].astype(int), data=m.data[i[0], :, i[1], i[2]], gain=m.gain[i[1:]], rn=m.rn[i[1:]])
    none = ok & ~np.isfinite(ref["slope"])
    c.check(np.isnan(np.asarray(ii["slope"])[none]).all(), "no_data", "a pixel without a usable difference has a slope")
    # flags of the products
    c.equal(np.asarray(ii["dq"]), ref["dq"], "integ_dq", mask=ok)
    # exposure level
    ni = ok.shape[0]
    if ni == 1:
        for k in ("slope", "var_poisson", "var_rnoise", "err", "chisq", "dq"):
            c.equal(np.asarray(im[k]), np.asarray(ii[k])[0], f"image_{k}")
    else:
        s, p, r, e = combine(ii)
        fin = np.isfinite(np.asarray(ii["slope"])).all(axis=0) & np.isfinite(np.asarray(ii["err"])).all(axis=0)
        some = np.isfinite(s) & np.isfinite(e) & (fin | (np.isfinite(np.asarray(ii["slope"])).any(axis=0)))
        sens = np.abs(np.asarray(ii["slope"], float))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            top = np.nan_to_num(np.nanmax(sens, axis=0))
        for name, want, tol in (("slope", s, 2e-5 * top), ("var_poisson", p, 2e-4 * e ** 2), ("var_rnoise", r, 2e-4 * e ** 2),
                                ("err", e, 1e-4 * e)):
            c.close_to(np.asarray(im[name], float)[some], want[some], f"image_{name}", 1e-4, tol[some] + 1e-12)
        c.check(np.isnan(np.asarray(im["slope"])[np.isnan(s)]).all(), "image_no_data", "a pixel unusable in every integration has a slope")
        d = np.asarray(ii["dq"])
        D = m.dq["DO_NOT_USE"]
        want = (np.bitwise_or.reduce(d, axis=0) & np.uint32(0xFFFFFFFF ^ D)) | np.where(((d & D) != 0).all(axis=0), D, 0).astype(np.uint32)
        c.equal(np.asarray(im["dq"]), want, "image_dq")
        c.count("images_combined", int(some.sum()))


# ------------------------------------------------------------------ K01
def k01_fit(c):
    m = exposure(c)
    rng = c.rng
    if rng.random() < .4:
        irregular(rng, m, m.nframes if m.zeroframe is not None else None)
    ref = expected(m, reads_of(m), None)
    c.describe(shape=m.data.shape, nframes=m.nframes, groupgap=m.groupgap, zeroframe=ref["zf"])
    im, ii, k = fit(c, m)
    compare(c, m, ref, im, ii)
    unchanged(c, m, k)
    if ref["zf"]:
        c.count("zeroframe_fits")
    for key, v in ref["masks"].items():
        if ref["judged"][key]:
            c.state(len(v), v.astype(np.uint8).tobytes(), m.nframes)


def k01_separate(c):
    """Every pixel's answer is the one it has alone, and rows, columns and integrations may be permuted."""
    rng = c.rng
    m = exposure(c, badgain_p=.15 if rng.random() < .5 else 0)
    if rng.random() < .3:
        bad = rng.random(m.data.shape[2:]) < .2
        m.data[:, int(rng.integers(0, m.data.shape[1])), bad] = rng.choice([np.nan, np.inf, 1e30])
    im, ii, k = fit(c, m)
    ni, ng, ny, nx = m.data.shape
    c.describe(shape=m.data.shape)
    with np.errstate(all="ignore"):
        ok = (np.abs(m.data) < 1e7).all(axis=(0, 1)) & (m.gain > 0)  # what the others get is not meaningful
    keys = ("slope", "err", "var_poisson", "var_rnoise", "chisq", "dq")
    for y, x in {(int(rng.integers(0, ny)), int(rng.integers(0, nx))) for _ in range(3)}:
        if not ok[y, x]:
            continue
        one = cut(m, slice(y, y + 1), slice(x, x + 1))
        im1, ii1, k1 = fit(c, one)
        for key in keys:
            same(c, np.asarray(ii1[key])[:, 0, 0], np.asarray(ii[key])[:, y, x], f"alone_{key}")
            if key != "dq":
                same(c, np.asarray(im1[key])[0, 0], np.asarray(im[key])[y, x], f"alone_image_{key}")
        c.equal(k1.gdq[:, :, 0, 0], k.gdq[:, :, y, x], "alone_flags")
        c.count("pixels_alone")
    py, px, pi = rng.permutation(ny), rng.permutation(nx), rng.permutation(ni)
    p = cut(m, py, slice(None))
    p = cut(p, slice(None), px)
    p.data, p.gdq = p.data[pi], p.gdq[pi]
    if p.zeroframe is not None:
        p.zeroframe = p.zeroframe[pi]
    im2, ii2, k2 = fit(c, p)
    for key in keys:
        okp = ok[py][:, px]
        same(c, np.asarray(ii2[key])[:, okp], np.asarray(ii[key])[pi][:, py][:, :, px][:, okp], f"permuted_{key}")
    c.equal(k2.gdq, k.gdq[pi][:, :, py][:, :, :, px], "permuted_flags", mask=np.broadcast_to(ok[py][:, px], m.gdq.shape))
    c.count("permutations")
    c.state("separate", ni, ng, m.nframes, bool(m.zeroframe is not None))


def same(c, got, want, mech):
    c.close_to(got, want, mech, 2e-6, 1e-7 * (1 + np.nanmax(np.abs(np.where(np.isfinite(want), want, 0).astype(float)), initial=0)))


def cut(m, ys, xs):
    k = rampgen.clone(m)
    k.data, k.gdq = np.ascontiguousarray(k.data[:, :, ys, :][..., xs]), np.ascontiguousarray(k.gdq[:, :, ys, :][..., xs])
    for n in ("pdq", "gain", "rn", "dark"):
        setattr(k, n, np.ascontiguousarray(getattr(k, n)[ys][:, xs]))
    if k.zeroframe is not None:
        k.zeroframe = np.ascontiguousarray(k.zeroframe[:, ys][:, :, xs])
    return k


def k01_row(c):
    """fit_ramps itself: long ramps, any mask, given or computed rate guess, any rescaling period."""
    from stcal.ramp_fitting.likely_algo_classes import Covar
    from stcal.ramp_fitting.likely_fit import fit_ramps

    rng = c.rng
    n = int(rng.choice([2, 3, 4, 8, 20, 60, 150]))
    ft = float(10 ** rng.uniform(-1, 2))
    nf = int(rng.choice([1, 1, 2, 4, 16]))
    gap = int(rng.integers(0, 4))
    reads = [(np.arange(1, nf + 1) + k * (nf + gap)) * ft for k in range(n + 1)]
    if rng.random() < .3:
        r, reads = 0, []
        for _ in range(n + 1):
            k = int(rng.integers(1, 9))
            r += int(rng.integers(0, 5))
            reads.append((r + 1 + np.arange(k)) * ft)
            r += k
    cov = Cov(reads)
    nx = 6
    gain = 10 ** rng.uniform(-.5, 1, nx)
    rn = 10 ** rng.uniform(-.5, 2, nx)
    rate = 10 ** rng.uniform(-2, 4, nx) / ft
    d = rate + rng.normal(0, 1, (n, nx)) * np.sqrt(np.diag(cov.read)[:, None] * rn ** 2 + np.diag(cov.photon)[:, None] * rate / gain)
    use = (rng.random((n, nx)) > rng.choice([0, .2, .6])).astype(np.uint8)
    use[int(rng.integers(0, n))] = 1
    guess = None if rng.random() < .3 else rate * rng.uniform(.5, 2, nx)
    kw = {}
    if rng.random() < .3:
        kw["dn_scale"] = float(rng.choice([1, 3, 10, 30]))
    if n <= 20 and rng.random() < .3:
        kw["rescale"] = False
    if use.all() and rng.random() < .5:
        res = c.call(fit_ramps, d.copy(), Covar(reads), gain.copy(), rn.copy(), count_rate_guess=guess, **kw)
    else:
        res = c.call(fit_ramps, d.copy(), Covar(reads), gain.copy(), rn.copy(), count_rate_guess=guess, diffs2use=use.copy(), **kw)
    c.describe(n=n, nf=nf, gap=gap, ft=ft, **kw)
    for x in range(nx):
        idx = np.flatnonzero(use[:, x])
        g = max(float(d[idx, x].mean()), 0.0) if guess is None else guess[x]
        f = gls(cov, d[:, x], idx, g, gain[x], rn[x])
        for name, want, tol in (("countrate", f["slope"], 1e-7 * np.abs(d[idx, x]).max()), ("uncert", np.sqrt(f["var"]), 0),
                                ("chisq", f["chi"], 1e-9 * f["a"] + 1e-7), ("var_poisson", f["vp"], 1e-7 * f["var"]),
                                ("var_rnoise", f["vr"], 1e-7 * f["var"])):
            got = float(np.asarray(getattr(res, name))[x])
            if not abs(got - want) <= tol + 1e-6 * abs(want):
                c.fail(f"row_{name}", f"got {got!r}, dense fit {want!r}", diffs=d[:, x], used=use[:, x], gain=gain[x], rn=rn[x], guess=g)
        c.count("row_fits")
        c.state("row", n, nf, len(idx) * 4 // n)
    if guess is None:
        c.count("guessed_fits", nx)


# ------------------------------------------------------------------ K02
def flags(c, m, ref, k):
    ok = np.broadcast_to(ref["judged"][:, None], m.gdq.shape)
    c.check(not np.any(m.gdq & ~k.gdq), "flag_removed", "a group flag of the caller was removed")
    add = k.gdq & ~m.gdq
    c.check(not np.any(add & ~np.uint8(m.dq["JUMP_DET"])), "other_flag", "the fit set a group flag other than jump")
    if not np.array_equal(k.gdq[ok], ref["gdq"][ok]):
        i = tuple(int(v) for v in np.argwhere((k.gdq != ref["gdq"]) & ok)[0])
        px = (i[0], slice(None)) + i[2:]
        c.fail("flags", f"pixel {i}: flags {k.gdq[px].tolist()}, the search gives {ref['gdq'][px].tolist()}, before {m.gdq[px].tolist()}",
               data=m.data[px], gain=m.gain[i[2:]], rn=m.rn[i[2:]], nframes=m.nframes, groupgap=m.groupgap)
    for order, n0 in ref["drops"]:
        c.count("pixels_searched")
        c.count("omissions", len(order))
        if len(order) > 1:
            c.count("pixels_with_several_omissions")
        if any(len(o) == 2 for o in order):
            c.count("pairs_omitted")
        if n0 <= 3:
            c.count("short_ramps_searched")
        c.state(tuple(order)[:4], n0)


def k02_search(c):
    rng = c.rng
    m = exposure(c, jump_p=float(rng.choice([.05, .2, .4])), ngroups=int(rng.integers(4, 15)))
    if rng.random() < .3:
        irregular(rng, m, m.nframes if m.zeroframe is not None else None)
    thr = None if rng.random() < .4 else float(rng.choice([2.5, 4, 6, 15, 50]))
    ref = expected(m, reads_of(m), thr)
    c.describe(shape=m.data.shape, nframes=m.nframes, threshold=thr, zeroframe=ref["zf"])
    im, ii, k = fit(c, m, thr)
    flags(c, m, ref, k)
    compare(c, m, ref, im, ii)
    unchanged(c, m, k)
    if ref["zf"]:
        c.count("zeroframe_searches")


def k02_again(c):
    """Repeated fits of the same ramp object: each starts from the flags the last one left."""
    from stcal.ramp_fitting.likely_fit import likely_ramp_fit

    rng = c.rng
    m = exposure(c, jump_p=.2)
    if m.nframes > 1 and rng.random() < .6:
        irregular(rng, m, m.nframes)
    k = rampgen.clone(m)
    rd = ramp_data(k)
    rd.rejection_threshold = None if rng.random() < .5 else float(rng.choice([3, 5, 10]))
    reads = reads_of(m)
    cur = rampgen.clone(m)
    c.describe(shape=m.data.shape, zeroframe=m.zeroframe is not None, own_times=hasattr(m, "read_times"))
    for _ in range(3):
        ref = expected(cur, reads, rd.rejection_threshold)
        im, ii, _ = c.call(likely_ramp_fit, rd, k.rn, k.gain)
        flags(c, cur, ref, k)
        compare(c, cur, ref, im, ii)
        unchanged(c, m, k)
        c.count("repeated_fits")
        cur.gdq = k.gdq.copy()


def k02_large(c):
    """With large-event expansion: expanded jumps are recorded and their differences left out of the fit."""
    from stcal.jump.jump import flag_large_events
    from stcal.jump.jump_class import JumpData

    rng = c.rng
    ny = nx = 12
    ng = int(rng.integers(5, 8))
    m = rampgen.make(rng, nints=1, ngroups=ng, nrows=ny, ncols=nx, jump_p=0, sat_p=0, dnu_p=0, rate_max=20, pixdq_p=.02)
    m.rn[:] = 8
    jd = JumpData(dqflags=m.dq)
    jd.expand_large_events = True
    jd.min_sat_area, jd.min_jump_area = 1, int(rng.integers(3, 7))
    jd.expand_factor, jd.sat_expand = float(rng.uniform(1.2, 2.5)), float(rng.uniform(1, 3))
    jd.edge_size = int(rng.choice([0, 2, 25]))
    jd.sat_required_snowball = bool(rng.random() < .5)
    jd.min_sat_radius_extend = .5
    jd.grps_masked_after_snowball1 = jd.grps_masked_after_snowball2 = int(rng.integers(0, 3)) if rng.random() < .5 else 0
    g0 = int(rng.integers(1, ng - 1))
    y0, x0 = rng.integers(3, 9, 2)
    yy, xx = np.mgrid[:ny, :nx]
    r2 = (yy - y0) ** 2 + (xx - x0) ** 2
    m.data[0, g0:, r2 <= 6] += 5000
    if rng.random() < .8:
        m.gdq[0, g0:, r2 <= 1.5] = m.dq["SATURATED"]

    def large(g):
        flag_large_events(g, m.dq["JUMP_DET"], m.dq["SATURATED"], jd)

    ref = expected(m, reads_of(m), None, large)
    im, ii, k = fit(c, m, None, jd)
    c.check(not np.any(m.gdq & ~k.gdq), "flag_removed", "a group flag of the caller was removed")
    c.equal(k.gdq, ref["gdq"], "large_flags")
    compare(c, m, ref, im, ii)
    plain = expected(m, reads_of(m), None)
    c.count("expanded_pixels", int(np.any((ref["gdq"] & ~plain["gdq"]) != 0, axis=1).sum()))
    c.count("large_event_fits")
    c.state("large", g0, ng, jd.edge_size)


def k02_few(c):
    """Ramps with few usable differences: some difference is always left, and no flag without a reason."""
    rng = c.rng
    m = exposure(c, ngroups=int(rng.integers(4, 8)), jump_p=.5, dnu_p=.25, sat_p=.3, nints=2, ncols=6)
    im, ii, k = fit(c, m, float(rng.choice([2, 4])))
    ref = expected(m, reads_of(m), None)
    J = m.dq["JUMP_DET"]
    bad0 = m.gdq != 0
    had = (~(bad0[:, 1:] | bad0[:, :-1])).any(axis=1)
    c.check(np.isfinite(np.asarray(ii["slope"])[had & ref["judged"]]).all(), "all_omitted", "a ramp with usable differences lost all of them")
    new = ((k.gdq & ~m.gdq) & J) != 0
    c.check(not np.any(new & bad0), "on_flagged", "a jump was newly recorded for a group that was already flagged")
    prev = np.concatenate([np.zeros_like(bad0[:, :1]), bad0[:, :-1]], axis=1)
    if not ref["zf"]:
        c.check(not np.any(new & prev), "after_flagged", "a jump was recorded for a difference that starts at a flagged group")
        c.check(not np.any(new[:, 0]), "first_group", "a jump was recorded in the first group")
    c.count("few_difference_ramps", int(had.sum()))
    c.count("few_omissions", int(new.sum()))
    c.state("few", m.data.shape[1], m.nframes, ref["zf"])


class K01:
    PID = "K01"
    RULE = "distinct (usable differences, mask, reads per group) of compared pixels, and relation kinds"
    ASSUMPTIONS = ["finite data, positive gain and read noise; other pixels only serve to show they do not disturb their neighbours",
                   "pixels with a jump decision within rounding of its limit are not compared",
                   "the rate at which the covariance is evaluated is the one of the jump search, as documented"]
    REQUIRE = {"pixels_compared": 2000, "pixels_unusable": 30, "images_combined": 500, "zeroframe_fits": 20, "pixels_alone": 100,
               "permutations": 50, "row_fits": 1000, "guessed_fits": 100}

    @staticmethod
    def streams(t):
        k = 1 if t == "quick" else 25
        return [("fit", 500 * k, k01_fit), ("separate", 120 * k, k01_separate), ("row", 500 * k, k01_row)]


class K02:
    PID = "K02"
    RULE = "distinct (sequence of omitted differences, usable differences) of searched pixels"
    ASSUMPTIONS = ["pixels where two candidates or a threshold lie within rounding of each other are not judged (near_limit_skipped)",
                   "which pixels a large event covers is taken from the jump step itself (decided under J04)"]
    REQUIRE = {"pixels_searched": 3000, "omissions": 500, "pixels_with_several_omissions": 100, "pairs_omitted": 50,
               "short_ramps_searched": 100, "repeated_fits": 100, "large_event_fits": 20, "expanded_pixels": 50,
               "zeroframe_searches": 20, "few_omissions": 50}

    @staticmethod
    def streams(t):
        k = 1 if t == "quick" else 25
        return [("search", 500 * k, k02_search), ("again", 100 * k, k02_again), ("large", 60 * k, k02_large), ("few", 150 * k, k02_few)]


CHECKS = {"K01": K01, "K02": K02}
