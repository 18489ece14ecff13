"""R01-R04: ordinary least squares ramp fitting.

Oracle: checks.lib.olsref, an independent double-precision model of the documented fit, and
metamorphic relations (permutation, slicing, layout, byte order, garbage in unused samples).
Only the products returned by stcal.ramp_fitting.ramp_fit.ramp_fit are observed.
"""
import itertools

import numpy as np

from vp.core import Skip
from .lib import olsref, pools, rampgen

IMG = ("slope", "dq", "var_poisson", "var_rnoise", "err")
SEG = (("slope", "slope"), ("sigslope", "sigslope"), ("var_poisson", "var_p"), ("var_rnoise", "var_r"),
       ("yint", "yint"), ("sigyint", "sigyint"), ("weights", "weight"))


def draw(rng, big=False, **over):
    kw = dict(
        nints=int(rng.integers(1, 4)), ngroups=int(rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 12] + ([25, 40] if big else []))),
        nrows=int(rng.integers(1, 5)), ncols=int(rng.integers(1, 6)),
        nframes=int(rng.choice([1, 1, 2, 4, 8])), groupgap=int(rng.choice([0, 0, 1, 4])),
        drop=int(rng.choice([0, 0, 1, 3])), sat_p=float(rng.choice([0, .2, .6])), dnu_p=float(rng.choice([0, .08, .4])),
        jump_p=float(rng.choice([0, .1, .4])), pers_p=float(rng.choice([0, 0, .1, .4])),
        charge_p=float(rng.choice([0, 0, .3])), other_p=float(rng.choice([0, 0, .1])),
        zeroframe=bool(rng.random() < .35), dark=bool(rng.random() < .5), badgain_p=float(rng.choice([0, 0, .1])),
        nan_p=float(rng.choice([0, .5])), jump_first_p=float(rng.choice([0, .1])), pixdq_p=float(rng.choice([0, .06])),
        rate_max=float(rng.choice([10, 80, 2000])), instrument=str(rng.choice(["NIRCam", "NIRCam", "MIRI"])),
        dq=rampgen.DQ if rng.random() < .6 else rampgen.DQ2)
    kw.update(over)
    m = rampgen.make(rng, **kw)
    if rng.random() < 0.2:
        m.pdq[rng.random(m.pdq.shape) < 0.1] |= m.dq["SATURATED"]
    if m.instrument == "MIRI" and m.data.shape[1] > 1:
        if rng.random() < 0.6:
            m.gdq[:, : int(rng.integers(1, 3))] |= m.dq["DO_NOT_USE"]
        if rng.random() < 0.6:
            m.gdq[:, -1] |= m.dq["DO_NOT_USE"]
    if m.drop == 0 and rng.random() < 0.3:
        m.drop = None
    return m, kw


def patterns(rng, n, alphabet):
    """Every assignment of flags to n groups, one pixel each, on noisy ramps of random brightness."""
    pats = list(itertools.product(alphabet, repeat=n))
    ncols = min(32, len(pats))
    nrows = -(-len(pats) // ncols)
    m = rampgen.make(rng, nints=1, ngroups=n, nrows=nrows, ncols=ncols, nframes=int(rng.choice([1, 4])),
                     groupgap=int(rng.choice([0, 2])), sat_p=0, dnu_p=0, jump_p=0.1, pixdq_p=0,
                     zeroframe=bool(rng.random() < .5), dark=bool(rng.random() < .5))
    m.gdq[:] = 0
    perm = rng.permutation(len(pats))
    for k, pi in enumerate(perm):
        m.gdq[0, :, k // ncols, k % ncols] = pats[pi]
    return m


def note(c, m, ref, sup):
    D, S, J = (m.dq[k] for k in ("DO_NOT_USE", "SATURATED", "JUMP_DET"))
    for p in ref.values():
        for i, fs in enumerate(p.fits):
            key = tuple(f["n"] for f in fs)
            c.count("integrations_fitted" if key else "integrations_without_fit")
            c.state(key[:6], p.integ[i]["dq"] & (D | S | J), sup)
            c.count("segments", len(fs))
            if len(fs) > 1:
                c.count("multi_segment")
    if m.zeroframe is not None:
        c.count("exposures_with_zeroframe")
    if (m.gdq & m.dq["CHARGELOSS"]).any():
        c.count("exposures_with_chargeloss")


def ok32(g, w, at=0.0):
    g, w = float(g), float(w)
    if g == w or (g != g and w != w):
        return True
    return abs(g - w) <= 2e-5 * abs(w) + at


def tol(p, m):
    return 2e-6 * getattr(p, "scale", 0.0) / m.group_time + 1e-6


def run(c, m, sup, save_opt=False):
    im, ii, oo, k = c.call(rampgen.run_ols, m, save_opt, suppress=sup)
    return im, ii, oo


# ------------------------------------------------------------------ R01
def r01_compare(c, m, sup):
    ref = olsref.fit_exposure(m, sup)
    im, ii, _ = run(c, m, sup)
    c.check((im is None) == (ref is None), "no_result", f"result {'missing' if im is None else 'present'}, expected otherwise")
    if ref is None:
        c.count("unusable_exposures")
        return
    c.check(ii["slope"].shape == (m.data.shape[0],) + m.pdq.shape and im["slope"].shape == m.pdq.shape, "shape",
            f"{ii['slope'].shape}")
    note(c, m, ref, sup)
    for (y, x), p in ref.items():
        if p.edge:
            c.count("near_weight_switch_skipped")
            continue
        badgain = not m.gain[y, x] > 0
        chg = bool((m.gdq[:, :, y, x] & m.dq["CHARGELOSS"]).any())
        for key in ("slope", "var_poisson", "var_rnoise", "err"):
            if key == "var_rnoise" and badgain and chg:
                continue
            at = tol(p, m) if key == "slope" else 0.0
            c.count("values_compared", 1 + len(p.integ))
            if not ok32(im[key][y, x], p.rate[key], at):
                c.fail(f"rate:{key}", f"exposure {key} at {(y, x)} is {im[key][y, x]!r}, the documented fit gives {p.rate[key]!r}",
                       gdq=m.gdq[:, :, y, x], data=m.data[:, :, y, x])
            for i, q in enumerate(p.integ):
                if not ok32(ii[key][i, y, x], q[key], at):
                    c.fail(f"integ:{key}", f"integration {i} {key} at {(y, x)} is {ii[key][i, y, x]!r}, the documented fit "
                           f"gives {q[key]!r}", gdq=m.gdq[:, :, y, x], data=m.data[:, :, y, x])
    c.count("assertions", len(ref))


def r01_general(c):
    m, kw = draw(c.rng, big=c.tier == "thorough")
    sup = bool(c.rng.random() < 0.3)
    c.describe(**{k: v for k, v in kw.items() if k != "dq"}, suppress=sup)
    r01_compare(c, m, sup)


def r01_clean(c):
    """Long clean ramps over all signal-to-noise regimes."""
    r = c.rng
    m, kw = draw(r, ngroups=int(r.integers(3, 16)), nrows=4, ncols=6, sat_p=0.05, dnu_p=0.0, jump_p=0.05, other_p=0,
                 pers_p=0, charge_p=0, badgain_p=0, nan_p=0, rate_max=float(10 ** r.uniform(0.5, 4)), zeroframe=False)
    r01_compare(c, m, bool(r.random() < 0.2))


def r01_patterns(c):
    n = 1 + c.idx % (5 if c.tier == "thorough" else 4)
    d = rampgen.DQ
    abc = (0, d["JUMP_DET"], d["DO_NOT_USE"], d["SATURATED"])
    if n <= 3:
        abc = abc + (d["PERSISTENCE"], d["JUMP_DET"] | d["DO_NOT_USE"], d["DROPOUT"])
    m = patterns(c.rng, n, abc)
    sup = bool(c.rng.random() < 0.4)
    c.describe(n=n, alphabet=list(abc), suppress=sup)
    c.count("flag_patterns", len(abc) ** n)
    r01_compare(c, m, sup)


# ------------------------------------------------------------------ R02
def r02_rules(c, m, sup, im, ii):
    D, S, J, P, NG = (m.dq[k] for k in ("DO_NOT_USE", "SATURATED", "JUMP_DET", "PERSISTENCE", "NO_GAIN_VALUE"))
    prep = olsref.prepare(m, sup)
    c.check((im is None) == (prep is None), "no_result", "an exposure without usable groups gives no result, others do")
    if im is None:
        c.count("unusable_exposures")
        return
    _, gdq, _, sup = prep
    g = gdq.astype(np.int64)
    base = m.pdq.astype(np.int64) | np.where(m.gain > 0, 0, D | NG)
    bad = (g & (D | S)) != 0
    zero = np.zeros((g.shape[0],) + base.shape, bool)
    if m.zeroframe is not None and not sup:
        zero = ~((g & ~P) == 0).any(axis=1) & (m.zeroframe != 0)
    bad0 = bad[:, 0] & ~zero
    sat0 = ((g[:, 0] & S) != 0) & ~zero
    unusable = (bad[:, 1:].all(axis=1) & bad0) | sat0
    nsat = ((g & S) != 0).sum(axis=1)
    # a zero frame standing in for a wholly saturated ramp leaves the later groups saturated
    anysat = (nsat - (zero & (nsat == g.shape[1]))) > 0
    want = np.broadcast_to(base, zero.shape).copy()
    want |= np.where(((g & J) != 0).any(axis=1), J, 0)
    want |= np.where(((g & P) != 0).any(axis=1), P, 0)
    want |= np.where(unusable, D, 0)
    want |= np.where(anysat | sat0, S, 0)
    c.equal(ii["dq"].astype(np.int64), want, "integ:dq", "integration flags")
    rate = np.bitwise_or.reduce(want & ~D, axis=0) | np.where(((want & D) != 0).all(axis=0), D, 0)
    c.equal(im["dq"].astype(np.int64), rate, "rate:dq", "exposure flags")
    inan = unusable | ((base & (D | S)) != 0)
    c.equal(np.isnan(ii["slope"]), inan, "integ:nan", "NaN integration slopes")
    c.equal(np.isnan(im["slope"]), inan.all(axis=0), "rate:nan", "NaN exposure slopes")
    for k in ("var_poisson", "err"):
        c.check(not np.any(ii[k][inan]), f"integ:{k}", "an unusable integration has a variance")
        c.check(not np.any(im[k][inan.all(axis=0)]), f"rate:{k}", "an unusable exposure has a variance")
    c.check(ii["dq"].dtype == np.uint32 and im["dq"].dtype == np.uint32, "dtype", "flag products must be uint32")
    c.count("integrations_judged", want.size)
    c.count("integrations_dnu", int((want & D != 0).sum()))
    c.count("integrations_sat", int((want & S != 0).sum()))
    c.count("integrations_jump", int((want & J != 0).sum()))
    c.count("zero_frame_used", int(zero.sum()))
    c.count("mixed_exposures", int(((want & D != 0).any(axis=0) & ~(want & D != 0).all(axis=0)).sum()))
    for v in np.unique(want & (D | S | J | P)):
        c.state(int(v), sup, bool(zero.any()), g.shape[1])


def r02_general(c):
    m, kw = draw(c.rng, big=c.tier == "thorough", nrows=5, ncols=7)
    sup = bool(c.rng.random() < 0.3)
    c.describe(**{k: v for k, v in kw.items() if k != "dq"}, suppress=sup)
    im, ii, _ = run(c, m, sup, save_opt=bool(c.rng.random() < 0.3))
    r02_rules(c, m, sup, im, ii)


def r02_patterns(c):
    d = rampgen.DQ
    n = 1 + c.idx % 4
    abc = (0, d["JUMP_DET"], d["DO_NOT_USE"], d["SATURATED"], d["SATURATED"] | d["DO_NOT_USE"])
    if n <= 3:
        abc = abc + (d["PERSISTENCE"], d["CHARGELOSS"] | d["DO_NOT_USE"])
    m = patterns(c.rng, n, abc)
    sup = bool(c.rng.random() < 0.4)
    c.describe(n=n, suppress=sup)
    c.count("flag_patterns", len(abc) ** n)
    im, ii, _ = run(c, m, sup)
    r02_rules(c, m, sup, im, ii)


# ------------------------------------------------------------------ R03
def same(c, got, want, mech, what, skip=(), mask=None, planes=True):
    """Bitwise comparison of two products."""
    if got is None or want is None:
        c.check(got is None and want is None, mech, f"{what}: only one of the two runs gives a product")
        return
    for k in want:
        if k in skip:
            continue
        g, w = np.asarray(got[k]), np.asarray(want[k])
        if g.shape != w.shape and g.ndim == 4:
            n = min(g.shape[1], w.shape[1])
            c.check(not np.any(g[:, n:]) and not np.any(w[:, n:]), mech, f"{what}: {k} planes differ {g.shape} {w.shape}")
            g, w = g[:, :n], w[:, :n]
        c.equal(g, w, f"{mech}:{k}", f"{what}: {k}", mask=mask)


def both(c, m, sup, **kw):
    im, ii, oo, k = c.call(rampgen.run_ols, m, True, suppress=sup, **kw)
    return (im, ii, oo), k


def crmag_free(d):
    """crmag may describe steps onto unused samples; those are not part of this property."""
    return ("crmag", "pedestal")


def r03_base(c, **over):
    m, kw = draw(c.rng, big=c.tier == "thorough", **over)
    sup = bool(c.rng.random() < 0.3)
    c.describe(**{k: v for k, v in kw.items() if k != "dq"}, suppress=sup)
    ref, k = both(c, m, sup)
    if ref[0] is None:
        raise Skip()
    return m, sup, ref, k


def r03_slices(c):
    m, sup, ref, _ = r03_base(c, nrows=int(c.rng.integers(2, 9)), ncols=int(c.rng.integers(1, 4)))
    for cores in (str(int(c.rng.integers(2, 9))), str(c.rng.choice(["half", "all", "quarter"]))):
        with pools.recording(int(c.rng.choice([2, 4, 8])), order=__import__("random").Random(int(c.rng.integers(1 << 30)))) as log:
            got, _ = both(c, m, sup, max_cores=str(cores))
        n = sum(r["tasks"] for r in log)
        if n > 1:
            c.count("sliced_runs")
            c.count("slices", n)
            c.state("slices", n, m.data.shape[2], sup)
        for a, b, w in zip(got, ref, ("exposure", "integration", "optional")):
            same(c, a, b, f"slices:{w}", f"{n} slices, {w} product")
        if got[2] is not None:
            for k in got[2]:
                c.check(got[2][k].shape == ref[2][k].shape or 0 in ref[2][k].shape, f"slices:shape:{k}", f"{got[2][k].shape} vs {ref[2][k].shape} unsliced")


def r03_realpool(c):
    """Real spawned workers."""
    m, sup, ref, _ = r03_base(c, nrows=5, ncols=3)
    got, _ = both(c, m, sup, max_cores="3")
    for a, b, w in zip(got, ref, ("exposure", "integration", "optional")):
        same(c, a, b, f"workers:{w}", f"3 real worker processes, {w} product")
    c.count("real_pools")


def take(m, ys, xs):
    k = rampgen.clone(m)
    ix = np.ix_(ys, xs)
    for a in ("pdq", "gain", "rn", "dark"):
        setattr(k, a, getattr(m, a)[ix].copy())
    k.data = m.data[:, :, ys][:, :, :, xs].copy()
    k.gdq = m.gdq[:, :, ys][:, :, :, xs].copy()
    if m.zeroframe is not None:
        k.zeroframe = m.zeroframe[:, ys][:, :, xs].copy()
    return k


def pick(p, ys, xs):
    return None if p is None else {k: np.asarray(v)[..., ys, :][..., xs] for k, v in p.items()}


def r03_permute(c):
    m, sup, ref, _ = r03_base(c, instrument="NIRCam")
    ny, nx = m.pdq.shape
    ys, xs = c.rng.permutation(ny), c.rng.permutation(nx)
    mode = c.rng.choice(["permute", "subset", "repeat"])
    if mode == "subset":
        ys, xs = ys[: int(c.rng.integers(1, ny + 1))], xs[: int(c.rng.integers(1, nx + 1))]
    elif mode == "repeat":
        ys = c.rng.integers(0, ny, ny + 2)
    k = take(m, ys, xs)
    got, _ = both(c, k, sup)
    if got[0] is None:
        c.check(olsref.prepare(k, sup) is None, "permute:none", "the fit of a subset of pixels is missing")
        return
    c.count(f"{mode}_runs")
    c.state(mode, m.data.shape[:2], len(ys), len(xs))
    for a, b, w in zip(got, ref, ("exposure", "integration", "optional")):
        same(c, a, pick(b, ys, xs), f"{mode}:{w}", f"{mode} of the pixels, {w} product")


def strided(a, rng, how):
    if a is None:
        return None
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "gaps":
        big = np.empty([2 * n for n in a.shape], a.dtype)
        big[...] = 77 if a.dtype.kind != "f" else np.nan
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if how == "reversed":
        b = np.ascontiguousarray(a[..., ::-1])
        return b[..., ::-1]
    if how == "swapped":
        return a.astype(a.dtype.newbyteorder(">"))
    raise AssertionError(how)


def r03_layout(c):
    m, sup, ref, _ = r03_base(c)
    names = [n for n in ("data", "gdq", "pdq", "gain", "rn", "dark", "zeroframe") if getattr(m, n) is not None]
    k = rampgen.clone(m)
    used = {}
    for n in names:
        how = str(c.rng.choice(["fortran", "gaps", "reversed", "swapped", "swapped", "plain"]))
        if how != "plain":
            setattr(k, n, strided(getattr(k, n), c.rng, how))
            used[n] = how
            c.count(f"layout_{how}")
            c.state("layout", n, how)
    before = {n: np.array(getattr(k, n), copy=True) for n in names}
    cores = "none" if c.rng.random() < 0.6 else "3"
    with pools.recording(4):
        got, kk = both(c, k, sup, copy_in=False, max_cores=cores)
    for a, b, w in zip(got, ref, ("exposure", "integration", "optional")):
        same(c, a, b, f"layout:{w}", f"layout {used}, {w} product")
    for n in names:
        if n in ("rn", "gdq"):  # documented to be updated in place
            continue
        c.equal(np.asarray(getattr(k, n)), before[n], f"input:{n}", f"the caller's {n} array ({used.get(n, 'plain')}) after the fit")
    rn = (m.rn * (m.gain / np.sqrt(2.0 * m.nframes))).astype(np.float32)
    okg = m.gain > 0
    c.close_to(np.asarray(k.rn, np.float64), rn, "input:rn", 1e-5, 0, "read noise after the fit", mask=okg)


def r03_garbage(c):
    m, sup, ref, _ = r03_base(c, sat_p=0.5, dnu_p=0.3, nan_p=0.0)
    D, S, J = (m.dq[k] for k in ("DO_NOT_USE", "SATURATED", "JUMP_DET"))
    k = rampgen.clone(m)
    bad = (m.gdq & (D | S)) != 0
    v = c.rng.choice([np.nan, np.inf, -np.inf, 0.0, 1e30, -3e4, 1e5], size=bad.shape).astype(np.float32)
    k.data[bad] = v[bad]
    if m.zeroframe is not None:
        # a zero frame is unused where the ramp has a good group
        has = ((m.gdq & ~np.uint8(m.dq["PERSISTENCE"])) == 0).any(axis=1)
        prep = olsref.prepare(m, sup)
        if prep is not None and prep[1].shape == m.gdq.shape:
            has &= ((prep[1] & ~np.uint8(m.dq["PERSISTENCE"])) == 0).any(axis=1) | sup
            k.zeroframe[has] = c.rng.choice([np.nan, 1e9, -7.0], size=int(has.sum()))
    got, _ = both(c, k, sup)
    c.count("garbage_samples", int(bad.sum()))
    c.state("garbage", m.data.shape, sup)
    same(c, got[0], ref[0], "garbage:exposure", "other values in unusable groups, exposure product")
    same(c, got[1], ref[1], "garbage:integration", "other values in unusable groups, integration product")
    # the magnitudes of jumps and the pedestal may refer to unused samples; segments may not
    same(c, got[2], ref[2], "garbage:optional", "other values in unusable groups, optional product", skip=("crmag", "pedestal"))
    clean = ~bad[:, 0]
    if got[2]["pedestal"].shape == clean.shape:
        prep = olsref.prepare(m, sup)
        clean = (prep[1][:, 0] & (D | S)) == 0
        c.equal(got[2]["pedestal"], ref[2]["pedestal"], "garbage:pedestal", "pedestal of integrations with a usable first group",
                mask=clean)


# ------------------------------------------------------------------ R04
def r04_general(c, m=None, sup=None):
    if m is None:
        m, kw = draw(c.rng, big=c.tier == "thorough")
        sup = bool(c.rng.random() < 0.3)
        c.describe(**{k: v for k, v in kw.items() if k != "dq"}, suppress=sup)
    ref = olsref.fit_exposure(m, sup)
    im, ii, oo = run(c, m, sup, True)
    im0, ii0, oo0 = run(c, m, sup, False)
    c.check(oo0 is None, "unrequested", "an optional product nobody asked for")
    same(c, im, im0, "request:exposure", "exposure product with and without the optional product")
    same(c, ii, ii0, "request:integration", "integration product with and without the optional product")
    if ref is None or im is None:
        c.check(oo is None and ref is None, "no_result", "an exposure without usable groups gives no optional product")
        return
    note(c, m, ref, sup)
    nseg = max((len(p.segs[i]) for p in ref.values() for i in range(len(p.segs))), default=0)
    ncr = max((len(cr) for p in ref.values() for cr in p.crs), default=0)
    shp = (m.data.shape[0], nseg) + m.pdq.shape
    for k, _ in SEG:
        c.check(oo[k].shape == shp, "planes", f"{k} has shape {oo[k].shape}, the largest segment count gives {shp}")
    c.check(oo["crmag"].shape == (shp[0], ncr) + m.pdq.shape, "cr_planes", f"crmag {oo['crmag'].shape}, most jumps {ncr}")
    c.check(oo["pedestal"].shape == (shp[0],) + m.pdq.shape, "ped_shape", f"{oo['pedestal'].shape}")
    for (y, x), p in ref.items():
        if p.edge or not m.gain[y, x] > 0:
            continue
        at = tol(p, m)
        sc = getattr(p, "scale", 0.0)
        n = m.data.shape[1]
        for i, fs in enumerate(p.fits):
            for s in range(nseg):
                for k, kk in SEG:
                    w = fs[s][kk] if s < len(fs) else 0.0
                    a = {"slope": at, "yint": at * m.group_time * n}.get(k, 0.0)
                    if not ok32(oo[k][i, s, y, x], w, a):
                        c.fail(f"segment:{k}", f"segment {s} of integration {i} at {(y, x)}: {k} is {oo[k][i, s, y, x]!r}, "
                               f"expected {w!r} ({len(fs)} segments)", gdq=m.gdq[:, :, y, x])
            c.count("values_compared", nseg * len(SEG))
            if not ok32(oo["pedestal"][i, y, x], p.ped[i], at * m.group_time * 6 + 1e-6 * sc):
                c.fail("pedestal", f"pedestal of integration {i} at {(y, x)} is {oo['pedestal'][i, y, x]!r}, expected {p.ped[i]!r}")
            cr = p.crs[i] + [0.0] * (ncr - len(p.crs[i]))
            for s in range(ncr):
                if not ok32(oo["crmag"][i, s, y, x], cr[s], 1e-4):
                    c.fail("crmag", f"jump {s} of integration {i} at {(y, x)} is {oo['crmag'][i, s, y, x]!r}, expected {cr[s]!r}")
            c.count("jump_magnitudes", len(p.crs[i]))
            # combining the product's own segments gives the integration result
            if fs and np.isfinite(ii["slope"][i, y, x]) and ii["var_rnoise"][i, y, x] > 0 \
                    and not (m.gdq[i, :, y, x] & m.dq["CHARGELOSS"]).any():
                w = oo["weights"][i, :len(fs), y, x].astype(float)
                b = oo["slope"][i, :len(fs), y, x].astype(float)
                c.check(ok32(ii["slope"][i, y, x], (w * b).sum() / w.sum(), 5 * at + 1e-5 * np.abs(b).max()), "combine:slope",
                        f"segments of {(i, y, x)} combine to {(w * b).sum() / w.sum()!r}, the integration says {ii['slope'][i, y, x]!r}")
                c.check(ok32(ii["var_rnoise"][i, y, x], 1 / w.sum(), 1e-12), "combine:var", "weights do not add up to 1/variance")
                c.count("recombined")


def r04_patterns(c):
    d = rampgen.DQ
    n = 2 + c.idx % 4
    m = patterns(c.rng, n, (0, d["JUMP_DET"], d["DO_NOT_USE"]) if n > 4 else (0, d["JUMP_DET"], d["DO_NOT_USE"], d["SATURATED"]))
    c.describe(n=n)
    r04_general(c, m, bool(c.rng.random() < 0.3))


def r04_singles(c):
    """Only one-group segments: a single plane is enough."""
    d = rampgen.DQ
    m, _ = draw(c.rng, ngroups=int(c.rng.integers(3, 10)), instrument="NIRCam", zeroframe=False)
    m.gdq[:] = 0
    m.gdq[:, 1::2] = m.dq["DO_NOT_USE"]
    if c.rng.random() < 0.5:
        m.gdq[:, 2] = m.dq["DO_NOT_USE"]
    c.count("all_single_exposures")
    r04_general(c, m, bool(c.rng.random() < 0.2))


class _Chk:
    NATIVE = ("slope",)
    CASE_TIMEOUT = 120


class R01(_Chk):
    PID = "R01"
    RULE = ("every finite and NaN value of the exposure and integration products equals an independent double-precision model "
            "of the documented segment-wise weighted fit (rtol 2e-5 for the float32 outputs); all flag patterns of short ramps")
    ASSUMPTIONS = ["pixels within 1e-5 of a weight-power switch are not judged",
                   "read-noise variance of charge-loss ramps with invalid gain is unspecified"]
    REQUIRE = {"values_compared": 20000, "multi_segment": 50, "flag_patterns": 300, "exposures_with_chargeloss": 3,
               "exposures_with_zeroframe": 5}

    @staticmethod
    def streams(t):
        q = t == "quick"
        return [("general", 900 if q else 40000, r01_general), ("clean", 300 if q else 12000, r01_clean),
                ("patterns", 32 if q else 600, r01_patterns)]


class R02(_Chk):
    PID = "R02"
    RULE = "flags, NaN positions and zero variances of all products equal array-level rules computed from the input flags alone"
    ASSUMPTIONS = ["an integration whose first group is saturated counts as unusable even if later groups are not flagged"]
    REQUIRE = {"integrations_judged": 5000, "integrations_dnu": 200, "integrations_sat": 200, "integrations_jump": 200,
               "zero_frame_used": 20, "mixed_exposures": 50, "flag_patterns": 300}

    @staticmethod
    def streams(t):
        q = t == "quick"
        return [("general", 1500 if q else 80000, r02_general), ("patterns", 64 if q else 1200, r02_patterns)]


class R03(_Chk):
    PID = "R03"
    RULE = ("bitwise equality of all products between a run and a transformed run: permuted, subset or repeated pixels; row "
            "slices in stand-in and real worker pools; memory layout and byte order; garbage in unusable samples")
    ASSUMPTIONS = ["stand-in pools run tasks on pickled copies in a shuffled order",
                   "jump magnitudes and pedestals may refer to unusable samples"]
    REQUIRE = {"sliced_runs": 50, "permute_runs": 10, "layout_swapped": 50, "layout_gaps": 20, "garbage_samples": 500, "real_pools": 1}

    @staticmethod
    def streams(t):
        q = t == "quick"
        return [("slices", 300 if q else 15000, r03_slices), ("permute", 300 if q else 15000, r03_permute),
                ("layout", 400 if q else 20000, r03_layout), ("garbage", 400 if q else 20000, r03_garbage),
                ("realpool", 2 if q else 24, r03_realpool)]


class R04(_Chk):
    PID = "R04"
    RULE = ("every plane of the optional product equals the reference model's segments, jump steps and pedestal; plane counts are "
            "minimal; recombination reproduces the integration product; requesting it changes nothing else (bitwise)")
    ASSUMPTIONS = ["segments of pixels with invalid gain are not judged"]
    REQUIRE = {"values_compared": 10000, "multi_segment": 50, "jump_magnitudes": 100, "recombined": 300,
               "all_single_exposures": 5}

    @staticmethod
    def streams(t):
        q = t == "quick"
        return [("general", 600 if q else 30000, r04_general), ("patterns", 32 if q else 600, r04_patterns),
                ("singles", 20 if q else 200, r04_singles)]


CHECKS = {"R01": R01, "R02": R02, "R03": R03, "R04": R04}
