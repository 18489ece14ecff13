"""J04: expansion of large events (snowballs, showers) against a model of the documented geometry."""
import copy
import math
import random
import warnings
from types import SimpleNamespace

import numpy as np

from checks.lib import jumpgen, pools
from vp.core import Skip

PID = "J04"
RULE = ("one distinct case per (handler, shape, number of events, number of flags added) whose flags were compared group "
        "by group with the geometric model")
ASSUMPTIONS = [
    "connected regions, filled areas and ellipse moments are taken from scikit-image, the ellipse raster from skimage.draw",
    "the smoothing of showers is astropy.convolution.convolve with interpolation over NaN",
]
REQUIRE = {"snowballs_expected": 150, "showers_expected": 40, "groups_judged": 100000, "cores_extended": 20,
           "regions_below_minimum": 50, "monotone_pairs": 30}
F = jumpgen.FLAGS
J, S, D = F["JUMP_DET"], F["SATURATED"], F["DO_NOT_USE"]


# ------------------------------------------------------------------ geometry
class Unsure(Exception):
    pass


def rnd(v):
    if abs(v - math.floor(v) - 0.5) < 1e-9 and abs(v * 2 - round(v * 2)) > 0:
        raise Unsure
    return round(v)


def regions(mask, minimum, tally=None):
    import skimage

    out = []
    for q in skimage.measure.regionprops(skimage.measure.label(mask.astype(np.uint8))):
        if q.area_filled < minimum:
            if tally is not None:
                tally.append(q)
            continue
        out.append(SimpleNamespace(x=float(q.centroid[1]), y=float(q.centroid[0]), h=max(q.axis_minor_length - 1, 0),
                                   w=max(q.axis_major_length - 1, 0), t=float(q.orientation), coords=q.coords))
    return out


def raster(shape, e, a0, a1):
    """Filled ellipse, semi-axes a0 (minor side) and a1 around the nearest pixel centre.

    Returns the pixels inside and those on the boundary itself, where rounding decides.
    """
    m = np.zeros(shape, bool)
    if a0 <= 0 or a1 <= 0:
        return m, m
    yy, xx = np.mgrid[:shape[0], :shape[1]]
    dy, dx = yy - rnd(e.y), xx - rnd(e.x)
    s, c = np.sin(e.t), np.cos(e.t)
    q = ((dy * c + dx * s) / a1) ** 2 + ((dy * s - dx * c) / a0) ** 2
    return q < 1 - 1e-9, np.abs(q - 1) <= 1e-9


def inside(px, py, e):
    """Is (px, py) in the region's own ellipse?"""
    a = np.radians(180 - np.degrees(e.t))
    dx, dy = px - e.x, py - e.y
    u, v = dx * np.cos(a) - dy * np.sin(a), dx * np.sin(a) + dy * np.cos(a)
    big, small = max(e.w, e.h) / 2, min(e.w, e.h) / 2
    with np.errstate(all="ignore"):
        q = np.float64(u) ** 2 / np.float64(big) ** 2 + np.float64(v) ** 2 / np.float64(small) ** 2
    if abs(q - 1) < 1e-9:
        raise Unsure
    return bool(q <= 1)


def widen(e, factor, width):
    lo = min(e.h, e.w)
    if e.w < e.h:
        a0, a1 = e.h + (factor - 1.0) * e.w, e.w * factor
    else:
        a0, a1 = e.h * factor, e.w + (factor - 1.0) * e.h
    return rnd(min(a0, width) / 2), rnd(min(a1, width) / 2), lo


def snowballs(gdq, o, case):
    g = gdq.copy()
    ni, ng, ny, nx = g.shape
    persist = np.zeros((ni, ny, nx), bool)
    unsure = np.zeros(g.shape, bool)
    unsure_p = np.zeros((ni, ny, nx), bool)
    total = 0
    for i in range(ni):
        for k in range(1, ng):
            sat = [(g[i, q] & S) != 0 for q in (k - 1, k)]
            small = []
            jumps = regions((g[i, k] & J) != 0, o["min_jump_area"], small)
            case.count("regions_below_minimum", len(small))
            cores = regions(sat[1] & ~sat[0], o["min_sat_area"])
            later = regions(((g[i, k + 1] & S) != 0) & ~sat[1], o["min_sat_area"]) if k < ng - 1 else []
            if o["sat_required_snowball"]:
                chosen = []
                for e in jumps:
                    edge = o["edge_size"]
                    near = (e.x < edge or e.y < edge or e.x > max(0, nx - edge) or e.y > max(0, ny - edge))
                    if near or any(inside(c.x, c.y, e) for c in cores + later):
                        chosen.append(e)
                    else:
                        case.count("jumps_without_core")
                for c in cores:
                    if min(c.h, c.w) > o["min_sat_radius_extend"]:
                        w = o["max_extended_width"]
                        m, tie = raster((ny, nx), c, rnd(min(c.h + o["sat_expand"], w) / 2), rnd(min(c.w + o["sat_expand"], w) / 2))
                        if np.any(tie & ~np.all(g[i, k:] & S != 0, axis=0)):
                            raise Unsure
                        case.count("cores_extended")
                        g[i, k:, m] = (g[i, k:, m] | S) & np.uint8(255 ^ J)
                        m, tie = raster((ny, nx), c, rnd(c.h / 2), rnd(c.w / 2))
                        persist[i] |= m
                        unsure_p[i] |= tie
            else:
                chosen = jumps
            total += len(chosen)
            for e in chosen:
                a0, a1, _ = widen(e, o["expand_factor"], o["max_extended_width"])
                m, tie = raster((ny, nx), e, a0, a1)
                g[i, k][m & ((g[i, k] & S) == 0)] |= J
                unsure[i, k] |= tie
    if o["mask_persist_grps_next_int"] and o["persist_grps_flagged"] >= 1:
        last = min(o["persist_grps_flagged"], ng)
        for i in range(1, ni):
            g[i, 1:last, persist[i - 1]] |= J
            unsure[i, 1:last] |= unsure_p[i - 1]
    case.count("snowballs_expected", total)
    return g, total, unsure


def showers(data, gdq, pdq, rn, nframes, o, case):
    from astropy.convolution import Ring2DKernel, convolve
    from astropy.stats import sigma_clipped_stats

    ni, ng, ny, nx = gdq.shape
    dead = int(np.sum(np.all(gdq & D != 0, axis=(2, 3))))
    if ni * (ng - 1) - dead < 10:
        return gdq, 0, np.zeros(gdq.shape, bool)
    a = data.copy()
    a[gdq & (J | S | D) != 0] = np.nan
    diff = np.diff(a, axis=1)
    ref = pdq == F["REFERENCE_PIXEL"]
    g = gdq.copy()
    g[:, :, ref] = D
    found, total = [], 0
    clip = ni >= o["minimum_sigclip_groups"]
    if clip:
        _, med, std = sigma_clipped_stats(diff, sigma=5, axis=0)
    else:
        med = np.nanmedian(diff, axis=(0, 1))
        sig = np.sqrt(np.abs(med) + rn**2 / nframes)
    ker = Ring2DKernel(o["extend_inner_radius"], o["extend_outer_radius"])
    for i in range(ni):
        alive = [k for k in range(ng) if not np.all(g[i, k] & D != 0)]
        first = alive[0] if alive else 0
        for k in range(first + 1, ng):
            r = np.abs(diff[i, k - 1] - (med[k - 1] if clip else med)) / (std[k - 1] if clip else sig)
            r = np.where((g[i, k] | pdq) & (J | S | D) != 0, np.nan, r)
            r = np.where(np.isfinite(r), r, np.nan)
            sm = convolve(r.astype(float), ker, boundary="fill", fill_value=0.0, nan_treatment="interpolate", preserve_nan=True)
            thr = o["extend_snr_threshold"]
            if np.any(np.abs(sm - thr) < 1e-4 + 2e-6 * np.nanmax(np.nan_to_num(r), initial=0)):
                raise Unsure
            es = regions(sm > thr, o["extend_min_area"])
            total += len(es)
            found += [(i, k, e) for e in es]
    case.count("showers_expected", total)
    doubt = np.zeros((ni, ny, nx), bool)
    for i, k, e in found:
        a0, a1, _ = widen(e, o["extend_ellipse_expand_ratio"], o["max_extended_width"])
        m, tie = raster((ny, nx), e, a0, a1)
        if tie.any():
            doubt[i] |= tie
        for q in range(k, min(k + o["grps_masked_after_shower"] + 1, ng)):
            m &= (g[i, q] & S) == 0
            g[i, q][m] |= J
    bad = D | S | J
    for i in range(ni):
        rates = []
        for q in (gdq, g):
            t = data[i].astype(float)
            t[q[i] & bad != 0] = np.nan
            rates.append(np.nanmean(np.diff(t, axis=0), axis=0))
        ch = np.abs(rates[0] - rates[1])
        if np.any(np.abs(ch - o["max_shower_amplitude"]) < 1e-2):
            raise Unsure
        undo = ~np.isfinite(ch) | (ch > o["max_shower_amplitude"])
        case.count("pixels_reverted", int(np.sum(undo & (g[i] != gdq[i]).any(axis=0))))
        g[i][:, undo] = gdq[i][:, undo]
    return g, total, np.repeat(doubt[:, None], ng, axis=1)


SNOW = dict(rejection_thresh=1e7, three_grp_thresh=1e7, four_grp_thresh=1e7, flag_4_neighbors=False, max_cores="none",
            after_jump_flag_n1=0, after_jump_flag_n2=0, minimum_groups=2, minimum_sigclip_groups=1000,
            expand_large_events=True, find_showers=False, min_jump_area=5, min_sat_area=1, expand_factor=2.0,
            sat_required_snowball=True, min_sat_radius_extend=2.5, sat_expand=2, edge_size=5, max_extended_width=200,
            mask_persist_grps_next_int=True, persist_grps_flagged=25)


def blob(rng, mask, big=True):
    """A round or elongated region, possibly with a hole or ragged."""
    ny, nx = mask.shape
    yy, xx = np.mgrid[:ny, :nx]
    a, b = rng.uniform(0.6, 7 if big else 3), rng.uniform(0.6, 7 if big else 3)
    t = rng.uniform(0, np.pi)
    cy, cx = rng.uniform(0, ny), rng.uniform(0, nx)
    u = (xx - cx) * np.cos(t) + (yy - cy) * np.sin(t)
    v = -(xx - cx) * np.sin(t) + (yy - cy) * np.cos(t)
    q = (u / a) ** 2 + (v / b) ** 2
    m = q < 1
    k = rng.random()
    if k < 0.25:
        m &= q > 0.3
    elif k < 0.4:
        m &= rng.random(m.shape) < 0.85
    return m, (cy, cx, a, b, t)


def snow_case(rng, ni=None, ng=None):
    ni = ni or int(rng.choice([1, 1, 2, 3]))
    ng = ng or int(rng.choice([2, 3, 4, 6, 30]))
    ny, nx = int(rng.integers(8, 48)), int(rng.integers(8, 48))
    d = jumpgen.make(rng, nints=ni, ngroups=ng, nrows=ny, ncols=nx, cr_p=0, sat_p=0, dnu_p=float(rng.choice([0, 0.02])),
                     old_p=float(rng.choice([0, 0.005])), other_p=0.03)
    yy, xx = np.mgrid[:ny, :nx]
    for _ in range(int(rng.integers(1, 7))):
        i, k = int(rng.integers(ni)), int(rng.integers(0 if rng.random() < 0.1 else 1, ng)) if ng > 1 else 0
        m, (cy, cx, a, b, t) = blob(rng, d.gdq[0, 0])
        d.gdq[i, k][m] |= J
        if rng.random() < 0.7:
            oy, ox = (rng.normal(0, 1, 2) if rng.random() < 0.7 else rng.normal(0, 8, 2))
            f = rng.uniform(0.2, 0.9)
            u = (xx - cx - ox) * np.cos(t) + (yy - cy - oy) * np.sin(t)
            v = -(xx - cx - ox) * np.sin(t) + (yy - cy - oy) * np.cos(t)
            c = (u / (a * f + 0.5)) ** 2 + (v / (b * f + 0.5)) ** 2 < 1
            st = min(ng - 1, k + int(rng.choice([0, 0, 1, 2])))
            d.gdq[i, st:, c] |= S
    # jumps are never set on unusable groups when the events are looked for
    both = (d.gdq & J != 0) & (d.gdq & (S | D) != 0)
    d.gdq[both] ^= J
    return d


def snow_opts(rng):
    o = dict(SNOW)
    o["min_jump_area"] = int(rng.choice([1, 4, 5, 9, 15, 40]))
    o["min_sat_area"] = int(rng.choice([1, 1, 3, 8]))
    o["expand_factor"] = float(rng.choice([1.0, 1.5, 2.0, 3.1]))
    o["sat_required_snowball"] = bool(rng.random() < 0.65)
    o["min_sat_radius_extend"] = float(rng.choice([0.5, 1.5, 2.5]))
    o["sat_expand"] = int(rng.choice([0, 1, 2, 5]))
    o["edge_size"] = int(rng.choice([0, 3, 5, 12]))
    o["max_extended_width"] = float(rng.choice([6, 15, 200]))
    o["mask_persist_grps_next_int"] = bool(rng.random() < 0.7)
    o["persist_grps_flagged"] = int(rng.choice([0, 1, 2, 4, 25]))
    return o


def invariants(case, d, g, p, used):
    lost = d.gdq & ~g
    now = g & (S | D) != 0
    gone = ((lost & ~np.uint8(J)) != 0) | ((lost & J != 0) & ~now)
    case.check(not gone.any(), "flag_lost", lambda: f"flag removed at {np.argwhere(gone)[0]}: {d.gdq[gone][0]} -> {g[gone][0]}")
    extra = (g & ~d.gdq & ~np.uint8(J | S)) != 0
    case.check(not extra.any(), "other_flag_added", lambda: f"flag other than jump or saturated added at {np.argwhere(extra)[0]}")
    case.check(used.data.tobytes() == d.data.tobytes(), "science_changed", "science data changed")
    case.equal(p, d.pdq, "pixel_flags", "pixel flags")


def compare(case, d, exp, n_exp, unsure, g, n, what):
    case.count("groups_judged", g.size - int(unsure.sum()))
    case.count("boundary_pixels", unsure.sum())
    case.state(what, d.data.shape, n_exp, int(np.sum(g != d.gdq)))
    case.equal(g, exp, what, f"group flags ({what}, shape {d.data.shape})", mask=~unsure)
    case.check(n == n_exp, what + "_count", f"{n} events reported, {n_exp} expected")


def snow(case, d=None, o=None):
    r = case.rng
    d = d or snow_case(r)
    o = o or snow_opts(r)
    case.describe(shape=d.data.shape, options={k: o[k] for k in o if o[k] != SNOW[k]})
    try:
        exp, n_exp, unsure = snowballs(d.gdq, o, case)
    except Unsure:
        raise Skip() from None
    g, p, _, n, used = case.call(jumpgen.run, d, o)
    invariants(case, d, g, p, used)
    compare(case, d, exp, n_exp, unsure, g, n, "snowballs")


def snow_persist(case):
    """Several integrations with saturated cores."""
    r = case.rng
    o = snow_opts(r)
    o.update(sat_required_snowball=True, min_sat_radius_extend=0.5, mask_persist_grps_next_int=True,
             persist_grps_flagged=int(r.choice([1, 2, 3, 25])))
    snow(case, snow_case(r, ni=int(r.integers(2, 4)), ng=int(r.integers(2, 7))), o)


def snow_monotone(case):
    r = case.rng
    d = snow_case(r)
    o = snow_opts(r)
    more = dict(o, expand_factor=o["expand_factor"] + float(r.choice([0.3, 1.0, 4.0])))
    a = case.call(jumpgen.run, d, o)
    b = case.call(jumpgen.run, d, more)
    case.count("monotone_pairs")
    case.count("groups_judged", a[0].size)
    case.state("monotone", d.data.shape, int(np.sum(a[0] & J != 0)), int(np.sum(b[0] & J != 0)))
    bad = (a[0] & ~b[0]) != 0
    case.check(not bad.any(), "larger_expansion_flags_less", lambda: f"flag at {np.argwhere(bad)[0]} is lost when expanding more")
    big = dict(o, min_jump_area=10**6)
    c = case.call(jumpgen.run, d, big)
    case.check(c[3] == 0, "minimum_area", f"{c[3]} events above an impossible minimum area")


SHOW = dict(SNOW, expand_large_events=False, find_showers=True, extend_snr_threshold=1.3, extend_min_area=12,
            extend_inner_radius=1, extend_outer_radius=2.6, extend_ellipse_expand_ratio=1.2, grps_masked_after_shower=3,
            max_shower_amplitude=20, minimum_sigclip_groups=100)


def shower(case):
    r = case.rng
    clip = r.random() < 0.2
    ni = 12 if clip else int(r.choice([1, 1, 2]))
    ng = 6 if clip else int(r.choice([4, 8, 14, 25]))
    ny, nx = int(r.integers(15, 36)), int(r.integers(15, 36))
    d = jumpgen.make(r, nints=ni, ngroups=ng, nrows=ny, ncols=nx, cr_p=0, sat_p=float(r.choice([0, 0.01])),
                     dnu_p=float(r.choice([0, 0.01])), old_p=float(r.choice([0, 0.01])), other_p=0.02, rn=(6, 9), rate_max=5,
                     dnu_group_p=float(r.choice([0, 0, 0.1])))
    for _ in range(int(r.integers(1, 4))):
        m, _ = blob(r, d.gdq[0, 0])
        d.data[int(r.integers(ni)), int(r.integers(1, ng)):, m] += np.float32(r.uniform(10, 40))
    d.pdq[r.random(d.pdq.shape) < 0.01] = F["REFERENCE_PIXEL"]
    d.pdq[r.random(d.pdq.shape) < 0.01] |= D
    both = (d.gdq & J != 0) & (d.gdq & (S | D) != 0)
    d.gdq[both] ^= J
    o = dict(SHOW)
    o["minimum_sigclip_groups"] = 10 if clip else 100
    if clip:
        o["only_use_ints"] = True
    o["extend_snr_threshold"] = float(r.choice([1.3, 1.6, 2.2]))
    o["extend_min_area"] = int(r.choice([5, 12, 30]))
    o["extend_inner_radius"], o["extend_outer_radius"] = [(1, 2.6), (1, 2), (2, 4)][int(r.integers(3))]
    o["extend_ellipse_expand_ratio"] = float(r.choice([1.0, 1.2, 1.7]))
    o["grps_masked_after_shower"] = int(r.choice([0, 1, 3, 30]))
    o["max_shower_amplitude"] = float(r.choice([2, 20, 1000]))
    case.describe(shape=d.data.shape, options={k: o[k] for k in o if o.get(k) != SHOW.get(k)})
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exp, n_exp, unsure = showers(d.data * d.gain, d.gdq, d.pdq, d.rn * d.gain, d.nframes, o, case)
    except Unsure:
        raise Skip() from None
    g, p, _, n, used = case.call(jumpgen.run, d, o)
    invariants(case, d, g, p, used)
    compare(case, d, exp, n_exp, unsure, g, n, "showers")


def both(case):
    """Snowballs and showers together, in one process and in slices."""
    r = case.rng
    d = snow_case(r)
    o = dict(snow_opts(r), find_showers=True, **{k: SHOW[k] for k in SHOW if k.startswith("extend_")},
             grps_masked_after_shower=2, max_shower_amplitude=50)
    a = case.call(jumpgen.run, d, o)
    invariants(case, d, a[0], a[1], a[4])
    with pools.recording(16, order=random.Random(case.idx)):
        b = case.call(jumpgen.run, d, dict(o, max_cores="3"))
    case.count("groups_judged", a[0].size)
    case.state("both", d.data.shape, int(np.sum(a[0] != d.gdq)))
    case.equal(b[0], a[0], "sliced_events", "flags of a run in three slices")


def streams(tier):
    k = 1 if tier == "quick" else 25
    return [("snowballs", 320 * k, snow), ("persist", 120 * k, snow_persist), ("monotone", 120 * k, snow_monotone),
            ("showers", 120 * k, shower), ("both", 40 * k, both)]
