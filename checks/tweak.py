"""T01, T02, T03: alignment to other images and to reference catalogs, catalog preparation, catalog queries."""
import copy
import logging
import os
import warnings

import numpy as np

from vp.core import Skip

from .lib import v23gen as V
from .lib.wcsgen import pointing, radec, separation, unit

logging.getLogger("stcal").setLevel(logging.CRITICAL)
logging.getLogger("tweakwcs").setLevel(logging.CRITICAL)
GEOMETRIES = ("shift", "rshift", "rscale", "general")


def stars(rng, centre, radius, n, gap):
    """Positions (unit vectors) in a disc [arcsec], no two closer than `gap`."""
    e, nn, r = V.basis(*centre)
    pts = []
    from scipy.spatial import cKDTree

    t, q = rng.uniform(0, 2 * np.pi, 3 * n), radius * np.sqrt(rng.uniform(size=3 * n))
    p = np.stack([q * np.cos(t), q * np.sin(t)], 1)
    near = cKDTree(p).query_ball_point(p, gap)
    taken = np.zeros(len(p), bool)
    for i in range(len(p)):
        if len(pts) < n and not taken[near[i]].any():
            taken[i] = True
            pts.append(i)
    pts = p[pts] * V.ARC
    v = r + pts[:, :1] * e + pts[:, 1:] * nn
    return v / np.linalg.norm(v, axis=1)[:, None]


class Image:
    """A detector, its claimed and true attitude, and the catalog measured on it."""

    def __init__(self, rng, det, claimed, true, vecs, noise, spurious=0, beyond=0, gap=3.0):
        from astropy.table import Table

        self.det, self.claimed, self.true, self.noise = det, claimed, true, noise
        px, py = det.pixel(true, vecs)
        ok = det.inside(px, py, 2.0)
        ok &= rng.uniform(size=len(ok)) < .97
        self.which = np.flatnonzero(ok)
        x, y = px[ok] + rng.normal(0, noise, ok.sum()), py[ok] + rng.normal(0, noise, ok.sum())
        if spurious:
            nx, ny = det.shape[::-1]
            sx, sy = rng.uniform(2, nx - 3, 20), rng.uniform(2, ny - 3, 20)
            far = np.min(np.hypot(sx[:, None] - px, sy[:, None] - py), axis=1) > gap / np.hypot(*det.m[:, 0])  # never mistaken for a star
            sx, sy = sx[far][:spurious], sy[far][:spurious]
            x, y = np.r_[x, sx], np.r_[y, sy]
            self.which = np.r_[self.which, np.full(len(sx), -1)]
        if beyond:  # measured outside the part of the detector that counts
            (x0, x1), (y0, y1) = det.bbox
            x, y = np.r_[x, x1 + rng.uniform(1, 30, beyond)], np.r_[y, rng.uniform(y0, y1, beyond)]
            self.which = np.r_[self.which, np.full(beyond, -2)]
        o = rng.permutation(len(x))
        self.which = self.which[o]
        self.x, self.y = x[o], y[o]
        self.table = Table({"label": self.which.copy(), "y": self.y.copy(), "x": self.x.copy(), "flux": rng.uniform(1, 9, len(o))})
        self.table.meta["name"] = "catalog"
        self.kept = self.which[self.which != -2]

    def disturb(self, rng, n, size):
        """Measure n sources off by `size` arcsec."""
        px = np.hypot(*self.det.m[:, 0])
        ok = np.flatnonzero((self.which >= 0) & self.det.inside(self.x, self.y, 2 + 2 * size / px))
        for i in rng.permutation(ok)[:n]:
            t = rng.uniform(0, 2 * np.pi)
            self.table["x"][i] += size / px * np.cos(t)
            self.table["y"][i] += size / px * np.sin(t)

    def corrector(self, group):
        from stcal.tweakreg.tweakreg import construct_wcs_corrector

        return construct_wcs_corrector(self.det.gwcs(self.claimed), self.det.wcsinfo(self.claimed), self.table.copy(), group)

    def sample(self):
        ny, nx = self.det.shape
        x, y = np.meshgrid(np.linspace(2, nx - 3, 4), np.linspace(2, ny - 3, 4))
        return x.ravel(), y.ravel()


def seen(wcs, x, y):
    return unit(*(np.asarray(v, float) for v in wcs(x, y, with_bounding_box=False)))


def apart(a, b):
    """Angular distances in arcsec between unit vectors."""
    return np.linalg.norm(a - b, axis=-1) / V.ARC


def settings(rng):
    tol = float(rng.uniform(.1, .8))
    return {"searchrad": float(rng.uniform(.6, 3)), "separation": float(tol * rng.uniform(1.45, 2.5)), "use2dhist": True, "tolerance": tol,
            "xoffset": 0.0, "yoffset": 0.0, "minobj": int(rng.choice([5, 10, 15])), "fitgeometry": str(rng.choice(GEOMETRIES)),
            "nclip": int(rng.choice([0, 1, 3, 5])), "sigma": float(rng.choice([2.0, 3.0, 4.0])), "clip_accum": bool(rng.random() < .5)}


def direct(correctors, refcat, s, **kw):
    """The alignment as documented, straight from the alignment library."""
    from tweakwcs.imalign import align_wcs
    from tweakwcs.matchutils import XYXYMatch

    m = XYXYMatch(searchrad=s["searchrad"], separation=s["separation"], use2dhist=s["use2dhist"], tolerance=s["tolerance"], xoffset=s["xoffset"], yoffset=s["yoffset"])
    align_wcs(correctors, refcat=refcat, minobj=s["minobj"], match=m, fitgeom=s["fitgeometry"], nclip=s["nclip"], sigma=(s["sigma"], "rmse"), clip_accum=s["clip_accum"], **kw)


def quiet(f, *a, **kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **kw)


def error_of(rng, s, att, det, kind):
    """A small rotation of the sky within what the settings can find, and a detector scale error."""
    shift = s["searchrad"] * rng.uniform(0, .7) if s["use2dhist"] else s["tolerance"] * rng.uniform(0, .4)
    r = unit(*det.reference(att)[:2])
    e, n, _ = V.basis(*det.reference(att)[:2])
    t = rng.uniform(0, 2 * np.pi)
    rot = V.rotation(np.cos(t) * e + np.sin(t) * n, shift * V.ARC)
    if s["fitgeometry"] != "shift":
        rot = rot @ V.rotation(r, np.deg2rad(rng.uniform(-1, 1) * min(.3 * s["tolerance"] / 30, .01) * 57))
    return rot


def same_outcome(c, got, want, mech, images):
    for k, (g, w, im) in enumerate(zip(got, want, images)):
        x, y = im.sample()
        d = apart(seen(g.wcs, x, y), seen(w.wcs, x, y))
        sg, sw = (str(v.meta.get("fit_info", {}).get("status", "none")) for v in (g, w))
        c.check(sg == sw, f"{mech}_status", f"image {k}: {sg!r}, expected {sw!r}")
        c.check(bool(np.nanmax(d) < 1e-7) or not np.isfinite(d).any(), mech, f"image {k} ({sw}): corrected positions {np.nanmax(d):.3g} arcsec from those of the documented fit")


def summary(c, cor, im, k):
    """The fit summary agrees with the corrected system."""
    info = cor.meta["fit_info"]
    rows = np.asarray(info["matched_input_idx"])[np.asarray(info["fitmask"])]
    cat = cor.meta["catalog"]
    if len(rows) and len(rows) == len(info["fit_RA"]) and rows.max() < len(cat):
        v = seen(cor.wcs, np.asarray(cat["x"])[rows], np.asarray(cat["y"])[rows])
        d = apart(v, unit(np.asarray(info["fit_RA"], float), np.asarray(info["fit_DEC"], float)))
        c.check(bool(d.max() < 1e-4), "summary", f"image {k}: reported positions of fitted sources {d.max():.3g} arcsec from the corrected system")
        c.count("summaries")


class T01:
    PID = "T01"
    RULE = ("random star fields seen by 1-4 exposures of 1-3 detectors with injected pointing errors, all fit geometries, search settings, group structures, orders, "
            "clipping with outliers, chains without common overlap, too few stars and confusing neighbours; distinct = (kind, groups, detectors, geometry, statuses)")
    ASSUMPTIONS = ["star fields without confusing neighbours when the recovered displacement is judged", "the tangent-plane fit itself (tweakwcs) is trusted"]
    REQUIRE = {"recovered": 120, "summaries": 40, "rigid_groups": 10, "failed_images": 10, "absolute": 30, "refused": 8, "too_large": 1, "offset_matches": 5, "outliers": 15}
    CASE_TIMEOUT = 120

    # ---------------------------------------------------------------------------------- relative
    @staticmethod
    def field(rng, s, ngroups, ndet, n, spread=.3, noise=None):
        """Images (lists per group) and the stars they see."""
        noise = float(10 ** rng.uniform(-3, -1)) if noise is None else noise
        ra, dec = pointing(rng)
        lead = V.random_detector(rng)
        size = np.array(lead.shape[::-1]) * np.hypot(*lead.m[:, 0])
        roll = rng.uniform(0, 360)
        dets = [lead]
        for j in range(1, ndet):
            off = size.mean() * 1.05 * np.array([np.cos(2.1 * j), np.sin(2.1 * j)])
            dets.append(V.random_detector(rng, lead.v2 + off[0], lead.v3 + off[1], np.hypot(*lead.m[:, 0]), lead.shape))
        base = V.attitude(ra, dec, roll, lead.v2, lead.v3)
        radius = size.max() * (1.0 if ndet == 1 else 2.2) * (1 + spread)
        vecs = stars(rng, (ra, dec), radius, int(n * np.pi * radius ** 2 / size.prod()), 2 * s["separation"])
        groups = []
        for g in range(ngroups):
            e, nn, r = V.basis(ra, dec)
            t, q = rng.uniform(0, 2 * np.pi), size.min() * spread * rng.uniform(0, 1)
            true = V.rotation(np.cos(t) * e + np.sin(t) * nn, q * V.ARC) @ base
            groups.append(true)
        return dets, groups, vecs, noise

    @staticmethod
    def relative(c):
        from stcal.tweakreg import tweakreg as tw

        rng = c.rng
        s = settings(rng)
        kind = str(rng.choice(["plain", "plain", "plain", "outliers", "offset", "chain", "few", "confused", "large", "offset"]))
        ngroups, ndet = int(rng.choice([2, 2, 2, 3, 4])), int(rng.choice([1, 1, 1, 2, 3]))
        expand, order = bool(rng.random() < .4), bool(rng.random() < .5)
        if kind in ("offset", "chain", "confused", "large"):
            ndet = 1
        if kind == "offset":
            s["use2dhist"], s["searchrad"] = False, .5
            ngroups = 2
            s["tolerance"] = max(s["tolerance"], .4)
            s["separation"] = max(s["separation"], 1.5 * s["tolerance"])
        if kind == "outliers":
            s["nclip"] = int(rng.choice([0, 3, 5]))
        n = 14 if kind == "few" else int(rng.integers(25, 60))
        dets, trues, vecs, noise = T01.field(rng, s, ngroups, ndet, n, .05 if kind == "few" else .3)
        if kind == "chain":  # each exposure overlaps its neighbours only
            ngroups, expand = 3, bool(rng.random() < .7)
            e, nn, r = V.basis(*dets[0].reference(trues[0])[:2])
            size = min(dets[0].shape) * np.hypot(*dets[0].m[:, 0])
            trues = [V.rotation(nn, .62 * k * size * V.ARC) @ trues[0] for k in range(3)]
            vecs = stars(rng, dets[0].reference(trues[1])[:2], size * 1.6, 320, 2 * s["separation"])
            o = rng.permutation(3)
            trues = [trues[i] for i in o]
        if kind == "few":
            s["minobj"] = int(rng.choice([5, 10, 15, 25]))
        if kind == "confused":
            e = vecs[rng.integers(0, len(vecs), 30)] + rng.normal(0, .3 * s["tolerance"] * V.ARC, (30, 3))
            vecs = np.vstack([vecs, e / np.linalg.norm(e, axis=1)[:, None]])
        # claimed attitudes carry the errors
        images, groups = [], []
        for g, true in enumerate(trues):
            err = error_of(rng, s, true, dets[0], kind)
            claimed = err @ true
            if kind == "offset":
                claimed = true.copy() if g == 0 else None
                if claimed is None:
                    u = rng.normal(size=3)
                    claimed = V.rotation(np.cross(u, unit(*dets[0].reference(true)[:2])), V.ARC * rng.uniform(1, 6)) @ true
                    # where the tangent plane of the aligned image has to be moved
                    probe = Image(rng, dets[0], claimed, true, vecs, noise)
                    x, y = probe.sample()
                    cor = probe.corrector("probe")
                    off = np.mean(np.array(cor.det_to_tanp(x, y)) - np.array(cor.world_to_tanp(*radec(dets[0].sky(true, x, y)))), axis=1)
                    s["xoffset"], s["yoffset"] = (float(v) for v in off + rng.uniform(-.3, .3, 2) * s["tolerance"])
            for d in dets:
                images.append(Image(rng, d, claimed, true, vecs, noise, spurious=int(rng.integers(0, 4)), beyond=int(rng.choice([0, 3, 12])), gap=3 * s["tolerance"]))
                groups.append(f"g{g}")
        if kind == "outliers":  # a few sources measured off by about half the tolerance
            for im in images:
                im.disturb(rng, 4, .45 * s["tolerance"])
        if ndet > 1 and rng.random() < .3:  # members of groups need not be adjacent
            o = rng.permutation(len(images))
            images, groups = [images[i] for i in o], [groups[i] for i in o]
        alone = ndet == 1 and rng.random() < .2
        ids = [None if alone else g for g in groups]
        if ngroups == 2 and kind == "few" and rng.random() < .2:
            ids = ["only"] * len(ids)  # nothing to align against
        cors = [c.call(im.corrector, i) for im, i in zip(images, ids)]
        for im, cor in zip(images, cors):
            kept = np.asarray(cor.meta["catalog"]["label"])
            c.check(np.array_equal(kept, im.kept), "catalog_rows", f"{len(kept)} of {len(im.which)} sources kept, {len(im.kept)} lie within the bounding box")
        want = [im.corrector(i) for im, i in zip(images, ids)]
        pre = 0.0
        if kind == "large":  # a correction made before counts as well
            k = int(rng.integers(0, len(images)))
            limit = 2 * (s["searchrad"] + s["tolerance"])
            pre = limit * float(rng.choice([.5, .8, 1.2, 1.5, 3]))
            t = rng.uniform(0, 6.3)
            for lst in (cors, want):
                lst[k].set_correction(shift=[pre * np.cos(t), pre * np.sin(t)])
                for j, cor in enumerate(lst):
                    if j != k:  # the others follow so that the match is found
                        cor.set_correction(shift=[0.0, 0.0])
            if rng.random() < .7:
                # move the catalog instead of losing the match
                pass
        x = [im.sample() for im in images]
        before = [seen(cor.wcs, *p) for cor, p in zip(cors, x)]
        tables = [im.table.copy() for im in images]
        first = [cor.wcs.footprint() for cor in cors]
        original = [radec(seen(im.det.gwcs(im.claimed), *im.det.corners())) for im in images]
        bad_sep = rng.random() < .05
        if bad_sep:
            s["separation"] = s["tolerance"] * float(rng.choice([.5, 1.0, 1.41]))
        # what the documented settings give
        expected = None
        try:
            if bad_sep:
                raise RuntimeError("separation")
            quiet(direct, want, None, s, enforce_user_order=order, expand_refcat=expand)
        except Exception as e:
            expected = e
        kw = dict(s)
        if rng.random() < .5:  # defaults
            for key, val in (("xoffset", 0.0), ("yoffset", 0.0), ("use2dhist", True)):
                if kw[key] == val:
                    kw.pop(key)
        moved = None
        if expected is None:
            lim = 2 * (s["searchrad"] + s["tolerance"]) if s["use2dhist"] else 2 * (max(abs(s["xoffset"]), abs(s["yoffset"])) + s["tolerance"])
            dist = max(float(np.max(separation(*o, *radec(seen(w.wcs, *im.det.corners()))))) * 3600 for o, w, im in zip(original, want, images))
            moved = dist / lim
        try:
            got = quiet(tw.relative_align, cors, enforce_user_order=order, expand_refcat=expand, **kw)
            raised = None
        except (Exception, tw.TweakregError) as e:
            got, raised = None, e
        c.describe(kind=kind, groups=groups, settings=s, expand=expand, order=order, moved=moved, expected=repr(expected), raised=repr(raised))
        if bad_sep:
            c.check(isinstance(raised, tw.TweakregError), "separation_refused", f"separation {s['separation']}, tolerance {s['tolerance']}: {raised!r}")
            c.count("refused")
            return
        if expected is not None:
            known = isinstance(expected, (ValueError, RuntimeError)) and ("Too few input" in str(expected) or "exceeded allocation" in str(expected))
            if not known:
                raise Skip()
            c.check(isinstance(raised, tw.TweakregError), "refusal", f"{expected!r} surfaced as {raised!r}")
            c.count("refused")
            c.state(kind, "refused", type(expected).__name__)
            return
        if .97 < moved < 1.03:
            raise Skip()
        if moved > 1:
            c.check(isinstance(raised, tw.TweakregError), "large_correction", f"corrections {moved:.2f} times the limit accepted: {raised!r}")
            c.count("too_large")
            c.state(kind, "too large")
            return
        if raised is not None:
            c.fail("exception", f"{kind}: {raised!r}")
        c.check(len(got) == len(images) and all(a is b for a, b in zip(got, cors)), "returned", "the correctors are not returned in order")
        same_outcome(c, cors, want, "fit", images)
        stat = [str(cor.meta["fit_info"]["status"]) for cor in cors]
        T01.after(c, images, ids if not alone else [f"a{i}" for i in range(len(ids))], cors, before, x, stat, s, kind != "large")
        for a, b in zip(tables, images):
            c.check(a.colnames == b.table.colnames and all(np.array_equal(a[k], b.table[k]) for k in a.colnames), "caller_catalog", "the caller's catalog was modified")
        ref = [k for k, v in enumerate(stat) if v == "REFERENCE"]
        c.check(len(ref) >= 1, "reference", f"no reference among {stat}")
        if ref and kind in ("plain", "offset", "chain", "outliers") and not pre:
            r = images[ref[0]]
            move = r.claimed @ r.true.T  # where the reference claims the sky to be
            for k, (im, cor) in enumerate(zip(images, cors)):
                if stat[k] != "SUCCESS":
                    continue
                want_v = im.det.sky(im.true, *x[k]) @ move.T
                base = set(np.concatenate([images[j].kept for j in (ref if kind != "chain" else range(len(images))) if j != k]))
                T01.recovered(c, cor, im, x[k], want_v, s, kind, k, sum(len(base & set(images[j].kept[images[j].kept >= 0])) for j in range(len(images)) if groups[j] == groups[k]), loose=expand)
        if kind == "offset":
            c.count("offset_matches", stat.count("SUCCESS"))
        c.state(kind, ngroups, ndet, s["fitgeometry"], tuple(sorted(set(stat))), expand)

    @staticmethod
    def recovered(c, cor, im, xy, want_v, s, kind, k, common, loose=False):
        """Positions agree to within what the noise of the sources used allows."""
        info = cor.meta["fit_info"]
        mask = np.asarray(info["fitmask"])
        n = int(mask.sum())
        if n < 12 or info["nmatches"] < .8 * common:  # the offset search itself went astray
            c.count("poor_matches")
            return
        px = np.hypot(*im.det.m[:, 0])
        used = unit(np.asarray(info["fit_RA"], float), np.asarray(info["fit_DEC"], float))
        e, nn, r = V.basis(*radec(used.mean(0)))
        q, p = np.stack([used @ e, used @ nn], 1) / V.ARC, np.stack([want_v @ e, want_v @ nn], 1) / V.ARC
        mid = q.mean(0)
        lever = 1 / n + np.einsum("ij,jk,ik->i", p - mid, np.linalg.inv((q - mid).T @ (q - mid)), p - mid)
        sigma = 1.5 * im.noise * px
        if loose and info["rmse"] > 3 * sigma + .004:  # unrelated sources may match in an expanded reference
            c.count("poor_matches")
            return
        if kind == "outliers":
            sigma += .45 * s["tolerance"] * (1 if s["nclip"] < 3 or s["sigma"] > 3 else .5)
        tol = 6.5 * sigma * np.sqrt(lever) + .004 + (.45 * s["tolerance"] * min(1, 12 / n) if kind == "outliers" else 0)
        tol = tol * (2 if kind == "chain" else 1)
        d = apart(seen(cor.wcs, *xy), want_v)
        c.check(bool(np.all(d < tol)), "displacement", f"image {k} ({kind}, {s['fitgeometry']}, {n} sources, noise {im.noise * px:.4f} arcsec): positions off by {(d / tol).max():.2f} times what the noise allows, up to {d.max():.4f} arcsec")
        c.count("recovered")
        c.count("outliers", int(kind == "outliers"))

    @staticmethod
    def after(c, images, ids, cors, before, x, stat, s, judged=True):
        """Unaligned images stay, groups move rigidly, summaries agree."""
        for k, (cor, b) in enumerate(zip(cors, before)):
            if stat[k] != "SUCCESS":
                d = apart(seen(cor.wcs, *x[k]), b)
                c.check(bool(d.max() < 1e-9), "unaligned_moved", f"image {k} ({stat[k]}) moved by {d.max():.3g} arcsec")
                c.count("failed_images", int(stat[k] != "REFERENCE"))
            elif ids.count(ids[k]) == 1 and judged:
                summary(c, cor, images[k], k)
        for g in sorted(set(ids)):
            m = [k for k, i in enumerate(ids) if i == g]
            if len(m) < 2:
                continue
            c.check(len({stat[k] for k in m}) == 1, "group_status", f"members of one group: {[stat[k] for k in m]}")
            if stat[m[0]] != "SUCCESS" or s["fitgeometry"] not in ("shift", "rshift"):
                continue
            a, b = np.vstack([seen(cors[k].wcs, *x[k]) for k in m]), np.vstack([before[k] for k in m])
            i, j = np.triu_indices(len(a), 1)
            d = np.abs(np.linalg.norm(a[i] - a[j], axis=1) - np.linalg.norm(b[i] - b[j], axis=1)) / V.ARC
            c.check(bool(d.max() < 2e-3), "rigid_group", f"distances between positions of one group changed by {d.max():.3g} arcsec")
            c.count("rigid_groups")

    # ---------------------------------------------------------------------------------- absolute
    @staticmethod
    def absolute(c):
        from astropy.table import Table

        from stcal.tweakreg import tweakreg as tw

        rng = c.rng
        s = settings(rng)
        kind = str(rng.choice(["plain", "plain", "plain", "few", "outliers"]))
        ngroups, ndet = int(rng.choice([1, 2, 3])), int(rng.choice([1, 1, 2]))
        dets, trues, vecs, noise = T01.field(rng, s, ngroups, ndet, 16 if kind == "few" else int(rng.integers(25, 60)), .15)
        err = error_of(rng, s, trues[0], dets[0], kind)
        images = [Image(rng, d, err @ t, t, vecs, noise, spurious=int(rng.integers(0, 3)), beyond=int(rng.choice([0, 4])), gap=3 * s["tolerance"]) for t in trues for d in dets]
        ids = [f"g{g}" for g in range(len(trues)) for _ in dets]
        if kind == "outliers":
            for im in images:
                im.disturb(rng, 3, .45 * s["tolerance"])
        cors, want = [im.corrector(i) for im, i in zip(images, ids)], [im.corrector(i) for im, i in zip(images, ids)]
        for k, cor in enumerate(cors):  # what a relative alignment leaves behind
            if rng.random() < .5:
                cor.meta["fit_info"] = {"status": str(rng.choice(["REFERENCE", "SUCCESS", "FAILED: not enough matches"]))}
        sel = np.sort(rng.permutation(len(vecs))[:int(len(vecs) * rng.uniform(.8, 1))])
        if kind == "few":
            sel = sel[:int(rng.integers(1, 22))]
        ra, dec = radec(vecs[sel])
        names = {"RA": ["RA", "ra", "Ra"], "DEC": ["DEC", "dec", "Dec"]}
        cat = Table({str(rng.choice(names["RA"])): ra, "mag": rng.uniform(10, 20, len(sel)), str(rng.choice(names["DEC"])): dec})
        form, ext = [("ascii.ecsv", ".ecsv"), ("fits", ".fits"), ("csv", ".csv")][int(rng.integers(0, 3))]
        where = c.scratch() / f"ref{ext}"
        cat.write(where, format=form)
        refcat = Table({"RA": ra, "DEC": dec})
        s["xoffset"] = s["yoffset"] = 0.0
        if rng.random() < .2:
            s["use2dhist"] = False
        x = [im.sample() for im in images]
        before = [seen(cor.wcs, *p) for cor, p in zip(cors, x)]
        for w in want:
            w.meta["group_id"] = 1
        expected = None
        try:
            quiet(direct, want, refcat, s, enforce_user_order=True, expand_refcat=False)
        except Exception as e:
            expected = e
        few = len(sel) < s["minobj"]
        kw = {f"abs_{k}": s[k] for k in ("searchrad", "separation", "use2dhist", "tolerance", "minobj", "fitgeometry", "nclip", "sigma")}
        if rng.random() < .05:
            kw["abs_separation"] = 1.4 * s["tolerance"]
        path = where if rng.random() < .5 else f" {where} "
        c.describe(kind=kind, settings=s, sources=len(sel), expected=repr(expected))
        try:
            got = quiet(tw.absolute_align, cors, path, images[0].det.gwcs(images[0].claimed), images[0].det.wcsinfo(images[0].claimed), 2016.0, clip_accum=s["clip_accum"], **kw)
            raised = None
        except (Exception, tw.TweakregError) as e:
            got, raised = None, e
        if few or kw["abs_separation"] < np.sqrt(2) * s["tolerance"]:
            c.check(isinstance(raised, tw.TweakregError), "refusal", f"{len(sel)} reference sources of {s['minobj']}, separation/tolerance {kw['abs_separation'] / s['tolerance']:.2f}: {raised!r}")
            c.count("refused")
            for k, (cor, b) in enumerate(zip(cors, before)):
                c.check(bool(apart(seen(cor.wcs, *x[k]), b).max() < 1e-9), "unaligned_moved", f"image {k} moved although the alignment was refused")
            return
        if expected is not None:
            known = isinstance(expected, (ValueError, RuntimeError)) and ("Too few input" in str(expected) or "exceeded allocation" in str(expected))
            if not known:
                raise Skip()
            c.check(isinstance(raised, tw.TweakregError), "refusal", f"{expected!r} surfaced as {raised!r}")
            c.count("refused")
            return
        if raised is not None:
            c.fail("exception", f"{kind}: {raised!r}")
        c.check(len(got) == len(images) and all(a is b for a, b in zip(got, cors)), "returned", "the correctors are not returned in order")
        same_outcome(c, cors, want, "absolute_fit", images)
        stat = [str(cor.meta["fit_info"]["status"]) for cor in cors]
        c.check(len(set(stat)) == 1, "one_observation", f"images aligned together end as {stat}")
        gid = {cor.meta["group_id"] for cor in cors}
        c.check(len(gid) == 1, "one_observation", f"group ids {gid}")
        T01.after(c, images, ["all"] * len(images), cors, before, x, stat, s)
        if len(images) == 1 and stat[0] == "SUCCESS":
            summary(c, cors[0], images[0], 0)
        if stat[0] == "SUCCESS":
            for k, (im, cor) in enumerate(zip(images, cors)):
                T01.recovered(c, cor, im, x[k], im.det.sky(im.true, *x[k]), s, kind, k, len(set(sel) & set(np.concatenate([j.kept for j in images]))))
        c.count("absolute")
        c.state("absolute", kind, ngroups, ndet, s["fitgeometry"], tuple(sorted(set(stat))), form)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 15
        return [("relative", 180 * k, T01.relative), ("absolute", 80 * k, T01.absolute)]


# -------------------------------------------------------------------------------------------- T02
class Used:
    """Records the reference catalogs the alignment library is given."""

    def __enter__(self):
        from tweakwcs.wcsimage import RefCatalog

        self.cls, self.orig, self.seen = RefCatalog, RefCatalog.__init__, []
        rec, orig = self.seen, self.orig

        def init(obj, catalog, *a, **kw):
            rec.append((catalog.copy(), a, dict(kw)))
            return orig(obj, catalog, *a, **kw)

        RefCatalog.__init__ = init
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.orig


def anycase(rng, name):
    return "".join(ch.upper() if rng.random() < .5 else ch.lower() for ch in name)


class T02:
    PID = "T02"
    RULE = ("random source tables (column types, order, extra, masked and multi-dimensional columns, undefined positions) against full, partial, missing and "
            "transposed bounding boxes; reference files in three formats with every combination and spelling of position columns; distinct = (what was given, outcome)")
    ASSUMPTIONS = ["sources exactly on the edge of the bounding box are not judged"]
    REQUIRE = {"filtered": 200, "dropped_rows": 500, "files": 150, "centroids": 15, "rejected_files": 30, "corrected_angles": 20}

    @staticmethod
    def table(rng, n, box):
        from astropy.table import MaskedColumn, Table

        (x0, x1), (y0, y1) = box
        w, h = x1 - x0, y1 - y0
        x, y = rng.uniform(x0 - .4 * w, x1 + .4 * w, n), rng.uniform(y0 - .4 * h, y1 + .4 * h, n)
        kind = str(rng.choice(["float64", "float64", "float32", "int32"]))
        x, y = x.astype(kind), y.astype(kind)
        if kind != "int32" and rng.random() < .3:
            x[rng.uniform(size=n) < .1] = np.nan
            y[rng.uniform(size=n) < .1] = np.inf
        cols = [("x", x), ("y", y), ("label", np.arange(n)), ("flux", rng.normal(size=n)), ("flag", rng.integers(0, 2, n).astype(bool)),
                ("name", np.array([f"s{i}" for i in range(n)])), ("moments", rng.normal(size=(n, 2)))]
        cols = [cols[i] for i in rng.permutation(len(cols))]
        t = Table(dict(cols), masked=bool(rng.random() < .2))
        if rng.random() < .3:
            t["quality"] = MaskedColumn(rng.normal(size=n), mask=rng.random(n) < .3)
        if rng.random() < .3:
            t["flux"].unit = "Jy"
        t.meta["name"] = f"cat{rng.integers(0, 99)}"
        return t, np.asarray(x, float), np.asarray(y, float)

    @staticmethod
    def same(a, b, rows=None):
        if a.colnames != b.colnames or dict(a.meta) != dict(b.meta):
            return False
        for k in a.colnames:
            v, w = a[k], b[k] if rows is None else b[k][rows]
            if v.dtype != w.dtype or v.unit != w.unit or np.shape(v) != np.shape(w):
                return False
            mv, mw = np.broadcast_to(getattr(v, "mask", False), np.shape(v)), np.broadcast_to(getattr(w, "mask", False), np.shape(w))
            if not np.array_equal(mv, mw) or not np.array_equal(np.asarray(v)[~mv], np.asarray(w)[~mw], equal_nan=v.dtype.kind == "f"):
                return False
        return True

    @staticmethod
    def filtering(c):
        from stcal.tweakreg import tweakreg as tw

        rng = c.rng
        det = V.random_detector(rng)
        ny, nx = det.shape
        k = int(rng.integers(0, 4))
        box = [((-.5, nx - .5), (-.5, ny - .5)), ((10.25, nx * .7), (-3.5, ny * .4)), ((-.5, nx - .5), (-.5, ny - .5)), ((100.5, 101.5), (0.0, ny))][k]
        t, x, y = T02.table(rng, int(rng.choice([0, 1, 5, 40, 120])), box)
        keep = t.copy()
        with np.errstate(invalid="ignore"):
            edge = (x == box[0][0]) | (x == box[0][1]) | (y == box[1][0]) | (y == box[1][1])
            inside = (x > box[0][0]) & (x < box[0][1]) & (y > box[1][0]) & (y < box[1][1])
        if edge.any():
            raise Skip()
        if rng.random() < .5:
            how = "filter"
            given = box if rng.random() < .7 else None
            if given is not None and rng.random() < .3:
                given = [list(v) for v in box]
            got = c.call(tw.filter_catalog_by_bounding_box, t, given)
        else:
            how = "corrector"
            det.bbox = given = box if rng.random() < .8 else None
            att = V.attitude(*pointing(rng), rng.uniform(0, 360), det.v2, det.v3)
            w = det.gwcs(att)
            if given is not None and rng.random() < .3:
                from gwcs.wcs import WCS  # noqa: F401
                from astropy.modeling.bounding_box import ModelBoundingBox

                w.bounding_box = ModelBoundingBox.validate(w.forward_transform, (box[1], box[0]), order="C")
                how = "corrector C order"
            cor = c.call(tw.construct_wcs_corrector, w, det.wcsinfo(att), t, "g")
            got = cor.meta["catalog"]
            c.check(cor.meta["name"] == t.meta["name"] and cor.meta["group_id"] == "g", "meta", f"name {cor.meta['name']!r}, group {cor.meta['group_id']!r}")
            info = cor.ref_angles
            want = det.wcsinfo(att)
            c.check(all(abs(info[k] - want[k]) < 1e-9 for k in ("v2_ref", "v3_ref", "roll_ref")), "reference_angles", f"{info} for {want}")
        rows = np.flatnonzero(inside) if given is not None else np.arange(len(x))
        c.check(len(got) == len(rows) and np.array_equal(np.asarray(got["label"]), rows), "rows", f"{how}: {len(got)} sources kept of {len(x)}, {len(rows)} lie within {given}")
        c.check(T02.same(got, keep, rows), "values", f"{how}: kept rows changed")
        c.check(T02.same(t, keep), "caller_table", f"{how}: the table given was modified")
        c.count("filtered")
        c.count("dropped_rows", len(x) - len(rows))
        c.state(how, len(x), len(rows) == len(x), len(rows) == 0, k)

    @staticmethod
    def files(c):
        from astropy.coordinates import SkyCoord
        from astropy.table import Table

        from stcal.tweakreg import tweakreg as tw

        rng = c.rng
        n = int(rng.integers(3, 30))
        ra0, dec0 = pointing(rng)
        r = V.rotation(rng.normal(size=3), 1e-4)
        vec = stars(rng, (ra0, dec0), 20, n, .1)
        n = len(vec)
        ra, dec = radec(vec)
        ra2, dec2 = radec(vec @ r.T)  # another set
        form, ext = [("ascii.ecsv", ".ecsv"), ("fits", ".fits"), ("csv", ".csv")][int(rng.integers(0, 3))]
        cols, have = [("mag", rng.uniform(10, 20, n)), ("label", np.arange(n))], []
        nra, ndec, ncen = int(rng.choice([0, 1, 1, 1, 2])), int(rng.choice([0, 1, 1, 1, 2])), int(rng.choice([0, 0, 1, 1, 2]))
        if rng.random() < .5:
            nra, ndec = (1, 1) if rng.random() < .5 else (0, 0)
        if nra == 1 and ndec == 1:
            ncen = min(ncen, 1)  # several unneeded ones may be refused or ignored
        if form == "csv":
            ncen = 0
        if form == "fits":  # cannot hold names that differ in case only
            nra, ndec, ncen = min(nra, 1), min(ndec, 1), min(ncen, 1)
            if ncen and (nra or ndec):
                ncen = 0
        lower = lambda name, k: [name.upper(), name.lower()][:k] if k == 2 else [anycase(rng, name)][:k]
        cols += [(v, ra) for v in lower("ra", nra)] + [(v, dec) for v in lower("dec", ndec)]
        cols += [(v, SkyCoord(ra2, dec2, unit="deg")) for v in (["sky_centroid", "Sky_Centroid"][:ncen] if ncen == 2 else [anycase(rng, "sky_centroid")][:ncen])]
        t = Table()
        for i in rng.permutation(len(cols)):
            t[cols[i][0]] = cols[i][1]
        where = c.scratch() / f"file {n}{ext}"
        t.write(where, format=form)
        if form == "fits" and ncen:
            back = Table.read(where)
            if not any(v.lower() == "sky_centroid" for v in back.colnames):
                raise Skip()
        raw = where.read_bytes()
        ok = (nra == 1 and ndec == 1) or (nra < 2 and ndec < 2 and ncen == 1)
        pos = (ra, dec) if nra == 1 and ndec == 1 else (ra2, dec2)
        det = V.random_detector(rng)
        att = V.attitude(ra0, dec0, 0, det.v2, det.v3)
        im = Image(rng, det, att, att, vec, .01)
        if not len(im.table):
            raise Skip()
        cor = im.corrector("g")
        minobj = int(rng.choice([1, n, n + 1]))
        path = where if rng.random() < .5 else (str(where) if rng.random() < .5 else f"  {where}\n")
        if rng.random() < .1:
            path, ok = c.scratch() / "missing.fits", None
        err = None
        with Used() as used:
            try:
                quiet(tw.absolute_align, [cor], path, det.gwcs(att), det.wcsinfo(att), 2016.0, abs_minobj=minobj)
            except (Exception, tw.TweakregError) as e:
                err = e
        what = f"{form} with {nra} RA, {ndec} DEC, {ncen} sky_centroid columns"
        c.describe(columns=t.colnames, format=form, error=repr(err))
        if ok is None:
            c.check(isinstance(err, ValueError), "missing_file", f"{err!r}")
            c.count("rejected_files")
        elif not ok:
            c.check(isinstance(err, KeyError), "rejected", f"{what}: {err!r}")
            c.check(not used.seen, "rejected", f"{what}: aligned anyway")
            c.count("rejected_files")
        elif minobj > n:
            c.check(isinstance(err, tw.TweakregError) and not used.seen, "too_few", f"{n} of {minobj} sources: {err!r}")
        else:
            c.check(len(used.seen) == 1, "not_used", f"{what}: {err!r}")
            cat, a, kw = used.seen[0]
            c.check(len(cat) == n and np.array_equal(np.asarray(cat["label"]), np.arange(n)), "file_rows", f"{what}: {len(cat)} of {n} rows")
            d = separation(np.asarray(cat["RA"], float), np.asarray(cat["DEC"], float), *pos) * 3600
            c.check(bool(d.max() < 1e-6), "file_positions", f"{what}: positions {d.max():.3g} arcsec from those in the file")
            c.check(np.allclose(np.asarray(cat["mag"], float), dict(cols)["mag"], rtol=1e-12), "file_values", f"{what}: other columns changed")
            c.check(cat.meta.get("name") == where.name, "file_name", f"name {cat.meta.get('name')!r}")
            c.count("files")
            c.count("centroids", int(nra + ndec < 2))
        c.check(where.read_bytes() == raw, "file_modified", "the reference file was modified")
        c.state(form, nra, ndec, ncen, minobj > n, type(err).__name__)

    @staticmethod
    def angles(c):
        """Reference angles recovered from a coordinate system, before and after corrections."""
        from stcal.tweakreg.tweakreg import construct_wcs_corrector
        from stcal.tweakreg.utils import _wcsinfo_from_wcs_transform

        rng = c.rng
        det = V.random_detector(rng)
        att = V.attitude(*pointing(rng), rng.uniform(0, 360), det.v2 + rng.uniform(-99, 99), det.v3)
        want = det.wcsinfo(att)
        w = det.gwcs(att)
        for step in range(int(rng.integers(1, 4))):
            info = c.call(_wcsinfo_from_wcs_transform, w)
            for k in ("v2_ref", "v3_ref", "roll_ref", "ra_ref", "dec_ref"):
                d = info[k] - want[k]
                if k in ("roll_ref", "ra_ref"):
                    d = (d + 180) % 360 - 180
                c.check(abs(d) < 1e-8, "reference_angles", f"{k} {info[k]!r}, built with {want[k]!r} ({step} corrections)")
            im = Image(rng, det, att, att, stars(rng, want_centre(want), 20, 4, .5), .01)
            cor = construct_wcs_corrector(w, info, im.table, None)
            cor.set_correction(shift=rng.normal(0, 1, 2))
            w = cor.wcs
            c.count("corrected_angles", int(step > 0))
        c.state("angles", step)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [("filtering", 400 * k, T02.filtering), ("files", 700 * k, T02.files), ("angles", 60 * k, T02.angles)]


def want_centre(info):
    return info["ra_ref"], info["dec_ref"]


# -------------------------------------------------------------------------------------------- T03
class Service:
    """A catalog web service on the loopback interface that can be told to fail."""

    one = None

    def __init__(self):
        import http.server
        import threading

        me = self
        self.fault, self.log, self.rows, self.hold = None, [], None, threading.Event()

        class Handler(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def answer(self, code, body, length=None, chunked=False):
                self.send_response(code)
                self.send_header("Content-Type", "text/csv")
                self.send_header("Content-Length", str(len(body) if length is None else length))
                self.end_headers()
                self.wfile.write(body)

            def do_GET(self):
                import urllib.parse

                q = urllib.parse.urlsplit(self.path)
                par = {k.upper(): v for k, v in urllib.parse.parse_qsl(q.query)}
                me.log.append((q.path, par))
                f = me.fault
                try:
                    if f == "hang":
                        me.hold.wait(8)
                        self.close_connection = True
                        return
                    if f == "reset":
                        self.close_connection = True
                        return
                    if f in ("500", "503", "404"):
                        self.answer(int(f), b"Service Unavailable\n" if f == "503" else b"<html>\n<body>Error, sorry</body>\n</html>\n")
                        return
                    body = me.respond(par)
                    if f == "truncated":
                        self.answer(200, body[:len(body) // 2], len(body))
                        self.close_connection = True
                        return
                    self.answer(200, body)
                except OSError:
                    pass

        self.server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        self.server.daemon_threads = True
        threading.Thread(target=self.server.serve_forever, daemon=True, kwargs={"poll_interval": .02}).start()
        self.url = f"http://127.0.0.1:{self.server.server_port}"

    @classmethod
    def get(cls):
        if cls.one is None or cls.one[0] != os.getpid():
            cls.one = (os.getpid(), Service())
        return cls.one[1]

    def respond(self, par):
        """CSV of the sources in the cone, with positions at the epoch for those with proper motion."""
        r = self.rows
        d = separation(r["ra"], r["dec"], float(par["RA"]), float(par["DEC"]))
        sel = np.flatnonzero(d <= float(par["SR"]))
        if not len(sel):
            return b"No data records found\n"
        out = ["# a comment" if r["comment"] else None, "objID,ra,dec,mag,epoch,pmra,pmdec,extra"]
        for i in sel:
            pm = (f"{r['pmra'][i]!r},{r['pmdec'][i]!r}" if r["has_pm"][i] else ",")
            ra, dec, ep = (float(r["ra"][i]), float(r["dec"][i]), 2016.0)
            if "EPOCH" in par and r["has_pm"][i]:
                ra, dec, ep = ra + 1e-7, dec - 1e-7, float(par["EPOCH"])
            mag = "" if np.isnan(r["mag"][i]) else repr(float(r["mag"][i]))
            out.append(f"{r['id'][i]},{ra!r},{dec!r},{mag},{ep!r},{pm},x{i}")
        return ("\n".join(v for v in out if v is not None) + "\n").encode()


def fresh(url):
    """The query modules as in a new process."""
    import importlib
    import sys

    os.environ["ASTROMETRIC_CATALOG_URL"] = url
    os.environ["NO_PROXY"] = "*"
    for m in [m for m in sys.modules if m.startswith("stcal.tweakreg")]:
        del sys.modules[m]
    return importlib.import_module("stcal.tweakreg.astrometric_utils")


def sources(rng, ra, dec, radius, n, unknown=0.0):
    """Source list around a position, denser near the edge of the cone."""
    e, nn, r = V.basis(ra, dec)
    t = rng.uniform(0, 2 * np.pi, n)
    q = np.where(rng.random(n) < .5, radius * (1 + rng.normal(0, .02, n)), 1.6 * radius * np.sqrt(rng.uniform(0, 1, n)))
    q = np.deg2rad(np.abs(q))[:, None]
    v = np.cos(q) * r + np.sin(q) * (np.cos(t)[:, None] * e + np.sin(t)[:, None] * nn)
    ra, dec = radec(v)
    has = rng.random(n) < rng.choice([1, .8, .3])
    mag = rng.uniform(8, 21, n)
    if rng.random() < .3:
        mag = mag.round()
    mag[rng.random(n) < unknown] = np.nan
    scale = 10 ** rng.uniform(-1, 3)
    pmra, pmdec = (rng.normal(0, scale, n).round(6) for _ in range(2))
    return {"ra": ra, "dec": dec, "mag": mag, "pmra": [float(v) for v in pmra], "pmdec": [float(v) for v in pmdec], "has_pm": has,
            "id": rng.permutation(10 ** 6)[:n].astype(np.int64) + 4 * 10 ** 17, "plx": np.abs(rng.normal(0, 20, n)), "comment": rng.random() < .3}


class T03:
    PID = "T03"
    RULE = ("random source lists served by a local web service and by local partition trees standing in for the object store: poles, right ascension wrap, radii from "
            "arcseconds to degrees, partition depths, epochs, limits, unreachable, hanging, failing and truncating services, retries; distinct = (service, what was asked, fault, outcome)")
    ASSUMPTIONS = ["sources within 1e-9 degree of the edge of a cone are not judged", "the service applies the cone and epoch it is asked for", "partition lists cover the field"]
    REQUIRE = {"queries": 150, "sources_in": 4000, "sources_out": 2000, "faults": 60, "retries": 60, "moved": 500, "limited": 30, "fields": 80, "files": 20}
    CASE_TIMEOUT = 120

    # ------------------------------------------------------------------------------- web service
    @staticmethod
    def web(c):
        import time

        rng = c.rng
        svc = Service.get()
        ra, dec = pointing(rng)
        radius = float(10 ** rng.uniform(-2.5, .3))
        src = sources(rng, ra, dec, radius, int(rng.choice([0, 1, 10, 80, 300])))
        svc.rows, svc.fault, svc.log[:] = src, None, []
        svc.hold.clear()
        epoch = None if rng.random() < .4 else float(rng.choice([2016.0, 2022.25, 2030.7]))
        name = str(rng.choice(["GAIADR3", "GAIADR2", "GAIADR1", "GAIAREFCAT"]))
        fault = str(rng.choice(["none", "none", "refused", "hang", "reset", "500", "503", "404", "truncated"]))
        url = svc.url
        if fault == "refused":
            import socket

            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                url = f"http://127.0.0.1:{s.getsockname()[1]}"
        A = fresh(url)
        import requests

        a = (ra, dec) if rng.random() < .5 else (np.float64(ra), np.float64(dec))
        kw = {"epoch": epoch, "search_radius": radius, "catalog": name}
        if fault not in ("none", "refused"):
            svc.fault = fault
        if fault != "none":
            wait = float(rng.uniform(.15, .5))
            t0 = time.monotonic()
            got, err = None, None
            try:
                got = A.get_catalog(*a, **kw, timeout=wait)
            except Exception as e:
                err = e
            took = time.monotonic() - t0
            svc.hold.set()
            nothing = fault == "truncated" and not np.any(separation(src["ra"], src["dec"], ra, dec) <= radius) and False
            c.check(err is not None or nothing, "fault_hidden", f"{fault}: a table of {len(got) if got is not None else None} rows instead of an error")
            c.check(isinstance(err, requests.exceptions.RequestException), "fault_error", f"{fault}: {err!r}")
            if fault == "hang":
                c.check(isinstance(err, requests.exceptions.Timeout), "fault_error", f"{fault}: {err!r}")
                c.check(took < wait + 4, "hang", f"returned after {took:.1f} s, timeout {wait:.2f} s")
            if fault == "refused":
                c.check(isinstance(err, requests.exceptions.ConnectionError), "fault_error", f"{fault}: {err!r}")
            c.count("faults")
            if fault == "refused":
                c.state("web", fault)
                return
            svc.fault, svc.log[:] = None, []
            c.count("retries")
        got = c.call(A.get_catalog, *a, **kw)
        c.check(len(svc.log) == 1, "requests", f"{len(svc.log)} requests")
        path, par = svc.log[0]
        c.check(float(par["RA"]) == ra and float(par["DEC"]) == dec and float(par["SR"]) == radius and par["CAT"] == name, "request", f"{par} for {ra}, {dec}, {radius}, {name}")
        c.check(("EPOCH" in par) == (epoch is not None) and (epoch is None or float(par["EPOCH"]) == epoch), "request_epoch", f"{par.get('EPOCH')} for {epoch}")
        T03.served(c, got, src, ra, dec, radius, epoch, "web")
        c.state("web", fault, epoch is None, len(got) == 0, name)
        c.describe(ra=ra, dec=dec, radius=radius, epoch=epoch, fault=fault, rows=len(got), catalog=name)

    @staticmethod
    def served(c, got, src, ra, dec, radius, epoch, what):
        d = separation(src["ra"], src["dec"], ra, dec)
        sure = np.abs(d - radius) > 1e-9
        want = (d <= radius) & (src["has_pm"] if epoch is not None else True)
        ids = set(int(i) for i in got["objID"]) if len(got) else set()
        c.check(len(ids) == len(got), "repeated", f"{what}: {len(got)} rows, {len(ids)} sources")
        miss = [int(i) for i in src["id"][want & sure] if int(i) not in ids]
        extra = ids - set(int(i) for i in src["id"][want | ~sure])
        c.check(not miss, "missing", f"{what}: {len(miss)} of {int(want.sum())} sources missing (radius {radius}, epoch {epoch})")
        c.check(not extra, "extra", f"{what}: {len(extra)} sources too many (radius {radius}, epoch {epoch})")
        c.count("queries")
        c.count("sources_in", int(want.sum()))
        c.count("sources_out", int((~want).sum()))

    # ------------------------------------------------------------------------------- whole fields
    @staticmethod
    def field(c):
        from astropy.table import Table

        rng = c.rng
        svc = Service.get()
        det = V.random_detector(rng)
        ra, dec = pointing(rng)
        att = V.attitude(ra, dec, rng.uniform(0, 360), det.v2, det.v3)
        w = det.gwcs(att)
        x, y = det.corners()
        src = sources(rng, ra, dec, 40 / 3600, int(rng.choice([0, 3, 40, 150])), unknown=float(rng.choice([0, 0, .1])))
        svc.rows, svc.fault, svc.log[:] = src, None, []
        A = fresh(svc.url)
        epoch = None if rng.random() < .5 else 2025.5
        num = None if rng.random() < .4 else int(rng.choice([0, 1, 5, 20, 1000, -1, -5, -1000]))
        name = str(rng.choice(["GAIADR3", "GAIADR2", "GAIAREFCAT"]))
        out = None if rng.random() < .5 else c.scratch() / "cat.ecsv"
        if out is not None and rng.random() < .3:
            out.write_text("something older")
        got = c.call(A.create_astrometric_catalog, w, epoch, catalog=name, output=out, num_sources=num)
        c.check(len(svc.log) == 1, "requests", f"{len(svc.log)} requests")
        par = svc.log[0][1]
        c.check(par["CAT"] == name and ("EPOCH" in par) == (epoch is not None), "request", str(par))
        cra, cdec, sr = float(par["RA"]), float(par["DEC"]), float(par["SR"])
        d = separation(src["ra"], src["dec"], cra, cdec)
        far = float(separation(*radec(det.sky(att, x, y)), cra, cdec).max())
        c.check(far <= sr + 1e-6 and sr <= far * 1.5 + 1e-6, "radius", f"radius {sr} for corners up to {far} from the centre")
        ids = src["id"][(d <= sr) & (src["has_pm"] if epoch is not None else True)]
        c.count("fields")
        c.state("field", len(ids) > 0, num, epoch is None, out is not None)
        c.describe(ra=ra, dec=dec, epoch=epoch, num=num, sources=len(ids))
        px, py = det.pixel(att, unit(src["ra"], src["dec"]))
        on = det.inside(px, py) & (src["has_pm"] if epoch is not None else True)
        if num is None:
            c.check(not (set(src["id"][on]) - set(got["objID"] if len(got) else [])), "field_missing", f"sources on the detector are missing (radius {sr})")
        if not len(ids):
            c.check(len(got) == 0, "extra", f"{len(got)} sources, none expected")
            return
        pos = {int(i): k for k, i in enumerate(src["id"])}
        rows = [pos[int(i)] for i in got["objID"]]
        known = ~np.isnan(src["mag"])
        n = len(ids) if num is None else min(abs(num), len(ids))
        c.check(len(got) == n, "limit", f"{len(got)} sources for a limit of {num} with {len(ids)} available")
        c.check(len(set(rows)) == len(rows) and set(int(i) for i in got["objID"]) <= set(int(i) for i in ids), "extra", "sources from outside, or repeated")
        mags = src["mag"][rows]
        m = mags[~np.isnan(mags)]
        c.check(bool(np.all(np.diff(m) <= 0)), "order", "magnitudes do not run from faint to bright")
        if num is not None and n < len(ids):
            rest = np.array([k for i, k in pos.items() if i in set(int(j) for j in ids) and k not in set(rows)], int)
            rm = src["mag"][rest]
            rm = rm[~np.isnan(rm)]
            if num > 0 and len(m) and len(rm):
                c.check(m.min() <= m.max() <= rm.min(), "brightest", f"a source of magnitude {rm.min()} was left out for one of {m.max()}")
            if num > 0 and len(rm):
                c.check(len(m) == len(mags), "brightest", f"{len(mags) - len(m)} sources of unknown brightness among the {num} brightest")
            if num < 0 and len(m) and len(rm):
                c.check(m.min() >= rm.max(), "faintest", f"a source of magnitude {rm.max()} was left out for one of {m.min()}")
            c.count("limited")
        if n:
            k = separation(np.asarray(got["RA"], float), np.asarray(got["DEC"], float), src["ra"][rows], src["dec"][rows]) * 3600
            c.check(bool(k.max() < .01), "positions", f"positions {k.max():.3g} arcsec from those served")
            gm = np.ma.filled(np.ma.asarray(got["mag"], float), np.nan)
            c.check(np.array_equal(gm[known[rows]], mags[known[rows]]), "magnitudes", "magnitudes differ from those served")
            ep = np.asarray(got["epoch"], float)
            c.check(bool(np.all(ep == (2016.0 if epoch is None else epoch))), "epochs", f"epochs {sorted(set(ep))[:3]}")
        c.check(got.meta.get("catalog") == name, "catalog_name", f"{got.meta}")
        if out is not None:
            t = Table.read(out, format="ascii.ecsv")
            c.check(len(t) == len(got) and list(t["objID"]) == list(got["objID"]) and np.allclose(t["RA"], got["RA"], rtol=1e-14, atol=0), "file", "the file written differs from the table returned")
            c.count("files")

    # ------------------------------------------------------------------------------- object store
    @staticmethod
    def store(c):
        import threading
        import time

        import pyarrow as pa
        import pyarrow.fs as pafs
        import pyarrow.parquet as pq
        import requests
        from astropy import units as u
        from astropy_healpix import HEALPix

        rng = c.rng
        ra, dec = pointing(rng)
        if rng.random() < .5:
            dec = float(np.copysign(rng.uniform(41.9, 89), dec))  # where the pixels of the store are skewed
        radius = float(10 ** rng.uniform(-2.5, .5))
        src = sources(rng, ra, dec, radius, int(rng.choice([0, 1, 10, 80, 300, 1000])), unknown=float(rng.choice([0, .05])))
        n = len(src["ra"])
        root = c.scratch() / "stpubdata/gaia/gaia_dr3/public/hats/gaia"
        root.mkdir(parents=True)
        hp = HEALPix(nside=2 ** 29, order="nested")
        p29 = np.array(hp.lonlat_to_healpix(src["ra"] * u.deg, src["dec"] * u.deg), dtype=np.int64).reshape(-1)
        # partitions: all of the sky at the coarsest depth, split where there are many sources
        d0 = int(rng.choice([0, 1, 2]))
        deepest = int(np.clip(np.log2(60 / radius), d0 + 1, 8))  # pixels of about the size of the cone or larger
        deepest = int(rng.integers(d0, deepest + 1))
        most = int(rng.choice([1, 10, 60]))
        leaves, todo = [], [(d0, i) for i in range(12 * 4 ** d0)]
        while todo:
            d, i = todo.pop()
            k = int(np.sum(p29 >> (2 * (29 - d)) == i))
            if d < deepest and (k > most or (k > 0 and rng.random() < .2) or (k == 0 and len(leaves) < 60 and rng.random() < .02)):
                todo += [(d + 1, 4 * i + j) for j in range(4)]
            else:
                leaves.append((d, i))
        leaves = [leaves[i] for i in rng.permutation(len(leaves))]
        order = ["Norder", "Npix", "num_rows"] if rng.random() < .5 else ["num_rows", "Npix", "Dir", "Norder"]
        vals = [{"Norder": d, "Npix": i, "num_rows": 1, "Dir": 0} for d, i in leaves]
        (root / "partition_info.csv").write_text(",".join(order) + "\n" + "".join(",".join(str(v[k]) for k in order) + "\n" for v in vals))
        has = src["has_pm"]
        nul = lambda v, ok=has: pa.array([float(q) if o else None for q, o in zip(v, ok)], pa.float64())
        full = pa.table({
            "_healpix_29": pa.array(p29), "designation": pa.array([f"s{i}" for i in range(n)]), "source_id": pa.array(src["id"]), "ref_epoch": pa.array(np.full(n, 2016.0)),
            "ra": pa.array(src["ra"]), "dec": pa.array(src["dec"]), "ra_error": pa.array(np.full(n, .1)), "dec_error": pa.array(np.full(n, .2)),
            "parallax": nul(src["plx"]), "parallax_error": nul(np.full(n, .05)), "pmra": nul(src["pmra"]), "pmra_error": nul(np.full(n, .1)),
            "pmdec": nul(src["pmdec"]), "pmdec_error": nul(np.full(n, .1)), "phot_g_mean_mag": nul(src["mag"], ~np.isnan(src["mag"]))})
        # partitions without sources exist too wherever they may be asked for
        near = np.deg2rad(radius) + .3 + 3 / 2 ** max(d for d, _ in leaves)
        void = c.scratch() / "void.parquet"
        pq.write_table(full.slice(0, 0), void)
        for d, i in leaves:
            rows = np.flatnonzero(p29 >> (2 * (29 - d)) == i) if n else []
            if not len(rows):
                lon, lat = HEALPix(nside=2 ** d, order="nested").healpix_to_lonlat([i])
                if separation(lon.deg, lat.deg, ra, dec)[0] > np.rad2deg(near + 1.2 / 2 ** d):
                    continue
            f = root / f"dataset/Norder={d}/Dir={i // 10000 * 10000}/Npix={i}.parquet"
            f.parent.mkdir(parents=True, exist_ok=True)
            if not len(rows):
                os.link(void, f)
                continue
            o = np.array(sorted(rows, key=lambda k: p29[k]), dtype=np.int64)
            pq.write_table(full.take(pa.array(o)), f, row_group_size=max(1, len(o) // 3))
        gate, state = threading.Event(), {"fault": None, "opened": []}

        class Handler(pafs.FileSystemHandler):
            local = pafs.SubTreeFileSystem(str(c.scratch()), pafs.LocalFileSystem())

            def get_type_name(self):
                return "store"

            def normalize_path(self, path):
                return path

            def trouble(self, path):
                state["opened"].append(path)
                f, part = state["fault"], path.endswith("partition_info.csv")
                if f in ("hang list", "hang data") and part == (f == "hang list"):
                    gate.wait(8)
                if f in ("error list", "error data") and part == (f == "error list"):
                    raise OSError("When reading the object: AWS Error NETWORK_CONNECTION")

            def get_file_info(self, paths):
                return self.local.get_file_info(paths)

            def get_file_info_selector(self, selector):
                return self.local.get_file_info(selector)

            def open_input_stream(self, path):
                self.trouble(path)
                return self.local.open_input_stream(path)

            def open_input_file(self, path):
                self.trouble(path)
                return self.local.open_input_file(path)

            def refuse(self, *a, **k):
                raise PermissionError("the store is read only")

            create_dir = delete_dir = delete_dir_contents = delete_root_dir_contents = delete_file = move = copy_file = open_output_stream = open_append_stream = refuse

        real = pafs.S3FileSystem
        pafs.S3FileSystem = lambda *a, **k: pafs.PyFileSystem(Handler())
        try:
            A = fresh("http://127.0.0.1:9")
            epoch = None if rng.random() < .4 else float(rng.choice([2016.0, 2022.25, 2030.7]))
            fault = str(rng.choice(["none", "none", "none", "hang list", "hang data", "error list", "error data", "corrupt"]))
            kw = {"epoch": epoch, "search_radius": radius, "catalog": "GAIADR3_S3"}
            if fault != "none":
                inside = separation(src["ra"], src["dec"], ra, dec) <= radius * .9
                if "data" in fault or fault == "corrupt":
                    if not inside.any():
                        raise Skip()
                if rng.random() < .3 and "data" in fault:
                    c.call(A.get_catalog, ra, dec, **kw)  # the partition list is known already
                state["fault"] = fault
                if fault == "corrupt":
                    k = int(np.flatnonzero(inside)[0])
                    d, i = next((d, i) for d, i in leaves if p29[k] >> (2 * (29 - d)) == i)
                    f = root / f"dataset/Norder={d}/Dir={i // 10000 * 10000}/Npix={i}.parquet"
                    whole = f.read_bytes()
                    f.write_bytes(whole[:-int(len(whole) * rng.uniform(.1, .9))])
                wait, t0, got, err = float(rng.uniform(.2, .5)) if "hang" in fault else 60.0, time.monotonic(), None, None
                try:
                    got = A.get_catalog(ra, dec, **kw, timeout=wait)
                except Exception as e:
                    err = e
                took = time.monotonic() - t0
                gate.set()
                c.check(err is not None, "fault_hidden", f"{fault}: a table of {len(got) if got is not None else None} rows instead of an error")
                if "hang" in fault:
                    c.check(isinstance(err, TimeoutError), "fault_error", f"{fault}: {err!r}")
                    c.check(took < wait + 4, "hang", f"returned after {took:.1f} s, timeout {wait:.2f} s")
                elif "error" in fault:
                    c.check(isinstance(err, requests.exceptions.ConnectionError), "fault_error", f"{fault}: {err!r}")
                c.count("faults")
                if fault == "corrupt":
                    f.write_bytes(whole)
                state["fault"] = None
                c.count("retries")
            kw2 = {} if rng.random() < .5 else {"timeout": 60.0}
            got = c.call(A.get_catalog, ra, dec, **kw, **kw2)
        finally:
            pafs.S3FileSystem = real
            gate.set()
        T03.served(c, got, src, ra, dec, radius, epoch, "store")
        c.describe(ra=ra, dec=dec, radius=radius, epoch=epoch, fault=fault, rows=len(got), partitions=len(leaves), deepest=max(d for d, _ in leaves))
        c.state("store", fault, epoch is None, len(got) == 0, d0, deepest, most)
        if not len(got):
            return
        pos = {int(i): k for k, i in enumerate(src["id"])}
        rows = np.array([pos[int(i)] for i in got["objID"]])
        plain = lambda v: np.ma.filled(np.ma.asarray(v, float), np.nan)
        c.check(np.array_equal(plain(got["mag"]), src["mag"][rows], equal_nan=True), "magnitudes", "magnitudes differ from those stored")
        c.check(bool(np.all(np.asarray(got["epoch"], float) == 2016.0)), "epochs", "reference epochs differ from those stored")
        pm = np.stack([src["pmra"], src["pmdec"]])[:, rows]
        for k, v in (("pmra", pm[0]), ("pmdec", pm[1]), ("parallax", src["plx"][rows])):
            c.check(np.array_equal(plain(got[k]), np.where(has[rows], v, np.nan), equal_nan=True), "motions", f"{k} differs from what is stored")
        v = unit(src["ra"][rows], src["dec"][rows])
        if epoch is not None:
            from astropy.coordinates import get_body_barycentric
            from astropy.time import Time

            earth = get_body_barycentric("earth", Time(epoch, format="decimalyear")).xyz.to_value("AU")
            a, dl = np.deg2rad(src["ra"][rows]), np.deg2rad(src["dec"][rows])
            e = np.stack([-np.sin(a), np.cos(a), 0 * a], 1)
            nn = np.stack([-np.sin(dl) * np.cos(a), -np.sin(dl) * np.sin(a), np.cos(dl)], 1)
            mas = V.ARC / 1000
            v = v + (epoch - 2016.0) * mas * (pm[0][:, None] * e + pm[1][:, None] * nn) - src["plx"][rows][:, None] * mas * earth
            v /= np.linalg.norm(v, axis=1)[:, None]
            c.count("moved", len(rows))
        d = apart(unit(plain(got["ra"]), plain(got["dec"])), v)
        allow = 2e-5 + 3e-6 * np.hypot(*pm) * abs((epoch or 2016) - 2016) / 1000
        c.check(bool(np.all(d < allow)), "epoch_positions", f"positions {d.max():.3g} arcsec from those at epoch {epoch}")

    # ------------------------------------------------------------------------------- names
    @staticmethod
    def names(c):
        """Catalog names given to the alignment: spelling, files written, refused names."""
        import sys

        rng = c.rng
        svc = Service.get()
        det = V.random_detector(rng)
        ra, dec = pointing(rng)
        if abs(dec) > 89:
            raise Skip()
        att = V.attitude(ra, dec, rng.uniform(0, 360), det.v2, det.v3)
        shift = V.rotation(unit(*V.radec((att.T @ unit(ra, dec)))) * 0 + np.cross(unit(ra, dec), rng.normal(size=3)), .3 * V.ARC)
        vec = stars(rng, (ra, dec), 45, 130, 3)
        ra_s, dec_s = radec(vec)
        n = len(vec)
        src = {"ra": ra_s, "dec": dec_s, "mag": rng.uniform(9, 20, n), "pmra": [.1] * n, "pmdec": [.1] * n, "has_pm": np.ones(n, bool), "id": np.arange(n) + 5, "plx": np.zeros(n), "comment": False}
        svc.rows, svc.fault, svc.log[:] = src, None, []
        fresh(svc.url)
        import importlib

        tw = importlib.import_module("stcal.tweakreg.tweakreg")
        Image_ = Image(rng, det, shift @ att, att, vec, .01)
        cor = Image_.corrector("g")
        name = str(rng.choice(["GAIADR3", "GAIADR2", "GAIADR1", "GAIAREFCAT"]))
        given = anycase(rng, name) if rng.random() < .7 else f" {name} "
        save = bool(rng.random() < .5)
        folder = c.scratch() / "out"
        folder.mkdir()
        epoch = float(rng.choice([2016.0, 2024.5]))
        bad = rng.random() < .15
        if bad:
            given = str(rng.choice(["GAIADR9", "gaia", ""]))
        err = None
        with Used() as used:
            try:
                quiet(tw.absolute_align, [cor], given, det.gwcs(shift @ att), det.wcsinfo(shift @ att), epoch, save_abs_catalog=save, abs_catalog_output_dir=str(folder), abs_minobj=8, timeout=20.0)
            except (Exception, tw.TweakregError) as e:
                err = e
        if bad:
            c.check(isinstance(err, ValueError), "unknown_catalog", f"{given!r}: {err!r}")
            c.state("names", "bad", given)
            return
        if err is not None:
            c.fail("exception", f"{given!r}: {err!r}")
        par = svc.log[0][1] if svc.log else {}
        c.check(par.get("CAT") == name and float(par.get("EPOCH", 0)) == epoch, "request", f"{given!r}: {par}")
        cat = used.seen[0][0]
        c.check(cat.meta.get("name") == name, "file_name", f"{cat.meta.get('name')!r}")
        d = separation(np.asarray(cat["RA"], float), np.asarray(cat["DEC"], float), ra_s[np.asarray(cat["objID"]) - 5], dec_s[np.asarray(cat["objID"]) - 5]) * 3600
        c.check(bool(d.max() < .01), "positions", f"reference positions {d.max():.3g} arcsec from those served")
        px, py = det.pixel(att, vec)
        on = det.inside(px, py, 10)
        c.check(not (set(np.flatnonzero(on) + 5) - set(np.asarray(cat["objID"]))), "field_missing", "reference sources on the detector are missing")
        files = sorted(p.name for p in folder.iterdir())
        c.check(len(files) == int(save), "saved", f"{files} written, save_abs_catalog={save}")
        if save:
            from astropy.table import Table

            t = Table.read(folder / files[0], format="ascii.ecsv")
            c.check(list(t["objID"]) == list(cat["objID"]), "saved", "the saved catalog differs from the one used")
            c.count("files")
        if cor.meta["fit_info"]["status"] == "SUCCESS":
            x, y = Image_.sample()
            d = apart(seen(cor.wcs, x, y), det.sky(att, x, y))
            c.check(bool(d.max() < .1), "displacement", f"positions off by {d.max():.3f} arcsec after alignment")
            c.count("aligned_by_name")
        c.state("names", given.strip().upper(), save, cor.meta["fit_info"]["status"])

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 15
        return [("web", 200 * k, T03.web), ("field", 300 * k, T03.field), ("store", 500 * k, T03.store), ("names", 40 * k, T03.names)]


CHECKS = {"T01": T01, "T02": T02, "T03": T03}
