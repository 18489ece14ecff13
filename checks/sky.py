"""M01, M02: sky background matching and statistics."""
import logging
import warnings

import numpy as np

from vp.core import Skip

from .lib import wcsgen

logging.getLogger("stcal.skymatch").setLevel(logging.CRITICAL)


class Pair:
    """Forward and inverse callables in the calling convention of gwcs."""

    def __init__(self, sky):
        self.sky = sky

    def fwd(self, x, y, with_bounding_box=True):
        a, b = self.sky.p2w(x, y)
        return np.array(a), np.array(b)

    def inv(self, ra, dec, with_bounding_box=True):
        return self.sky.w2p(ra, dec)


def make(sky, data, mask, stat, plain=True, **kw):
    from stcal.skymatch import SkyImage

    if plain:
        p = Pair(sky)
        return SkyImage(data, mask, p.fwd, p.inv, stat, **kw)
    w = sky.gwcs()
    return SkyImage(data, mask, w.__call__, w.invert, stat, **kw)


def corners(sky):
    ny, nx = sky.shape
    return sky.p2w(np.array([-.5, nx - .5, nx - .5, -.5]), np.array([-.5, -.5, ny - .5, ny - .5]))


def inside(sky, other):
    """For every pixel of sky: how far (in its own pixels) inside (positive) the other image and itself it lies."""
    ny, nx = sky.shape
    y, x = np.indices(sky.shape, dtype=float)
    own = np.minimum(np.minimum(x, nx - 1 - x), np.minimum(y, ny - 1 - y)) + .5
    px, py = other.w2p(*sky.p2w(x, y))
    oy, ox = other.shape
    d = np.minimum(np.minimum(px + .5, ox - .5 - px), np.minimum(py + .5, oy - .5 - py))
    d = np.where(np.isfinite(d), d, -1e9)
    r = np.sqrt(abs(np.linalg.det(other.m)) / abs(np.linalg.det(sky.m)))
    return own, d * r


def overlap_share(sky, other):
    """Area of the overlap in pixels of sky, from the outlines in its pixel plane."""
    import shapely

    a = shapely.box(-.5, -.5, sky.shape[1] - .5, sky.shape[0] - .5)
    px, py = sky.w2p(*corners(other))
    if not np.isfinite(px).all():
        return 0.0
    return a.intersection(shapely.Polygon(list(zip(px, py)))).area


def group(images, **kw):
    from stcal.skymatch import SkyGroup

    return SkyGroup(images, **kw)


def united(c, images, **kw):
    """A group; the polygon library refuses a few outlines with exactly coinciding edges."""
    from spherical_geometry.polygon import MalformedPolygonError

    try:
        return group(images, **kw)
    except MalformedPolygonError:
        c.count("refused_outlines")
        raise Skip() from None


# ------------------------------------------------------------------ statistics reference
def clipped(v, lower, upper, nclip, lsig, usig):
    """Values left after limits and sigma clipping; None if a value sits on a limit within rounding."""
    v = np.asarray(v, np.float32).astype(float)
    lo0, hi0 = (-np.inf if lower is None else lower), (np.inf if upper is None else upper)
    lo, hi = lo0, hi0
    sure = True
    for k in range(nclip + 1):
        u = v[(v >= lo) & (v <= hi)]
        if k and len(v):
            e = 1e-5 * (np.abs(v) + np.std(v) + 1e-30)
            sure = sure and not (np.any(np.abs(v - lo) < e) and lo > lo0) and not (np.any(np.abs(v - hi) < e) and hi < hi0)
        if not len(u):
            return u, sure
        m, s = u.mean(), u.std(ddof=1) if len(u) > 1 else 0.0
        lo, hi = max(lo0, m - lsig * s), min(hi0, m + usig * s)
    return u, sure


class M02:
    PID = "M02"
    RULE = ("random pairs and groups of footprints (shifted, rotated, flipped, scaled, distorted, identical, nested, touching, disjoint, near poles and RA 0), "
            "masks, statistics, limits, clipping; the pixels handed to the statistic are recorded; distinct = (statistic, clips, limits, kind of overlap)")
    ASSUMPTIONS = ["pixels within two pixels of the outline of an overlap are not judged (vertices are rounded to pixels)",
                   "pixels with undefined values are masked out; otherwise the image may be reported as having no sky"]
    REQUIRE = {"overlap_pixels": 20000, "outside_pixels": 20000, "disjoint": 30, "group_overlaps": 60, "statistics": 600, "clipped_away": 300, "areas": 100}

    @staticmethod
    def regions(c):
        """Which pixels the statistic is given."""
        from spherical_geometry.polygon import MalformedPolygonError

        rng = c.rng
        base = wcsgen.random_sky(rng, lim=(12, 45))
        kind = str(rng.choice(["near", "near", "near", "far", "same", "nested", "edge"]))
        plain = rng.random() < .6
        n = int(rng.choice([1, 1, 2, 3]))
        others = []
        for _ in range(n):
            if kind == "far":
                ra, dec = base.crval
                o = wcsgen.near(rng, base, shift=.5).moved(crval=(ra + 30, float(np.clip(dec, -60, 60)) + rng.uniform(-20, 20)))
            elif kind == "same":
                o = base.moved()
            elif kind == "nested":
                o = wcsgen.near(rng, base, (int(rng.integers(6, 12)),) * 2, .2, (.5, 1))
            elif kind == "edge":
                o = base.moved(crpix=base.crpix + np.array([base.shape[1] * int(rng.integers(0, 2)), base.shape[0]]), dist=(0, 0))
            else:
                o = wcsgen.near(rng, base, shift=1.2)
            others.append(o)
        seen = []

        def stat(d):
            seen.append(np.array(d))
            return float(np.mean(d)), d.size

        ny, nx = base.shape
        ids = np.arange(ny * nx, dtype=float).reshape(ny, nx)
        mask = rng.random((ny, nx)) < rng.choice([1.0, .7, .1])
        if rng.random() < .08:
            mask[:] = False
        step = 10 if rng.random() < .15 else None
        given = mask if rng.random() < .7 else mask.astype(rng.choice([np.int32, np.uint8]))
        me = c.call(make, base, ids, given, stat, plain, stepsize=step)
        them = [make(o, rng.normal(0, 1, o.shape), np.ones(o.shape, bool), stat, plain, stepsize=step) for o in others]
        level = float(rng.normal())
        me.sky = level
        delta = bool(rng.random() < .5)
        grouped = n > 1 or rng.random() < .2
        if kind in ("same", "edge"):
            # outlines sharing edges or corners exactly: the polygon library may refuse them
            try:
                target = group(them) if grouped else them[0]
                if kind == "edge":
                    me.calc_sky(overlap=target, delta=delta)
            except (ValueError, MalformedPolygonError):
                c.count("refused_outlines")
                raise Skip() from None
            del seen[:]
        else:
            target = united(c, them) if grouped else them[0]
        got = c.call(me.calc_sky, overlap=target, delta=delta)
        used = np.zeros((ny, nx), bool)
        if seen:
            idx = seen[-1].astype(int)
            c.check(len(seen) == 1 and len(np.unique(idx)) == idx.size, "pixel_repeated", "a pixel counted twice")
            used.flat[idx] = True
        must, may = np.zeros((ny, nx), bool), np.zeros((ny, nx), bool)
        share = 0.0
        for o in others:
            own, d = inside(base, o)
            must |= (own > 2.6) & (d > 2.6)
            may |= d > -2.6
            share += overlap_share(base, o)
        c.check(not np.any(used & ~mask), "masked_pixel_used", f"{int((used & ~mask).sum())} masked pixels reached the statistic")
        c.check(not np.any(must & mask & ~used), "overlap_pixel_missed", f"{int((must & mask & ~used).sum())} of {int((must & mask).sum())} pixels in the overlap not used ({kind}, group of {n})")
        c.check(kind == "edge" or not np.any(used & ~may), "outside_pixel_used", f"{int((used & ~may).sum())} pixels outside the overlap used ({kind}, group of {n})")
        if used.any():
            want = ids[used].mean() - (level if delta else 0)
            c.check(got[0] is not None and abs(got[0] - want) < 1e-6 * max(1, abs(want)) and got[1] == used.sum(), "value", f"{got}, statistic {want} of {int(used.sum())}")
        else:
            c.check(got[0] is None and got[1] == 0, "no_pixels", f"{got} although no pixel was used")
        if kind == "far":
            c.check(got == (None, 0, 0.0) and not seen, "disjoint", f"{got} for footprints that do not overlap")
            c.count("disjoint")
        a = wcsgen.area(*corners(base)) / (ny * nx)
        if used.any() and kind != "far" and got[2] < 6 and share > 20 and share < .97 * n * ny * nx:
            c.check(abs(got[2] - share * a) <= .03 * share * a + 1e-13 + 6 * np.sqrt(share) * a * .15, "overlap_area", f"{got[2]} of {share * a} sr ({kind})")
            c.count("areas")
        if not grouped:
            back = c.call(them[0].calc_sky, overlap=me, delta=False)
            if got[0] is not None and back[0] is not None:
                c.check(abs(back[2] - got[2]) <= 2e-3 * got[2] + 1e-13 or max(back[2], got[2]) > 6, "area_asymmetric", f"{got[2]} one way, {back[2]} the other")
        else:
            c.count("group_overlaps")
        full = c.call(me.calc_sky, overlap=None, delta=delta) if mask.any() else None
        if full:
            want = ids[mask].mean() - (level if delta else 0)
            c.check(abs(full[0] - want) < 1e-6 * max(1, abs(want)) and full[1] == mask.sum(), "whole_image", f"{full}, statistic {want} of {int(mask.sum())}")
            c.check(np.array_equal(np.sort(seen[-1]), ids[mask]), "whole_image_pixels", "other pixels than the valid ones")
            c.check(abs(full[2] - a * nx * ny) <= 1e-2 * a * nx * ny + 1e-13, "footprint_area", f"{full[2]} of {a * nx * ny}")
        c.check(np.array_equal(me.image, np.arange(ny * nx).reshape(ny, nx)) and me.sky == level, "modified", "computing a statistic changed the image")
        c.count("overlap_pixels", int((must & mask).sum()))
        c.count("outside_pixels", int((mask & ~may).sum()))
        c.state(kind, n, grouped, plain, delta, bool(used.any()), step)
        c.describe(kind=kind, others=n, shape=base.shape)

    @staticmethod
    def statistics(c):
        """Sigma clipped statistics within limits, against a direct evaluation."""
        from stcal.skymatch.skystatistics import SkyStats

        rng = c.rng
        name = str(rng.choice(["mean", "median", "mode", "midpt"]))
        nclip = int(rng.choice([0, 1, 2, 5]))
        lsig, usig = float(rng.uniform(1.5, 5)), float(rng.uniform(1.5, 5))
        level, noise = float(rng.normal(0, 20)), float(rng.uniform(.2, 5))
        lower = None if rng.random() < .5 else level - noise * float(rng.uniform(.5, 6))
        upper = None if rng.random() < .5 else level + noise * float(rng.uniform(.5, 6))
        bw = float(rng.choice([.1, .05, .3]))
        s = SkyStats(skystat=name, lower=lower, upper=upper, nclip=nclip, lsig=lsig, usig=usig, binwidth=bw)
        for _ in range(3):  # settings persist
            n = int(rng.choice([1, 5, 300, 3000]))
            v = rng.normal(level, noise, n)
            m = rng.random(n) < .1
            v[m] += rng.exponential(20 * noise, int(m.sum())) * rng.choice([-1, 1, 1], int(m.sum()))
            if rng.random() < .1:
                v[:] = level
            v = v.astype(rng.choice([np.float32, np.float64]))
            keep = v.copy()
            u, sure = clipped(v, lower, upper, nclip, lsig, usig)
            if not sure or (0 < len(u) < len(v) and len(u) < 3):
                continue
            # a value within rounding of a limit is not judged
            f = v.astype(np.float32).astype(float)
            if any(l is not None and np.any(np.abs(f - l) < 1e-5 * (abs(l) + noise)) for l in (lower, upper)):
                continue
            import contextlib
            import io

            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    got, npix = s(v.reshape(-1) if rng.random() < .5 or n % 5 else v.reshape(5, -1))
            except ValueError:
                c.check(len(u) == 0, "refused", f"{name}: {len(u)} of {n} values are usable (limits {lower}, {upper}, clips {nclip})")
                c.count("nothing_left")
                continue
            c.check(len(u) > 0, "not_refused", f"{name} {got} although no value is usable")
            c.check(np.array_equal(v, keep), "values_modified", "input changed")
            c.check(npix == len(u), "npix", f"{npix} values used, {len(u)} remain after {nclip} clips within {lower}..{upper}")
            tol = 1e-4 * (abs(level) + noise)
            if name == "mean":
                c.check(abs(got - u.mean()) <= tol, "mean", f"{got}, mean of {len(u)} values {u.mean()}")
            elif name == "median":
                uu = np.sort(u)
                c.check(abs(got - np.median(uu)) <= tol, "median", f"{got}, median of {len(u)} values within {lower}..{upper} {np.median(uu)} (clips {nclip})")
            else:
                # histogram estimators: between the ends, and near the centre of a large sample
                sd = u.std(ddof=1) if len(u) > 1 else 0
                c.check(u.min() - tol <= got <= u.max() + sd * bw + tol, name, f"{got} outside the values {u.min()}..{u.max()}")
                if name == "midpt" and len(u) >= 300:
                    c.check(abs(got - np.median(u)) <= 3 * bw * sd + tol, name, f"{got}, median {np.median(u)}, bins of {bw * sd}")
                if name == "mode" and len(u) >= 300:
                    c.check(abs(got - np.median(u)) <= 2.5 * sd + tol, name, f"{got}, median {np.median(u)}, spread {sd}")
            c.count("statistics")
            c.count("clipped_away", n - len(u))
            c.state(name, nclip, lower is None, upper is None, n)
        c.describe(name=name, nclip=nclip, lower=lower, upper=upper)

    @staticmethod
    def groups(c):
        """Statistic of a group: pixel weighted over an overlap, the smallest of the whole images otherwise."""
        rng = c.rng
        base = wcsgen.random_sky(rng, lim=(10, 24))
        skies = [base.moved(crpix=base.crpix - np.array([k * (base.shape[1] - 4), int(rng.integers(-3, 4))]), dist=(0, 0)) for k in range(int(rng.integers(1, 4)))]
        target = wcsgen.near(rng, base, (int(rng.integers(10, 40)), int(rng.integers(10, 60))), 1.0)

        def stat(d):
            if d.size < 3:
                raise ValueError("few")
            return float(np.mean(d)), d.size

        ims = []
        for s in skies:
            m = rng.random(s.shape) < .8
            if rng.random() < .15:
                m[:] = False
            ims.append(make(s, rng.normal(rng.normal(0, 5), 1, s.shape), m, stat))
        g = united(c, ims)
        level = float(rng.normal())
        g.sky = level
        c.check(all(abs(i.sky - level) < 1e-12 for i in ims) and len(g) == len(ims) and all(a is b for a, b in zip(g, ims)), "members_share", "members do not follow the sky of the group")
        delta = bool(rng.random() < .5)
        t = make(target, np.zeros(target.shape), np.ones(target.shape, bool), stat)
        per = [i.calc_sky(overlap=t, delta=delta) for i in ims]
        got = c.call(g.calc_sky, overlap=t, delta=delta)
        w = sum(p[1] for p in per)
        if w:
            want = sum(p[0] * p[1] for p in per if p[1]) / w
            c.check(got[0] is not None and abs(got[0] - want) <= 1e-9 * (1 + abs(want)) and got[1] == w, "group_overlap", f"{got} from members {per}")
            c.check(abs(got[2] - sum(p[2] for p in per)) <= 1e-3 * got[2] + 1e-14, "group_area", f"{got[2]} from members {[p[2] for p in per]}")
            c.count("group_overlaps")
        else:
            c.check(got[0] is None and got[1] == 0, "group_none", f"{got} although no member has a value")
        per = [i.calc_sky(delta=delta) for i in ims if i.mask.any()]
        per = [p for p in per if p[0] is not None]
        got = c.call(g.calc_sky, delta=delta) if all(i.mask.any() for i in ims) else None
        if got and per:
            best = min(per, key=lambda p: p[0])
            c.check(got == best, "group_minimum", f"{got}, members {per}")
        c.state("group", len(ims), delta, bool(w))
        c.describe(members=len(ims))

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [("regions", 350 * k, M02.regions), ("statistics", 400 * k, M02.statistics), ("groups", 200 * k, M02.groups)]


class Field:
    """Images around one pointing that differ by constant levels, with chains, islands, groups, masks and undefined pixels."""

    def __init__(self, c, noise=0.0, slope=0.0):
        rng = self.rng = c.rng
        from stcal.skymatch.skystatistics import SkyStats

        base = wcsgen.random_sky(rng, (int(rng.integers(12, 26)), int(rng.integers(12, 26))))
        self.skies, self.island = [], []
        n = int(rng.choice([1, 2, 3, 4, 5, 6]))
        islands = rng.random() < .35
        for k in range(n):
            i = int(rng.integers(0, 2)) if islands else 0
            o = wcsgen.near(rng, base, shift=.7, scale=(.8, 1.2))
            if i:
                o = o.moved(crval=(o.crval[0] + 20, float(np.clip(o.crval[1], -50, 50))))
            self.skies.append(o)
            self.island.append(i)
        self.levels = rng.normal(0, 30, n).astype(np.float32).astype(float)
        self.images = []
        plain = rng.random() < .7
        self.dead = []
        for k, o in enumerate(self.skies):
            d = np.full(o.shape, self.levels[k])
            if noise:
                d = d + rng.normal(0, noise, o.shape)
            m = rng.random(o.shape) < rng.choice([1.0, .8])
            dead = rng.random() < .12
            if dead:
                m[:] = False
            d[~m & (rng.random(o.shape) < .5)] = np.nan
            d[~m & (rng.random(o.shape) < .3)] = 1e7
            d = d.astype(rng.choice([np.float32, np.float64]))
            self.dead.append(dead)
            stat = SkyStats(skystat=str(rng.choice(["mean", "median"])) if not noise else "mean", nclip=0 if noise else int(rng.integers(0, 4)), lower=-1e6, upper=1e6)
            self.images.append(c.call(make, o, d, m, stat, plain, sky_id=k))
        # items: single images and groups of neighbours in the list
        self.items, self.member = [], []
        k = 0
        while k < n:
            w = int(rng.choice([1, 1, 1, 2, 3]))
            if w > 1 and k + w <= n and len(set(self.island[k:k + w])) == 1:
                self.items.append(united(c, self.images[k:k + w], sky_id=f"g{k}"))
                self.member.append(list(range(k, k + w)))
                if not noise:  # members of an exposure share their level
                    for j in range(k + 1, k + w):
                        im = self.images[j].image
                        im[np.abs(im) < 1e6] += self.levels[k] - self.levels[j]
                        self.levels[j] = self.levels[k]
            else:
                w = 1
                self.items.append(self.images[k])
                self.member.append([k])
            k += w


def match(c, items, *a, **k):
    """Matching; outlines the polygon library refuses are not judged."""
    from spherical_geometry.polygon import MalformedPolygonError
    from stcal.skymatch import skymatch

    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return skymatch(items, *a, **k)
    except MalformedPolygonError:
        raise Skip() from None
    except ValueError as e:
        if "edges" in str(e):
            raise Skip() from None
        raise


class M01:
    PID = "M01"
    RULE = ("random mosaics (chains, islands, groups, fully masked images, undefined and wild masked pixels), methods, directions, with and without "
            "subtraction, repeated runs, permuted inputs; distinct = (method, direction, subtraction, items, groups, islands, dead images)")
    ASSUMPTIONS = ["undefined pixels are masked", "outlines the polygon library refuses are not judged", "levels of unconnected sets of images are only matched within each set"]
    REQUIRE = {"matched_pairs": 150, "conserved_pixels": 100000, "groups": 60, "dead_images": 30, "islands": 30, "repeats": 100, "orders": 60, "equations": 100, "nobody_valid": 5}

    @staticmethod
    def components(items):
        """Connected sets of items through overlaps usable from both sides."""
        n = len(items)
        comp = list(range(n))
        link = np.zeros((n, n), bool)
        eq = []
        for i in range(n):
            for j in range(i + 1, n):
                a, b = items[i].calc_sky(overlap=items[j], delta=False), items[j].calc_sky(overlap=items[i], delta=False)
                if a[0] is not None and b[0] is not None and a[1] > 0 and b[1] > 0 and a[2] and b[2]:
                    link[i, j] = link[j, i] = True
                    eq.append((i, j, a[0], b[0], (a[1] + b[1]) / 2))
                    old, new = comp[j], comp[i]
                    comp = [new if x == old else x for x in comp]
        return comp, link, eq

    @staticmethod
    def run(c, f, method, down, subtract):
        """One call: what is reported is what is applied, everything else stays."""
        before = [im.image.copy() for im in f.images]
        masks = [im.mask.copy() for im in f.images]
        old = [im.sky for im in f.images]
        c.call(match, c, f.items, method, down, subtract)
        for k, im in enumerate(f.images):
            d = im.sky - old[k]
            want = before[k] - (d if subtract else 0)
            c.close_to(im.image, want, "subtracted", 1e-5 if im.image.dtype == np.float32 else 1e-9, 2e-5 * (1 + abs(d)), f"image {k}: reported change of sky {d}, method {method}, subtract {subtract}")
            if not subtract:
                c.check(np.array_equal(im.image, before[k], equal_nan=True), "data_changed", f"image {k} changed although nothing is to be subtracted")
            c.check(np.array_equal(im.mask, masks[k]), "mask_changed", f"image {k}")
            c.count("conserved_pixels", im.image.size)
        for it, mem in zip(f.items, f.member):
            if len(mem) > 1:
                dd = [f.images[k].sky - old[k] for k in mem]
                c.check(max(dd) - min(dd) <= 1e-9 * (1 + abs(dd[0])) and len({f.images[k].is_sky_valid for k in mem}) == 1, "group_shares", f"members change by {dd}")
                c.count("groups")
        return [im.sky - o for im, o in zip(f.images, old)]

    @staticmethod
    def expect(f, method, down, comp, link):
        """Sky per item for images of constant level; None where undefined."""
        n = len(f.items)
        lev = [f.levels[m[0]] for m in f.member]
        alive = [not all(f.dead[k] for k in m) for m in f.member]
        linked = link.any(axis=1)
        out = [None] * n
        if "match" in method:
            for i in range(n):
                if linked[i]:
                    # solution of least squares: mean zero within a connected set
                    out[i] = lev[i] - np.mean([lev[j] for j in range(n) if linked[j] and comp[j] == comp[i]])
            good = [o for o in out if o is not None]
            if good:
                r = min(good) if down else max(good)
                out = [None if o is None else o - r for o in out]
        if method == "match":
            return [0.0 if o is None else o for o in out], [o is not None for o in out]
        base = [0.0 if o is None else o for o in out]
        rest = [lev[i] - base[i] if alive[i] else None for i in range(n)]
        if method == "local":
            return [0.0 if r is None else r for r in rest], [r is not None for r in rest]
        ok = [r for r in rest if r is not None]
        if not ok:
            return base, None
        return [b + min(ok) for b in base], [True] * n

    @staticmethod
    def levels(c):
        rng = c.rng
        f = Field(c)
        method = str(rng.choice(["match", "match", "global+match", "global+match", "local", "global", "Global+Match"]))
        down, subtract = bool(rng.random() < .6), bool(rng.random() < .5)
        if rng.random() < .04:
            for im in f.images:
                im.mask[:] = False
            f.dead = [True] * len(f.images)
        try:
            comp, link, _ = M01.components(f.items)
        except Exception as e:
            if "olygon" in repr(e) or "edges" in repr(e):
                raise Skip() from None
            raise
        got = M01.run(c, f, method, down, subtract)
        want, valid = M01.expect(f, method.lower(), down, comp, link)
        tol = 2e-4 * (1 + np.abs(f.levels).max())
        for i, mem in enumerate(f.member):
            for k in mem:
                c.check(abs(got[k] - want[i]) <= tol, "level", f"item {i} image {k}: sky {got[k]}, expected {want[i]} ({method}, {'down' if down else 'up'}, levels {f.levels.tolist()}, sets {comp}, dead {f.dead})")
                if valid:
                    c.check(f.images[k].is_sky_valid == valid[i], "validity", f"image {k}: valid {f.images[k].is_sky_valid}, expected {valid[i]} ({method})")
        if valid is None:
            c.count("nobody_valid")
        linked = link.any(axis=1)
        if "match" in method.lower() and subtract:
            # equal levels afterwards within every connected set
            for i in range(len(f.items)):
                for j in range(i):
                    if linked[i] and linked[j] and comp[i] == comp[j]:
                        a, b = f.levels[f.member[i][0]] - got[f.member[i][0]], f.levels[f.member[j][0]] - got[f.member[j][0]]
                        c.check(abs(a - b) <= tol, "unequal", f"levels {a} and {b} after matching")
                        c.count("matched_pairs")
        elif "match" in method.lower():
            c.count("matched_pairs", int(link.sum()) // 2)
        # again: nothing is left to change (the global level is then zero as well)
        if subtract or rng.random() < .5:
            again = M01.run(c, f, method, down, subtract)
            lonely = "match" in method.lower() and not all(linked) or len(set(np.array(comp)[linked])) > 1
            if not lonely and valid and all(valid):
                want2 = [0.0] * len(again)
                if method.lower() == "global" and not subtract:
                    want2 = again  # every image keeps its own level
                    spread = max(again) - min(again)
                    c.check(spread <= tol, "again_global", f"{again}")
                    c.check(abs(again[0]) <= tol, "again", f"second run changes the sky by {again} ({method})")
                elif method.lower() != "global":
                    c.check(max(abs(np.array(again) - want2)) <= 2 * tol, "again", f"second run changes the sky by {again} ({method}, subtract {subtract})")
            c.count("repeats")
        c.count("dead_images", sum(f.dead))
        c.count("islands", int(len(set(f.island)) > 1))
        c.state(method.lower(), down, subtract, len(f.items), len(f.images), len(set(f.island)), sum(f.dead) > 0)
        c.describe(method=method, down=down, subtract=subtract, items=f.member, levels=f.levels.tolist(), dead=f.dead)

    @staticmethod
    def equations(c):
        """Noisy mosaics: the differences solve the weighted least squares problem of the overlaps; order of inputs is immaterial."""
        rng = c.rng
        f = Field(c, noise=float(rng.uniform(.5, 5)))
        subtract, down = bool(rng.random() < .5), bool(rng.random() < .5)
        try:
            comp, link, eq = M01.components(f.items)
        except Exception as e:
            if "olygon" in repr(e) or "edges" in repr(e):
                raise Skip() from None
            raise
        if not eq:
            raise Skip()
        keep = [im.image.copy() for im in f.images]
        got = M01.run(c, f, "match", down, subtract)
        x = np.array([got[m[0]] for m in f.member])
        n = len(x)
        grad, size = np.zeros(n), np.zeros(n)
        for i, j, a, b, w in eq:
            r = w * w * ((x[i] - x[j]) - (a - b))
            grad[i] += r
            grad[j] -= r
            size[[i, j]] += w * w * (abs(x[i] - x[j]) + abs(a - b) + 1)
        c.check(bool(np.all(np.abs(grad) <= 1e-5 * size)), "not_least_squares", f"normal equations {grad / size} for {len(eq)} overlaps, differences {x}")
        linked = link.any(axis=1)
        v = x[linked]
        c.check(abs(v.min() if down else v.max()) <= 1e-6 * (1 + np.abs(v).max()), "reference", f"differences {v} matched {'down' if down else 'up'}")
        c.check(bool(np.all(x[~linked] == 0)), "lonely", f"images without overlap change by {x[~linked]}")
        c.count("equations", len(eq))
        # other order, same data
        for im, k in zip(f.images, keep):
            im.image[...] = k
        for it in f.items:
            it.sky = 0.0
        p = [int(i) for i in rng.permutation(n)]
        c.call(match, c, [f.items[i] for i in p], "match", down, subtract)
        y = np.array([it.sky for it in f.items])
        for i in range(n):
            for j in range(i):
                if linked[i] and linked[j] and comp[i] == comp[j]:
                    c.check(abs((x[i] - x[j]) - (y[i] - y[j])) <= 1e-4 * (1 + np.abs(x).max()), "order", f"difference {x[i] - x[j]}, {y[i] - y[j]} with the inputs in order {p}")
        c.count("orders")
        c.state("equations", n, len(eq), subtract, down, len(f.images))
        c.describe(items=f.member, equations=len(eq), down=down, subtract=subtract)

    @staticmethod
    def refusals(c):
        """Invalid calls are refused before anything changes."""
        rng = c.rng
        from stcal.skymatch import skymatch

        f = Field(c)
        before = [im.image.copy() for im in f.images]
        kind = int(rng.integers(0, 3))
        items, method, exc = list(f.items), "match", ValueError
        if kind == 0:
            method = "median"
        elif kind == 1:
            items = []
        else:
            items.insert(int(rng.integers(0, len(items) + 1)), np.zeros((3, 3)))
            exc = TypeError
        try:
            skymatch(items, method, subtract=True)
        except exc:
            pass
        except Exception as e:
            c.fail("refusal_type", f"{e!r} instead of {exc.__name__}", abort=False)
        else:
            c.fail("not_refused", f"call of kind {kind} accepted", abort=False)
        c.check(all(np.array_equal(im.image, b, equal_nan=True) and im.sky == 0 for im, b in zip(f.images, before)), "refused_but_changed", "a refused call changed an image")
        try:
            make(f.skies[0], np.zeros((4, 5)), np.ones((5, 4), bool), np.mean)
        except ValueError:
            pass
        else:
            c.fail("mask_shape", "mask of another shape accepted", abort=False)
        c.state("refusals", kind)
        c.describe(kind=kind)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [("levels", 260 * k, M01.levels), ("equations", 110 * k, M01.equations), ("refusals", 30, M01.refusals)]


CHECKS = {"M01": M01, "M02": M02}
