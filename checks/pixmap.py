"""A04: pixel maps and the geometry helpers resampling rests on."""
import warnings

import numpy as np

from .lib import wcsgen
from .outlier import snapshot


class Broken(Exception):
    pass


class Wcs:
    """A coordinate system object (shared WCS interface only) around a `Sky`: counts calls, can fail or return holes."""

    def __init__(self, sky, bbox="same", hole=None, fail_at=None):
        self.sky, self.hole, self.fail_at, self.calls = sky, hole, fail_at, 0
        self.bounding_box = sky.bbox if bbox == "same" else bbox
        self.array_shape = sky.shape
        self.pixel_shape = sky.shape[::-1]
        self.output_frame = type("F", (), {"axes_type": ("SPATIAL", "SPATIAL"), "naxes": 2})()

    def _tick(self):
        self.calls += 1
        if self.fail_at is not None and self.calls >= self.fail_at:
            raise Broken("transform failed")

    def _outside(self, x, y):
        if self.bounding_box is None:
            return np.zeros(np.shape(x), bool)
        (x0, x1), (y0, y1) = self.bounding_box
        return ~((x >= x0) & (x <= x1) & (y >= y0) & (y <= y1))

    def pixel_to_world_values(self, x, y):
        self._tick()
        x, y = np.asarray(x, float), np.asarray(y, float)
        ra, dec = self.sky.p2w(x, y)
        bad = self._outside(x, y)
        if self.hole is not None:
            bad = bad | self.hole(x, y)
        return np.where(bad, np.nan, ra), np.where(bad, np.nan, dec)

    __call__ = pixel_to_world_values

    def world_to_pixel_values(self, ra, dec):
        self._tick()
        x, y = self.sky.w2p(ra, dec)
        bad = self._outside(x, y)
        return np.where(bad, np.nan, x), np.where(bad, np.nan, y)


def boxes(rng, shape):
    ny, nx = shape
    k = int(rng.integers(0, 6))
    if k == 0:
        return None
    if k == 1:
        return ((-0.5, nx - 0.5), (-0.5, ny - 0.5))
    if k == 2:  # inside
        a, b = np.sort(rng.uniform(-0.5, nx - 0.5, 2)), np.sort(rng.uniform(-0.5, ny - 0.5, 2))
        return (tuple(map(float, a)), tuple(map(float, b)))
    if k == 3:  # larger than the image
        return ((-5.0, nx + 7.5), (-3.25, ny + 2.0))
    if k == 4:  # integer limits
        a, b = np.sort(rng.integers(0, nx, 2)), np.sort(rng.integers(0, ny, 2))
        return (tuple(map(float, a)), tuple(map(float, b)))
    return ((-0.5, float(rng.uniform(nx * .6, nx + 3))), (float(rng.uniform(-3, ny * .4)), ny - 0.5))


def box_of(w):
    b = w.bounding_box
    if b is None:
        return None
    try:
        b = b.bounding_box(order="F")
    except AttributeError:
        pass
    return tuple(tuple(float(v) for v in i) for i in b)


def truth(fro, to, shape, fbox, tbox, disable):
    y, x = np.indices(shape, dtype=float)
    ox, oy = to.w2p(*fro.p2w(x, y))
    bad = np.zeros(shape, bool)
    if fbox is not None and disable not in ("from", "both"):
        (x0, x1), (y0, y1) = fbox
        bad |= ~((x >= x0) & (x <= x1) & (y >= y0) & (y <= y1))
    if tbox is not None and disable not in ("to", "both"):
        (x0, x1), (y0, y1) = tbox
        bad |= ~((ox >= x0) & (ox <= x1) & (oy >= y0) & (oy <= y1))
    return ox, oy, bad


def sup(a, n, axis):
    """Largest n-th derivative along an axis, from differences."""
    if a.shape[axis] <= n:
        return 0.0
    return float(np.abs(np.diff(a, n=n, axis=axis)).max())


def bound(m, step, order, extent):
    """Interpolation error bound for samples no further apart than the step (or a tenth of the image)."""
    out = 0.0
    for axis, n in ((1, extent[1]), (0, extent[0])):
        h = min(step, n / 10) * 10 / 9 if n > 10 else 1.0
        if order == 1:
            out += h ** 2 / 8 * sup(m, 2, axis) * 1.3
        else:
            out += .2 * h ** 4 * sup(m, 4, axis)
    return out + 2e-6 * (1 if order == 1 else 4)


def compare(c, pm, fro, to, shape, fbox, tbox, disable, step, order, eff, lenient=False):
    c.check(pm.shape == (*shape, 2), "shape", f"map shape {pm.shape} for image {shape}")
    ox, oy, bad = truth(fro, to, shape, fbox, tbox, disable)
    fin = np.isfinite(pm).all(axis=-1)
    if step == 1:
        near = np.zeros(shape, bool)
        if tbox is not None and disable not in ("to", "both"):  # positions within rounding of the output box edge
            for v, lim in ((ox, tbox[0]), (oy, tbox[1])):
                near |= (np.abs(v - lim[0]) < 1e-5) | (np.abs(v - lim[1]) < 1e-5)
        if lenient:  # gwcs itself also drops sky positions outside a lon/lat rectangle around its footprint
            near |= ~fin
        c.check(not np.any((fin == bad) & ~near), "defined_where", f"finite map {int(fin.sum())} pixels, expected {int((~bad).sum())}")
    else:
        c.check(lenient or not np.any(~fin & ~bad), "undefined_inside", f"{int((~fin & ~bad).sum())} pixels inside the bounding boxes undefined")
        if fbox is not None and disable not in ("from", "both"):
            fb = truth(fro, to, shape, fbox, None, disable)[2]
            c.check(not np.any(fin & fb), "defined_outside", f"{int((fin & fb).sum())} pixels outside the input bounding box defined")
    for k, (got, want) in enumerate(((pm[..., 0], ox), (pm[..., 1], oy))):
        ok = fin & ~bad
        if not ok.any():
            continue
        tol = 1e-5 if step == 1 else bound(want, step, order, eff) + 1e-5
        err = float(np.abs(got - want)[ok].max())
        c.check(err <= tol, f"position:{'exact' if step == 1 else 'order%d' % order}",
                f"axis {k}: off by {err:.3g} px (allowed {tol:.3g}), step {step}, order {order}, shape {shape}, box {fbox}")
        c.count("pixels_compared", int(ok.sum()))
        if step > 1 and tol < .05:
            c.count("tight_pixels", int(ok.sum()))


def effective(shape, fbox, disable):
    if fbox is None or disable in ("from", "both"):
        return shape
    (x0, x1), (y0, y1) = fbox
    nx = min(shape[1] - 1, np.floor(x1)) - max(0, np.ceil(x0)) + 1
    ny = min(shape[0] - 1, np.floor(y1)) - max(0, np.ceil(y0)) + 1
    return int(ny), int(nx)


class A04:
    PID = "A04"
    RULE = ("random pairs of coordinate systems (anywhere on the sky, rotated, flipped, distorted; gwcs objects and plain WCS-interface "
            "objects), shapes 1-400, steps 1-40, orders 1 and 3, all bounding-box settings, boxes inside/around/off the image, undefined "
            "regions, transforms failing at the first or a later call; distinct = (kind, step class, order, box setting, outcome)")
    ASSUMPTIONS = ["the accuracy promised by a step is the interpolation error bound for samples no further apart than the step (a tenth of "
                   "the image at most), from the derivatives of the exact map"]
    REQUIRE = {"pixels_compared": 100000, "tight_pixels": 30000, "failures_injected": 40, "systems_untouched": 200, "areas": 60,
               "ranges": 200, "hole_maps": 20, "weights": 60}

    @staticmethod
    def pair(c, big):
        rng = c.rng
        lim = (1, 30) if not big else (12, 300)
        shp = int(rng.integers(*lim)), int(rng.integers(*lim))
        fro = wcsgen.random_sky(rng, shp, distort=True)
        if big and rng.random() < .5:  # strong distortion
            fro = fro.moved(dist=tuple(rng.uniform(-1, 1, 2) * 10 ** rng.uniform(-4, -3)))
        to = wcsgen.near(rng, fro)
        return fro, to, shp

    @staticmethod
    def maps(c):
        from stcal.resample.utils import calc_pixmap

        rng = c.rng
        fro, to, shp = A04.pair(c, c.idx % 2 == 1)
        fbox, tbox = boxes(rng, shp), boxes(rng, to.shape)
        fro, to = fro.moved(bbox=fbox), to.moved(bbox=tbox)
        disable = str(rng.choice(["to", "to", "from", "both", "none"]))
        plain = rng.random() < .5
        a, b = (Wcs(fro), Wcs(to)) if plain else (fro.gwcs(), to.gwcs())
        eff = effective(shp, fbox, disable)
        if min(eff) < 1:
            eff = (1, 1)
        s0 = None if plain else (snapshot(a), snapshot(b))
        b0 = box_of(a), box_of(b)
        for step, order in ((1, 1), (int(rng.integers(2, 40)), 1), (int(rng.integers(2, 40)), 3)):
            if step > 1 and min(effective(shp, fbox, disable)) < 1:
                continue
            kw = dict(stepsize=step, order=order)
            if rng.random() < .5 or shp != a.array_shape:
                kw["shape"] = shp
            if disable != "to" or rng.random() < .5:
                kw["disable_bbox"] = disable
            pm = c.call(calc_pixmap, a, b, **kw)
            compare(c, pm, fro, to, shp, fbox, tbox, disable, step, order, eff,
                    lenient=not plain and tbox is not None and disable not in ("to", "both"))
            c.state("plain" if plain else "gwcs", min(step, 4), order, disable, fbox is None, tbox is None)
            c.check((box_of(a), box_of(b)) == b0, "box_changed", f"bounding boxes {b0} became {(box_of(a), box_of(b))}")
            if s0:
                c.check(s0 == (snapshot(a), snapshot(b)), "system_changed", "a coordinate system was modified")
            c.check(a.array_shape == shp, "array_shape_changed", f"{a.array_shape}")
            c.count("systems_untouched", 2)
        c.describe(shape=shp, disable=disable, fbox=fbox, tbox=tbox, plain=plain)

    @staticmethod
    def inferred(c):
        """Shape from the bounding box when the system has none; explicit shapes take precedence; neither is an error."""
        from stcal.resample.utils import calc_pixmap

        fro, to, shp = A04.pair(c, False)
        a, b = (Wcs(fro), Wcs(to)) if c.idx % 2 else (fro.gwcs(), to.gwcs())
        b.bounding_box = None
        a.array_shape = None
        pm = c.call(calc_pixmap, a, b)
        compare(c, pm, fro, to, shp, fro.bbox, None, "to", 1, 1, shp)
        a.bounding_box = None
        try:
            calc_pixmap(a, b)
        except ValueError:
            c.count("refused")
        else:
            c.fail("no_shape_accepted", "no shape, no bounding box, yet no error", abort=False)
        other = int(c.rng.integers(1, 40)), int(c.rng.integers(1, 40))
        a.array_shape = shp
        pm = c.call(calc_pixmap, a, b, shape=other)
        compare(c, pm, fro, to, other, None, None, "to", 1, 1, other)
        c.state("inferred", c.idx % 2)

    @staticmethod
    def faults(c):
        from stcal.resample.utils import calc_pixmap

        rng = c.rng
        fro, to, shp = A04.pair(c, c.idx % 2 == 1)
        at = int(rng.integers(1, 3))
        which = int(rng.integers(0, 2))
        a = Wcs(fro, boxes(rng, shp), fail_at=1 if which == 0 else None)
        b = Wcs(to, boxes(rng, to.shape), fail_at=1 if which else None)
        if which == 0 and at == 2:
            a.fail_at = 1
        b0 = a.bounding_box, b.bounding_box
        disable = str(rng.choice(["to", "from", "both", "none"]))
        step = int(rng.choice([1, 1, 3, 20]))
        if step > 1 and min(effective(shp, b0[0], disable)) < 1:
            step = 1
        try:
            calc_pixmap(a, b, shape=shp, disable_bbox=disable, stepsize=step, order=int(rng.choice([1, 3])))
        except Broken:
            c.count("failures_injected")
        else:
            c.fail("failure_swallowed", "a failing transform did not surface", abort=False)
        c.check(box_of(a) == b0[0] and box_of(b) == b0[1], "box_lost_on_failure",
                f"after a failure boxes {b0} became {(box_of(a), box_of(b))} ({disable}, step {step})")
        if step > 1:
            a = Wcs(fro, boxes(rng, shp))
            b = Wcs(to, boxes(rng, to.shape))
            b0 = a.bounding_box, b.bounding_box
            e = effective(shp, b0[0], disable)
            if max(e) > 10 and min(e) > 3:
                try:
                    calc_pixmap(a, b, shape=shp, disable_bbox=disable, stepsize=step, order=2)
                except ValueError:
                    c.count("refused")
                else:
                    c.fail("order_accepted", "order 2 accepted", abort=False)
                c.check(box_of(a) == b0[0] and box_of(b) == b0[1], "box_lost_on_failure", "bounding boxes lost after a refused order")
        c.state("fault", which, disable, min(step, 4))

    @staticmethod
    def holes(c):
        """The input system is undefined in part of the image although no bounding box says so."""
        from stcal.resample.utils import calc_pixmap

        rng = c.rng
        fro, to, shp = A04.pair(c, c.idx % 2 == 1)
        edge = rng.uniform(.1, .9) * shp[1]
        side = rng.random() < .5
        a = Wcs(fro, None, hole=(lambda x, y: x > edge) if side else (lambda x, y: x < edge))
        b = Wcs(to, boxes(rng, to.shape))
        step = int(rng.choice([1, 2, 7, 20]))
        pm = c.call(calc_pixmap, a, b, shape=shp, stepsize=step, order=int(rng.choice([1, 3])))
        ox, oy, _ = truth(fro, to, shp, None, None, "both")
        bad = a.hole(*np.indices(shp)[::-1])
        fin = np.isfinite(pm).all(axis=-1)
        c.check(np.array_equal(fin, ~bad), "hole_positions", f"{int((fin == bad).sum())} pixels defined where they should not be or the reverse (step {step})")
        if (fin & ~bad).any():
            err = max(np.abs(pm[..., 0] - ox)[fin & ~bad].max(), np.abs(pm[..., 1] - oy)[fin & ~bad].max())
            tol = 1e-5 if step == 1 else 1e-5 + max(bound(v, step, 1, shp) for v in (ox, oy))
            c.check(err <= tol, "position:hole", f"off by {err:.3g} px (allowed {tol:.3g})")
        c.count("hole_maps")
        c.state("hole", side, min(step, 4))

    # -------------------------------------------------------------- helpers
    @staticmethod
    def areas(c):
        from stcal.resample.utils import compute_mean_pixel_area

        rng = c.rng
        shp = int(rng.integers(3, 120)), int(rng.integers(3, 120))
        sky = wcsgen.random_sky(rng, shp)
        sky = sky.moved(dist=tuple(rng.uniform(-1, 1, 2) * 1e-5), bbox=boxes(rng, shp))
        if sky.bbox is not None:
            sky = sky.moved(bbox=((min(sky.bbox[0][0], shp[1] * .3), max(sky.bbox[0][1], shp[1] * .3 + 3.0)),
                                  (min(sky.bbox[1][0], shp[0] * .3), max(sky.bbox[1][1], shp[0] * .3 + 3.0))))
        kind = int(rng.integers(0, 3))
        lo = 0  # tiny fields: rounding of the spherical polygon area is about 1e-15 sr in total
        if kind == 0:
            w = sky.gwcs()
        elif kind == 1:
            w = Wcs(sky)
        else:  # rows undefined at the bottom
            lo = int(rng.integers(0, max(1, min(shp) // 4)))  # the edges are trimmed alternately
            w = Wcs(sky, hole=lambda x, y: y < lo)
            if sky.bbox is not None:
                w.bounding_box = sky.bbox = None
            if shp[0] - lo < 4:
                lo = 0
        s0 = snapshot(w) if kind == 0 else w.bounding_box
        kw = {} if rng.random() < .5 else {"shape": shp}
        got = c.call(compute_mean_pixel_area, w, **kw)
        c.check(s0 == (snapshot(w) if kind == 0 else w.bounding_box), "area_changed_system", "computing the area changed the system")
        (x0, x1), (y0, y1) = sky.bbox or ((-0.5, shp[1] - .5), (-0.5, shp[0] - .5))
        x0, x1, y0, y1 = max(0, x0), min(shp[1] - 1, x1), max(0, y0, lo), min(shp[0] - 1, y1)
        if x1 - x0 < 3 or y1 - y0 < 3:
            return
        gx, gy = np.meshgrid(np.linspace(x0, x1, 9), np.linspace(y0, y1, 9))
        e = .05
        p = [wcsgen.unit(*sky.p2w(gx + dx, gy + dy)) for dx, dy in ((-e, 0), (e, 0), (0, -e), (0, e))]
        cell = np.linalg.norm(np.cross((p[1] - p[0]) / (2 * e), (p[3] - p[2]) / (2 * e)), axis=-1)
        want = float(cell.mean())
        spread = float(cell.max() / cell.min() - 1)
        c.check(got is not None and abs(got / want - 1) < 2e-3 + spread + 2e-14 / (want * (x1 - x0) * (y1 - y0)), "mean_area", f"{got!r} sr, mean Jacobian {want!r} (spread {spread:.2g}), {shp} {sky.bbox}")
        c.count("areas")
        c.state("area", kind, sky.bbox is None)

    @staticmethod
    def ranges(c):
        from stcal.resample.utils import resample_range

        rng = c.rng
        shp = int(rng.integers(1, 50)), int(rng.integers(1, 50))
        for _ in range(8):
            bb = boxes(rng, shp)
            x0, x1, y0, y1 = c.call(resample_range, shp, bb)
            for lo, hi, n, b in ((x0, x1, shp[1], bb and bb[0]), (y0, y1, shp[0], bb and bb[1])):
                i = np.arange(n)
                want = i if b is None else i[(i >= b[0]) & (i <= b[1])]
                c.check(0 <= lo <= hi <= n - 1 and all(isinstance(v, (int, np.integer)) for v in (lo, hi)), "range_outside", f"{lo}..{hi} for {n} pixels, box {b}")
                if len(want):
                    c.check(lo <= want[0] and hi >= want[-1], "range_misses_pixels", f"{lo}..{hi} misses pixels of {want[0]}..{want[-1]} (box {b})")
                if b is not None and b[1] > -.5 and b[0] < n - .5:
                    c.check((lo == 0 or lo > b[0] - 1) and (hi == n - 1 or hi < b[1] + 1), "range_too_wide", f"{lo}..{hi} for box {b} of {n}")
            c.count("ranges")
        c.state("range", shp[0] == 1, shp[1] == 1)

    @staticmethod
    def weights(c):
        from stcal.resample.utils import build_driz_weight

        rng = c.rng
        shp = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        names = {"DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "HOT": 1024}
        dq = np.zeros(shp, np.uint32)
        for v in (1, 2, 4, 8, 1024, 2 ** 31):
            dq[rng.random(shp) < .12] |= np.uint32(v)
        var = rng.uniform(.1, 9, shp).astype(np.float32)
        for bad in (0.0, np.nan, np.inf):
            var[rng.random(shp) < .08] = bad
        sky = rng.uniform(.1, 9, shp).astype(np.float32)
        m = {"data": np.zeros(shp, np.float32), "dq": dq.copy(), "var_rnoise": var.copy(), "var_sky": sky.copy(),
             "exposure_time": 12.5, "measurement_time": [None, 7.25][int(rng.integers(0, 2))]}
        wt = [None, "ivm", "ivm-sky", "exptime"][int(rng.integers(0, 4))]
        miss = rng.random() < .3
        if miss:
            for k in ("var_rnoise", "var_sky"):
                q = int(rng.integers(0, 3))
                if q == 0:
                    del m[k]
                else:
                    m[k] = None if q == 1 else np.ones((2, 17), np.float32)
            if rng.random() < .5:
                del m["measurement_time"]
        gb, mask = [(None, None), (0, 0), (6, 6), ("2+4", 6), ("4,1024", 1028), ("~1", ~1), ("JUMP_DET,HOT", 1028),
                    ("~DO_NOT_USE", ~1), ("JUMP_DET|SATURATED", 6)][int(rng.integers(0, 9))]
        keep = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = c.call(build_driz_weight, m, weight_type=wt, good_bits=gb, flag_name_map=names)
        good = np.ones(shp, bool) if gb is None else (dq.astype(np.int64) & ~np.int64(mask)) == 0
        w = np.ones(shp)
        if wt in ("ivm", "ivm-sky") and not miss:
            v = (var if wt == "ivm" else sky).astype(np.float64)
            with np.errstate(all="ignore"):
                w = np.where(np.isfinite(v) & (v != 0), 1 / v, 0)
        elif wt == "exptime":
            w = np.full(shp, m.get("measurement_time") or 12.5)
        c.check(got.dtype == np.float32 and got.shape == shp, "weight_type", f"{got.dtype} {got.shape}")
        c.close_to(got.astype(float), np.where(good, w, 0), "weight", 1e-5, 0, f"type {wt} good_bits {gb!r} missing {miss}")
        for k, v in keep.items():
            c.check(np.array_equal(v, m[k], equal_nan=True) if isinstance(v, np.ndarray) else m[k] == v, "weight_modified_input", k)
        c.count("weights")
        c.state("weight", wt, str(gb), miss)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 25
        return [("maps", 170 * k, A04.maps), ("inferred", 30 * k, A04.inferred), ("faults", 90 * k, A04.faults), ("holes", 40 * k, A04.holes),
                ("areas", 100 * k, A04.areas), ("ranges", 60 * k, A04.ranges), ("weights", 120 * k, A04.weights)]


CHECKS = {"A04": A04}
