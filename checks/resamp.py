"""A01, A02, A03: resampling: products, variances, histories."""
import logging
import os
import warnings

import numpy as np

from vp.core import Skip

from .lib import wcsgen
from .outlier import snapshot
from .pixmap import Broken, Wcs

logging.getLogger("stcal.resample").setLevel(logging.ERROR)
KERNELS = ("square", "square", "square", "turbo", "point", "gaussian", "lanczos2", "lanczos3")
VARS = ("var_rnoise", "var_flat", "var_poisson")


def out_sky(rng, shape=None):
    shape = shape or (int(rng.integers(3, 26)), int(rng.integers(3, 26)))
    return wcsgen.random_sky(rng, shape, distort=False)


class Scene:
    """An output grid and inputs around it; exposures share group times; scale of the sky as in the output grid."""

    def __init__(self, rng, n=None, lim=(4, 16), bbox=False, plain=None, out=None):
        self.rng = rng
        self.out = out_sky(rng, out and (int(rng.integers(*out)), int(rng.integers(*out))))
        n = n or int(rng.choice([1, 2, 3, 4, 6]))
        self.plain = rng.random() < .5 if plain is None else plain
        s0 = np.sqrt(abs(np.linalg.det(self.out.m)))
        self.skies, self.models = [], []
        ratio = rng.uniform(.5, 1.8)
        rot = rng.uniform(0, 360)
        times = {}
        for i in range(n):
            shp = int(rng.integers(*lim)), int(rng.integers(*lim))
            ny, nx = self.out.shape
            cx, cy = rng.uniform(-1, nx), rng.uniform(-1, ny)
            ra, dec = self.out.p2w(cx, cy)
            m = wcsgen.matrix(s0 / ratio, rot + rng.uniform(-180, 180) * (rng.random() < .5), int(rng.choice([-1, 1])))
            sky = wcsgen.Sky(((shp[1] - 1) / 2 + rng.uniform(-1, 1), (shp[0] - 1) / 2 + rng.uniform(-1, 1)), (float(ra), float(dec)), m, shp)
            if bbox:
                a, b = sorted(rng.uniform(-.5, shp[1] - .5, 2)), sorted(rng.uniform(-.5, shp[0] - .5, 2))
                if a[1] - a[0] > 3 and b[1] - b[0] > 3:
                    sky = sky.moved(bbox=((float(a[0]), float(a[1])), (float(b[0]), float(b[1]))))
            g = f"group{int(rng.integers(0, max(1, n)))}"
            if g not in times:
                t0 = float(rng.uniform(0, 1000))
                times[g] = dict(start_time=t0, end_time=t0 + float(rng.uniform(1, 500)), exposure_time=float(rng.uniform(1, 300)),
                                duration=float(rng.uniform(1, 400)), measurement_time=float(rng.uniform(1, 300)))
            data = rng.normal(5, 20, shp).astype(np.float32)
            dq = np.zeros(shp, np.uint32)
            for v, p in ((1, .06), (2, .05), (4, .08), (1 << 20, .03)):
                dq[rng.random(shp) < p] |= np.uint32(v)
            mod = {"data": data, "dq": dq, "filename": f"f{i}", "group_id": g, "bunit_data": "MJy", "wcs": Wcs(sky) if self.plain else sky.gwcs(),
                   "level": float(rng.normal(0, 10)) if rng.random() < .6 else None, "subtracted": bool(rng.random() < .3),
                   "pixelarea_steradians": float(np.deg2rad(s0 / ratio) ** 2), **times[g]}
            for k, p in zip((*VARS, "var_sky"), (3, 1, 5, 2)):
                v = rng.uniform(.2, 3, shp) * p
                v[rng.random(shp) < .04] = 0
                if k != "var_sky" and rng.random() < .4:
                    v[rng.random(shp) < .05] = np.nan
                mod[k] = v.astype(np.float32)
            mod["err"] = np.sqrt(rng.uniform(.5, 4, shp)).astype(np.float32)
            self.skies.append(sky)
            self.models.append(mod)
        self.ratio = ratio
        self.wcs = Wcs(self.out) if self.plain else self.out.gwcs()
        self.scale = float(s0 * 3600)

    def config(self, **kw):
        rng = self.rng
        c = dict(pixfrac=float(rng.choice([1.0, 1.0, .7, .3])), kernel=str(rng.choice(KERNELS)), weight_type=str(rng.choice(["ivm", "ivm-sky", "exptime"])),
                 fillval=[0.0, -7.5, np.nan, None, "INDEF", "3.5"][int(rng.integers(0, 6))],
                 good_bits=[0, 4, None, "~1", "JUMP,SAT"][int(rng.integers(0, 5))], enable_ctx=bool(rng.random() < .8),
                 propagate_dq=bool(rng.random() < .4))
        c.update(kw)
        return c


def in_range(sky):
    (x0, x1), (y0, y1) = sky.bbox
    return dict(xmin=max(0, int(x0 + .5)), xmax=max(0, min(sky.shape[1] - 1, int(x1 + .5))),
                ymin=max(0, int(y0 + .5)), ymax=max(0, min(sky.shape[0] - 1, int(y1 + .5))))


def library_survives(s, cfg):
    """The installed resampling library crashes on rare geometries, and drops parts of inputs on others: try them in a child process first."""
    from drizzle.resample import Drizzle

    maps = [exact_map(sky, s.out) for sky in s.skies]
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            warnings.simplefilter("ignore")
            ok = True
            for d in (0, 1e-4, -1e-4, 1e-3, -1e-3):
                z = Drizzle(kernel=cfg["kernel"], out_shape=s.out.shape, disable_ctx=True)
                for pm, sky in zip(maps, s.skies):
                    if d == 0:
                        z = Drizzle(kernel=cfg["kernel"], out_shape=s.out.shape, disable_ctx=True)
                    z.add_image(**in_range(sky), data=np.ones(pm.shape[:2], np.float32), exptime=1.0, pixmap=pm + d, pixfrac=cfg["pixfrac"], pixel_scale_ratio=1.0)
                    if d == 0 and cfg["kernel"] == "square":
                        ok = ok and whole(z.out_wht, sky, s.out, cfg["pixfrac"])
            code = 0 if ok else 2
        finally:
            os._exit(code)
    if os.waitpid(pid, 0)[1] != 0:
        raise Skip()


def whole(wht, sky, out, pixfrac):
    """Whether the library dropped all of a uniform input away from the edges where it should."""
    y, x = np.indices(sky.shape, dtype=float)
    b = sky.bbox
    ins = (x >= b[0][0]) & (x <= b[0][1]) & (y >= b[1][0]) & (y <= b[1][1])
    near = ins & border(~ins)
    W, amb = np.zeros(out.shape), np.zeros(out.shape, bool)
    for iy, ix, oy, ox, share, edge in footprint(sky, out, pixfrac, ins):
        W[oy, ox] += share
        amb[oy, ox] |= edge or near[iy, ix]
    return bool(np.all(amb | (np.abs(W - wht) <= 2e-3 * W + 2e-4)))


def border(k):
    k = np.pad(k, 1, mode="edge")
    return np.logical_or.reduce([k[1 + a:k.shape[0] - 1 + a, 1 + e:k.shape[1] - 1 + e] for a in (-1, 0, 1) for e in (-1, 0, 1)])


BITS = {0: ~0, 4: ~4, None: 0, "~1": 1, "JUMP,SAT": ~6}  # flags that make a pixel bad


def copy(m):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in m.items()}


def machine(scene, cfg, n=None, scale=True, cls=None):
    from stcal.resample import Resample

    class R(Resample):
        dq_flag_name_map = {"DNU": 1, "SAT": 2, "JUMP": 4}

    ow = {"wcs": scene.wcs}
    if scale:
        ow["pixel_scale"] = scene.scale
    return (cls or R)(ow, n_input_models=n, **cfg)


def good(m, cfg):
    return (m["dq"].astype(np.int64) & BITS[cfg["good_bits"]]) == 0


def weight(m, cfg):
    t = cfg["weight_type"]
    if t == "exptime":
        w = np.full(m["data"].shape, m["measurement_time"] if m.get("measurement_time") is not None else m["exposure_time"])
    else:
        v = m.get("var_rnoise" if t == "ivm" else "var_sky")
        if v is None or v.shape != m["data"].shape:
            w = np.ones(m["data"].shape)
        else:
            with np.errstate(all="ignore"):
                w = np.where(np.isfinite(v) & (v != 0), 1 / v.astype(float), 0)
    return np.where(good(m, cfg), w, 0).astype(np.float32)


def data_of(m):
    return m["data"] if m["subtracted"] or m["level"] is None else m["data"] - np.float32(m["level"])


def exact_map(sky, out):
    y, x = np.indices(sky.shape, dtype=float)
    px, py = out.w2p(*sky.p2w(x, y))
    b = sky.bbox
    bad = ~((x >= b[0][0]) & (x <= b[0][1]) & (y >= b[1][0]) & (y <= b[1][1]))
    px, py = np.where(bad, np.nan, px), np.where(bad, np.nan, py)
    return np.dstack([px, py])


# ------------------------------------------------------------- independent square-kernel drizzle
def clip(poly, axis, lim, keep_above):
    out = []
    n = len(poly)
    for i in range(n):
        p, q = poly[i], poly[(i + 1) % n]
        a, b = (p[axis] - lim, q[axis] - lim) if keep_above else (lim - p[axis], lim - q[axis])
        if a >= 0:
            out.append(p)
        if (a > 0 > b) or (a < 0 < b):
            t = a / (a - b)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def poly_area(p):
    s = 0.0
    for i in range(len(p)):
        a, b = p[i], p[(i + 1) % len(p)]
        s += a[0] * b[1] - a[1] * b[0]
    return abs(s) / 2


def footprint(sky, out, pixfrac, mask):
    """Share of each input pixel dropped on each output pixel: list of (iy, ix, oy, ox, share, near the edge)."""
    h = pixfrac / 2
    ny, nx = out.shape
    res = []
    ys, xs = np.nonzero(mask)
    if not len(ys):
        return res
    cx, cy = out.w2p(*sky.p2w(xs[:, None] + np.array([-h, h, h, -h]), ys[:, None] + np.array([-h, -h, h, h])))
    for k in range(len(ys)):
        quad = list(zip(cx[k].tolist(), cy[k].tolist()))
        a = poly_area(quad)
        edge = cx[k].min() < 1 or cy[k].min() < 1 or cx[k].max() > nx - 2 or cy[k].max() > ny - 2
        for ox in range(max(0, int(np.floor(cx[k].min() + .5))), min(nx - 1, int(np.floor(cx[k].max() + .5))) + 1):
            p1 = clip(clip(quad, 0, ox - .5, True), 0, ox + .5, False)
            if len(p1) < 3:
                continue
            for oy in range(max(0, int(np.floor(cy[k].min() + .5))), min(ny - 1, int(np.floor(cy[k].max() + .5))) + 1):
                p2 = clip(clip(p1, 1, oy - .5, True), 1, oy + .5, False)
                if len(p2) >= 3:
                    s = poly_area(p2) / a
                    if s > 0:
                        res.append((ys[k], xs[k], oy, ox, s, edge))
    return res


def ctx_bits(con, n, shape):
    out = np.zeros((n, *shape), bool)
    for i in range(n):
        if i // 32 < con.shape[0]:
            out[i] = (con[i // 32].astype(np.int64) >> (i % 32)) & 1
    return out


def filled(v):
    return np.nan if v in (None, "INDEF") else float(v)


class A01:
    PID = "A01"
    RULE = ("random output grids and 1-70 inputs anywhere around them (shifted, rotated, flipped, scaled), kernels, pixel fractions, weight "
            "types, flags, sky levels, bounding boxes, fill values; distinct = (kernel, weight type, flags option, fill, inputs, context, dq)")
    ASSUMPTIONS = ["input pixels next to positions without sky coordinates, or within a pixel of the edge of the output grid, may be dropped by the resampling library",
                   "the resampling library drops what it is given as its own reference says (also checked against polygon clipping for the square kernel)"]
    REQUIRE = {"output_pixels": 20000, "covered_pixels": 4000, "polygon_pixels": 2000, "many_inputs": 5, "uncovered_pixels": 3000, "weight_sums": 40, "dq_pixels": 300}

    @staticmethod
    def polygons(c):
        """Square kernel against exact polygon clipping."""
        rng = c.rng
        bbox = rng.random() < .3
        s = Scene(rng, n=int(rng.choice([1, 2, 3])), lim=(4, 11), bbox=bbox, out=(7, 26))
        cfg = s.config(kernel="square", enable_var=False, enable_ctx=True)
        library_survives(s, cfg)
        r = c.call(machine, s, cfg, len(s.models))
        nim = len(s.models)
        ny, nx = s.out.shape
        W, F, scale = np.zeros((ny, nx)), np.zeros((ny, nx)), np.zeros((ny, nx))
        hit, amb = np.zeros((nim, ny, nx)), np.zeros((ny, nx), bool)
        dqs, maybe = np.zeros((ny, nx), np.int64), np.zeros((ny, nx), np.int64)
        for i, (m, sky) in enumerate(zip(s.models, s.skies)):
            c.call(r.add_model, copy(m))
            w, d = weight(m, cfg).astype(float), data_of(m).astype(float)
            b = sky.bbox
            y, x = np.indices(sky.shape, dtype=float)
            ins = (x >= b[0][0]) & (x <= b[0][1]) & (y >= b[1][0]) & (y <= b[1][1])
            edge = np.zeros_like(ins)
            if not ins.all():
                edge = ins & border(~ins)
            for iy, ix, oy, ox, share, out in footprint(sky, s.out, cfg["pixfrac"], ins):
                if edge[iy, ix] or out:
                    amb[oy, ox] |= bool(w[iy, ix] > 0)
                    maybe[oy, ox] |= int(m["dq"][iy, ix])
                    continue
                ww = w[iy, ix] * share
                W[oy, ox] += ww
                F[oy, ox] += ww * d[iy, ix]
                scale[oy, ox] += ww * abs(d[iy, ix])
                hit[i, oy, ox] += ww
                if ww > 0 and share > 1e-3:
                    dqs[oy, ox] |= int(m["dq"][iy, ix])
                maybe[oy, ox] |= int(m["dq"][iy, ix])
        r.finalize()
        o = r.output_model
        judge = ~amb
        top = max(1e-30, float(W.max()))
        got_w = np.asarray(o["wht"], float)
        c.close_to(got_w, W, "weight", 2e-3, 3e-4 * top, "output weight", mask=judge)
        got, want = got_w[judge].sum(), W[judge].sum()
        c.check(abs(got - want) <= 3e-4 * want + 1e-6, "weight_total", f"total weight {got} of {want} dropped")
        c.count("weight_sums")
        cov = judge & (W > 3e-2 * top)
        with np.errstate(all="ignore"):
            c.close_to(np.where(cov, o["data"], 0), np.where(cov, F / W, 0), "mean", 3e-3, np.where(cov, 2e-2 * scale / np.where(W > 0, W, 1), 1), "weighted mean")
        none = judge & (W == 0) & (got_w == 0)
        fv = filled(cfg["fillval"])
        c.check(bool(np.all(np.isnan(o["data"][none])) if np.isnan(fv) else np.all(o["data"][none] == fv)), "fill", f"uncovered pixels are not {fv}")
        bits = ctx_bits(o["con"], nim, (ny, nx))
        c.check(not np.any((hit > 3e-3 * top) & ~bits), "context_missing", "a contributing input is not marked in the context")
        c.check(not np.any((hit == 0) & bits & judge & ~(got_w < 1e-6 * top)), "context_extra", "an input is marked where it contributed nothing")
        c.check(not np.any(o["con"] != 0) or o["con"].shape[0] == (nim + 31) // 32, "context_planes", f"{o['con'].shape} for {nim} inputs")
        if cfg["propagate_dq"]:
            q = np.asarray(o["dq"]).astype(np.int64)
            c.check(not np.any(dqs & ~q), "dq_missing", "flags of contributing pixels are missing")
            c.check(not np.any(q & ~maybe & -(judge.astype(np.int64))), "dq_extra", "flags no covering pixel has")
            c.count("dq_pixels", int((dqs != 0).sum()))
        c.count("polygon_pixels", int(cov.sum()))
        c.count("uncovered_pixels", int(none.sum()))
        c.state("square", cfg["weight_type"], str(cfg["good_bits"]), nim, bbox, cfg["propagate_dq"], str(cfg["fillval"]))
        c.describe(cfg={k: str(v) for k, v in cfg.items()}, inputs=nim, out=s.out.shape)

    @staticmethod
    def library(c, many=False):
        """Every kernel against the resampling library driven with independently computed maps, weights and ranges."""
        from drizzle.resample import Drizzle

        rng = c.rng
        bbox = rng.random() < .4
        s = Scene(rng, n=int(rng.choice([33, 40, 65])) if many else None, lim=(3, 7) if many else (4, 16), bbox=bbox)
        nim = len(s.models)
        cfg = s.config(enable_var=False, compute_err="driz_err" if rng.random() < .5 else None)
        ann = [None, nim, 1, nim + 3][int(rng.integers(0, 4))]
        kw = {}
        step = 1
        if rng.random() < .3:
            step = int(rng.integers(2, 6))
            kw = dict(pixmap_stepsize=step, pixmap_order=int(rng.choice([1, 3])))
        library_survives(s, cfg)
        r = c.call(machine, s, {**cfg, **kw}, ann)
        d = Drizzle(kernel=cfg["kernel"], fillval=cfg["fillval"], out_shape=s.out.shape, disable_ctx=not cfg["enable_ctx"],
                    out_dq=np.zeros(s.out.shape, np.uint32) if cfg["propagate_dq"] else None)
        e = Drizzle(kernel=cfg["kernel"], fillval=cfg["fillval"], out_shape=s.out.shape, disable_ctx=True)
        psr = s.scale / np.rad2deg(np.sqrt(s.models[0]["pixelarea_steradians"])) / 3600
        before = [snapshot(m["wcs"]) for m in s.models] if not s.plain else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for m, sky in zip(s.models, s.skies):
                mc = copy(m)
                c.call(r.add_model, mc)
                for k, v in m.items():
                    if isinstance(v, np.ndarray):
                        c.check(np.array_equal(v, mc[k], equal_nan=v.dtype.kind == "f"), "input_modified", k)
                rng_ = in_range(sky)
                args = dict(exptime=m["exposure_time"], pixmap=exact_map(sky, s.out), weight_map=weight(m, cfg), pixfrac=cfg["pixfrac"],
                            pixel_scale_ratio=psr, iscale=1.0, wht_scale=1.0, in_units="cps", **rng_)
                d.add_image(data_of(m), **args, **({"dq": m["dq"]} if cfg["propagate_dq"] else {}))
                e.add_image(m["err"], **args)
        if before:
            c.check(before == [snapshot(m["wcs"]) for m in s.models], "system_modified", "an input coordinate system was modified")
        r.finalize()
        o = r.output_model
        tag = "map" if step > 1 else cfg["kernel"]
        w, gw = np.asarray(d.out_wht, float), np.asarray(o["wht"], float)
        # single precision, and jumps of discontinuous kernels where a position sits on an edge
        sens = 2e-4 if step == 1 else 5e-3
        top = max(1e-30, float(np.abs(w).max()))
        tol = sens * top
        off = np.abs(gw - w) > tol + 1e-3 * np.abs(w)
        frac = float(off.mean())
        allowed = 0 if cfg["kernel"] in ("square", "turbo") and step == 1 and not bbox else .04 + 2 / off.size
        c.check(frac <= allowed, f"weights:{tag}", f"{int(off.sum())} of {off.size} output weights differ (kernel {cfg['kernel']}, step {step}, bbox {bbox})")
        cov = (np.abs(w) > 5e-2 * top) & ~off
        if cfg["kernel"].startswith("lanczos"):
            cov &= w > .2 * top
        sc = float(np.max([np.abs(data_of(m)).max() for m in s.models]))
        bad = cov & (np.abs(np.asarray(o["data"], float) - d.out_img) > sc * (2e-3 if step == 1 else 3e-2))
        c.check(bad.mean() <= allowed, f"data:{tag}", f"{int(bad.sum())} of {int(cov.sum())} covered pixels differ (kernel {cfg['kernel']}, step {step})")
        none = (w == 0) & (gw == 0)
        fv = filled(cfg["fillval"])
        c.check(bool(np.all(np.isnan(o["data"][none])) if np.isnan(fv) else np.all(o["data"][none] == fv)), "fill", f"uncovered pixels are not {fv}")
        if cfg["enable_ctx"]:
            gb, wb = ctx_bits(o["con"], nim, s.out.shape), ctx_bits(d.out_ctx, nim, s.out.shape)
            diff = float((gb != wb).any(axis=0).mean())
            c.check(diff <= .06 + 3 / off.size if step > 1 or cfg["kernel"] not in ("square", "turbo") or bbox else diff <= .03, "context", f"{diff:.3f} of the context differs")
        else:
            c.check(o["con"] is None, "context_made", "context made although disabled")
        if cfg["compute_err"]:
            want = e.out_img / psr
            bad = cov & (np.abs(np.asarray(o["err"], float) - want) > (2e-3 if step == 1 else 5e-2) * np.abs(want) + 1e-3 / psr)
            c.check(bad.mean() <= allowed + .02, "error_array", f"{int(bad.sum())} pixels of the drizzled error differ")
        if cfg["propagate_dq"]:
            qd = float((np.asarray(o["dq"]) != d.out_dq).mean())
            c.check(qd <= .06 + 3 / off.size, "dq", f"{qd:.3f} of the output flags differ")
        c.count("output_pixels", off.size)
        c.count("covered_pixels", int(cov.sum()))
        c.count("many_inputs", int(nim > 32))
        c.state(cfg["kernel"], cfg["weight_type"], str(cfg["good_bits"]), min(nim, 33), bbox, cfg["enable_ctx"], step > 1)
        c.describe(cfg={k: str(v) for k, v in cfg.items()}, inputs=nim, out=s.out.shape, step=step)

    @staticmethod
    def many(c):
        A01.library(c, True)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 25
        return [("polygons", 200 * k, A01.polygons), ("library", 300 * k, A01.library), ("many", 14 * k, A01.many)]


def spoil(rng, m, how):
    """Missing, empty or misshapen variance arrays."""
    for k in how:
        m[k] = [None, np.zeros((0,), np.float32), np.ones((3, 33), np.float32)][int(rng.integers(0, 3))]


class A02:
    PID = "A02"
    RULE = ("as A01 with variance arrays missing, empty, misshapen or partly invalid on any input, all weight types, error from variances "
            "or drizzled; distinct = (weight type, missing pattern, inputs, error mode, variance selection)")
    ASSUMPTIONS = ["square kernel for the exact comparison"]
    REQUIRE = {"variance_pixels": 4000, "missing_runs": 40, "error_pixels": 2000, "uncovered_nan": 500, "implied_variances": 8}

    @staticmethod
    def case(c):
        rng = c.rng
        s = Scene(rng, n=int(rng.choice([1, 2, 3, 4])), lim=(4, 11), out=(6, 24))
        mode = str(rng.choice(["from_var", "from_var", "driz_err", "none"]))
        enable = True if mode != "from_var" or rng.random() < .7 else False
        cfg = s.config(kernel="square", enable_var=enable, compute_err=None if mode == "none" else mode, enable_ctx=False, propagate_dq=False)
        from stcal.resample import Resample

        sel = None if rng.random() < .6 else ["var_poisson", "var_rnoise"]

        class R(Resample):
            dq_flag_name_map = {"DNU": 1, "SAT": 2, "JUMP": 4}
            error_from_variances = sel

        missing = []
        for m in s.models:
            how = [k for k in VARS if rng.random() < .2]
            spoil(rng, m, how)
            missing.append(tuple(how))
            if rng.random() < .1:
                m["measurement_time"] = None
        c.count("missing_runs", int(any(missing)))
        c.count("implied_variances", int(not enable))
        order = list(rng.permutation(len(s.models)))
        library_survives(s, cfg)
        r = c.call(machine, s, cfg, None, cls=R)
        ny, nx = s.out.shape
        psr = s.scale / np.rad2deg(np.sqrt(s.models[0]["pixelarea_steradians"])) / 3600
        num = {k: np.zeros((ny, nx)) for k in VARS}
        den = {k: np.zeros((ny, nx)) for k in VARS}
        amb = {k: np.zeros((ny, nx), bool) for k in VARS}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for i in order:
                m, sky = s.models[i], s.skies[i]
                c.call(r.add_model, copy(m))
                w = weight(m, cfg).astype(float)
                fp = footprint(sky, s.out, cfg["pixfrac"], w > 0)
                prop = {}
                for k in VARS:
                    v = m[k]
                    if v is None or v.shape != m["data"].shape:
                        continue
                    W, E = np.zeros((ny, nx)), np.zeros((ny, nx))
                    for iy, ix, oy, ox, share, out in fp:
                        if out:
                            for q in VARS:
                                amb[q][oy, ox] = True
                        # an undefined value among the pixels dropped here leaves this input without a variance here
                        W[oy, ox] += share * w[iy, ix]
                        E[oy, ox] += share * w[iy, ix] * np.sqrt(float(v[iy, ix]))
                        if np.isnan(v[iy, ix]) and share < .05:  # a sliver
                            for q in VARS:
                                amb[q][oy, ox] = True
                    with np.errstate(all="ignore"):
                        prop[k] = np.where(W > 0, (E / W) ** 2, np.nan)
                    thin = (W > 0) & (W < 2e-2 * max(W.max(), 1e-30))
                    # slivers: the library may or may not see them, and their mean is imprecise
                    for q in VARS:
                        amb[q] |= thin
                    if cfg["weight_type"].startswith("ivm") and k == "var_rnoise":
                        for q in VARS:  # weight from a nearly zero variance: ill conditioned
                            amb[q] |= np.isfinite(prop[k]) & (prop[k] < 1e-3)
                if cfg["weight_type"] == "exptime":
                    wt = np.full((ny, nx), m["measurement_time"] if m["measurement_time"] is not None else m["exposure_time"])
                elif "var_rnoise" in prop:
                    with np.errstate(all="ignore"):
                        wt = np.where(np.isfinite(prop["var_rnoise"]) & (prop["var_rnoise"] > 0), 1 / prop["var_rnoise"], 0)
                else:
                    wt = np.ones((ny, nx))
                for k, v in prop.items():
                    ok = np.isfinite(v) & (wt > 0)
                    num[k] += np.where(ok, np.nan_to_num(v) * wt ** 2, 0)
                    den[k] += np.where(ok, wt, 0)
        c.call(r.finalize)
        o = r.output_model
        parts = []
        wht = np.asarray(o["wht"], float)
        for k in VARS:
            got = np.asarray(o[k], float)
            with np.errstate(all="ignore"):
                want = np.where(den[k] > 0, num[k] / psr ** 2 / den[k] ** 2, np.nan)
            j = ~amb[k] & ~((wht != 0) & (wht < 1e-3 * wht.max()))  # corners barely touched
            c.check(got.shape == (ny, nx), "variance_shape", k)
            c.check(not np.any(np.isfinite(got) & ~np.isfinite(want) & j), "variance_invented", f"{k}: {int((np.isfinite(got) & ~np.isfinite(want) & j).sum())} pixels no valid variance reached, missing {missing}")
            c.check(not np.any(~np.isfinite(got) & np.isfinite(want) & j), "variance_lost", f"{k}: {int((~np.isfinite(got) & np.isfinite(want) & j).sum())} pixels, missing {missing} order {order}")
            b = j & np.isfinite(want) & np.isfinite(got)
            c.close_to(np.where(b, got, 0), np.where(b, want, 0), f"variance:{k}", 1.5e-2, 1e-4 / psr ** 2, f"{k} weights {cfg['weight_type']} missing {missing} order {order}")
            c.count("variance_pixels", int(b.sum()))
            c.count("uncovered_nan", int((j & ~np.isfinite(want)).sum()))
            parts.append(got)
        if mode == "from_var":
            use = [p for k, p in zip(VARS, parts) if sel is None or k in sel]
            allnan = np.all(np.isnan(use), axis=0)
            want = np.where(allnan, np.nan, np.sqrt(np.nansum(use, axis=0)))
            c.check(o["err"] is not None, "error_missing", "no error array although errors from variances were asked for")
            c.close_to(np.asarray(o["err"], float), want, "error_from_variances", 1e-4, 1e-7, "sqrt of summed variances")
            c.count("error_pixels", int((~allnan).sum()))
        elif mode == "none":
            c.check(o.get("err") is None, "error_invented", "error array although none was asked for")
        c.state(cfg["weight_type"], tuple(sorted(set(sum(map(list, missing), [])))), len(s.models), mode, sel is None, enable)
        c.describe(cfg={k: str(v) for k, v in cfg.items()}, missing=missing, order=[int(i) for i in order])

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 25
        return [("variances", 400 * k, A02.case)]


def product(r):
    o = r.output_model
    return {k: (np.array(v, copy=True) if isinstance(v, np.ndarray) else v) for k, v in o.items() if k != "wcs"}


TIMES = ("exposure_time", "start_time", "end_time", "duration", "elapsed_exposure_time", "measurement_time", "pointings")


def totals(models):
    seen, t = {}, None
    for m in models:
        seen.setdefault(m["group_id"], m)
    g = list(seen.values())
    t = dict(exposure_time=sum(m["exposure_time"] for m in g), start_time=min(m["start_time"] for m in g), end_time=max(m["end_time"] for m in g),
             duration=sum(m["duration"] for m in g), pointings=len(g))
    t["elapsed_exposure_time"] = t["duration"]
    t["measurement_time"] = None if any(m.get("measurement_time") is None for m in g) else sum(m["measurement_time"] for m in g)
    return t


class A03:
    PID = "A03"
    RULE = ("random histories on one accumulator: rounds of adds (any order, groups shared between rounds), refused inputs in between, "
            "finalize twice, adds after finalize, reset; each product compared with a fresh accumulator and with another order; distinct = "
            "(rounds, inputs, refusals, order changed, error mode)")
    ASSUMPTIONS = ["members of a group carry the same times", "reset follows finalize, as documented", "all inputs have the same nominal pixel area"]
    REQUIRE = {"rounds": 200, "rounds_after_reset": 80, "orders": 60, "refusals": 40, "shared_groups": 30, "totals": 200}

    @staticmethod
    def same(c, a, b, what, exact, perm=None):
        c.check(a.keys() == b.keys(), f"{what}:keys", f"{sorted(set(a) ^ set(b))}")
        for k, v in b.items():
            g = a.get(k)
            if isinstance(v, np.ndarray) and v.ndim:
                if k == "con" and perm is not None:
                    n = len(perm)
                    x, y = ctx_bits(g, n, v.shape[1:]), ctx_bits(v, n, v.shape[1:])
                    c.check(all(np.mean(x[i] != y[perm[i]]) < .02 for i in range(n)), f"{what}:con", "context bits do not follow the inputs")
                elif exact:
                    c.check(isinstance(g, np.ndarray) and g.shape == v.shape and g.dtype == v.dtype and np.array_equal(g, v, equal_nan=v.dtype.kind == "f"), f"{what}:{k}", f"{k}: {getattr(g, 'shape', None)} {getattr(g, 'dtype', None)} against {v.shape} {v.dtype}")
                elif v.dtype.kind == "f":
                    top = float(np.nanmax(np.abs(v))) if np.isfinite(v).any() else 1.0
                    c.check(np.array_equal(np.isnan(g), np.isnan(v)), f"{what}:{k}", f"{k}: undefined pixels differ")
                    w = b["wht"]
                    m = (np.abs(w) > 1e-3 * np.abs(w).max()) & np.isfinite(v)
                    c.close_to(np.where(m, g, 0), np.where(m, v, 0), f"{what}:{k}", 2e-3, 1e-4 * top, k)
                else:
                    c.check(np.array_equal(g, v), f"{what}:{k}", k)
            elif isinstance(v, float) and np.isnan(v):
                c.check(np.isnan(g), f"{what}:{k}", f"{k}: {g!r}")
            else:
                ok = (g == v) if not isinstance(v, float) or g is None else abs(g - v) <= 1e-9 * abs(v)
                c.check(bool(ok), f"{what}:{k}", f"{k}: {g!r}, fresh {v!r}")

    @staticmethod
    def refuse(c, r, s, rng):
        """An input that cannot be added leaves no trace."""
        m = copy(s.models[int(rng.integers(0, len(s.models)))])
        k = int(rng.integers(0, 4 if r.weight_type == "ivm" else 3))
        if k == 0:
            del m[str(rng.choice(["data", "dq", "group_id", "exposure_time", "level"]))]
            exc = KeyError
        elif k == 1:
            m["data"] = m["data"][None]
            exc = RuntimeError
        elif k == 2:
            sky = s.skies[0]
            m["wcs"] = Wcs(sky, fail_at=1)
            m["data"], m["dq"] = np.zeros(sky.shape, np.float32), np.zeros(sky.shape, np.uint32)
            exc = Broken
        else:
            m["dq"] = np.zeros((m["dq"].shape[0] + 2, 50), np.uint32)
            exc = ValueError
        if "group_id" in m:
            m["group_id"] = "refused"
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r.add_model(m)
        except exc:
            c.count("refusals")
        except Exception as e:
            c.fail("refusal_type", f"kind {k}: {e!r} instead of {exc.__name__}", abort=False)
        else:
            c.fail("not_refused", f"input of kind {k} accepted", abort=False)

    @staticmethod
    def case(c):
        rng = c.rng
        s = Scene(rng, n=int(rng.choice([2, 3, 4, 5])), lim=(4, 11))
        cfg = s.config(kernel=str(rng.choice(["square", "square", "turbo", "gaussian"])), enable_var=bool(rng.random() < .7))
        cfg["compute_err"] = [None, "from_var", "driz_err"][int(rng.integers(0, 3))]
        if cfg["compute_err"] == "from_var":
            cfg["enable_var"] = True
        for m in s.models:
            if rng.random() < .1:
                m["measurement_time"] = None
                for q in s.models:
                    if q["group_id"] == m["group_id"]:
                        q["measurement_time"] = None
        n0 = len(s.models)
        library_survives(s, cfg)
        r = c.call(machine, s, cfg, [None, n0][int(rng.integers(0, 2))])
        earlier = set()
        rounds = int(rng.integers(1, 4))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for k in range(rounds):
                pick = [int(i) for i in rng.permutation(n0)[:int(rng.integers(1, n0 + 1))]]
                if rng.random() < .2:
                    pick.append(pick[0])  # the same input twice
                if k:
                    r.reset_arrays(n_input_models=[None, len(pick)][int(rng.integers(0, 2))])
                    c.check(not r.is_finalized(), "reset_finalized", "still finalized after reset")
                    c.count("rounds_after_reset")
                models = [s.models[i] for i in pick]
                c.count("shared_groups", int(bool(earlier & {m["group_id"] for m in models})))
                earlier |= {m["group_id"] for m in models}
                refused = rng.random() < .35
                fresh = machine(s, cfg, None)
                for m in models:
                    if refused and rng.random() < .5:
                        A03.refuse(c, r, s, rng)
                    mine = copy(m)
                    c.call(r.add_model, mine)
                    for key, v in m.items():
                        if key != "wcs":
                            c.check(np.array_equal(v, mine[key], equal_nan=v.dtype.kind == "f") if isinstance(v, np.ndarray) else v == mine[key], "input_modified", key)
                    fresh.add_model(copy(m))
                c.call(r.finalize)
                c.call(r.finalize)
                fresh.finalize()
                got, ref = product(r), product(fresh)
                A03.same(c, got, ref, "history" if k else "first", True)
                want = totals(models)
                for key in TIMES:
                    g, v = got[key], want[key]
                    c.check(g is not None and abs(g - v) <= 1e-9 * abs(v) + 1e-9 if v is not None else g is None, f"total:{key}", f"{key} {g!r}, inputs give {v!r}")
                c.count("totals")
                c.count("rounds")
                try:
                    r.add_model(copy(models[0]))
                except RuntimeError:
                    pass
                else:
                    c.fail("added_after_finalize", "input accepted after finalize", abort=False)
                if len(set(pick)) == len(pick) > 1:
                    perm = [int(i) for i in rng.permutation(len(pick))]
                    other = machine(s, cfg, None)
                    for i in perm:
                        other.add_model(copy(models[i]))
                    other.finalize()
                    A03.same(c, product(other), ref, "order", False, perm)
                    c.count("orders")
                c.state(min(k, 2), len(pick), refused, cfg["compute_err"], cfg["enable_var"], cfg["kernel"])
        c.describe(cfg={k: str(v) for k, v in cfg.items()}, rounds=rounds)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 25
        return [("histories", 300 * k, A03.case)]


CHECKS = {"A01": A01, "A02": A02, "A03": A03}
