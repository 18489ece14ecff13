"""W01, W02, W03: output coordinate systems, combined footprints, sky-geometry helpers."""
import logging
import types
import warnings

import numpy as np

from vp.core import Skip

from .lib import wcsgen

logging.getLogger("stcal.alignment").setLevel(logging.ERROR)


def corners(sky, at=.5):
    ny, nx = sky.shape
    return np.array(sky.p2w(np.array([-at, -at, nx - 1 + at, nx - 1 + at]), np.array([-at, ny - 1 + at, ny - 1 + at, -at]))).T


def region(fp):
    return "POLYGON ICRS  " + " ".join(f"{v:.9f}" for v in np.asarray(fp).ravel())


def parse(s):
    """Vertex lists of a region string."""
    out = []
    for part in s.split("POLYGON"):
        w = part.split()
        if not w:
            continue
        assert w[0] == "ICRS", s
        out.append(np.array([float(x) for x in w[1:]]).reshape(-1, 2))
    return out


def middle(fps):
    v = wcsgen.unit(*np.vstack(fps).T)
    m = (v.min(0) + v.max(0)) / 2
    a, d = wcsgen.radec(m)
    return float(a), float(d)


def angle(ra, dec, ra2, dec2):
    """Position angle (north through east) of the second position seen from the first."""
    e, n, _ = wcsgen.basis(ra, dec)
    d = wcsgen.unit(ra2, dec2) - wcsgen.unit(ra, dec)
    return float(np.degrees(np.arctan2(d @ e, d @ n)))


def turn(a, b):
    return abs((a - b + 180) % 360 - 180)


def info(rng, sky):
    """A reference description (position, roll, parity) belonging to a system."""
    nx, ny = sky.shape[::-1]
    ra, dec = sky.p2w(rng.uniform(0, nx), rng.uniform(0, ny))
    return {"ra_ref": float(ra), "dec_ref": float(dec), "roll_ref": float(rng.uniform(0, 360)), "v3yangle": float(rng.choice([0.0, rng.uniform(-180, 180)])), "vparity": int(rng.choice([-1, -1, 1]))}


def scale_at(sky, ra, dec):
    x, y = sky.w2p(ra, dec)
    p = [sky.p2w(x + a, y + b) for a, b in ((0, 0), (1, 0), (0, 1))]
    return [float(wcsgen.separation(*p[0], *p[i])) for i in (1, 2)]


class W01:
    PID = "W01"
    RULE = ("random sets of footprints (arrays and region strings, 3 to 8 vertices, over RA 0 and the poles) with every combination of requested scale, "
            "scale ratio, rotation, reference point, reference pixel and shape; distinct = (options given, vertices, inputs, place)")
    ASSUMPTIONS = ["footprints within a fraction of a hemisphere", "when a reference pixel is given the grid starts at pixel 0, whatever lies before it"]
    REQUIRE = {"corners": 1000, "round_trips": 150, "scales": 150, "orientations": 150, "explicit_shape": 30, "explicit_crpix": 30, "polar": 15, "wrapped": 15, "too_small": 5}

    @staticmethod
    def case(c):
        from stcal.alignment.util import wcs_from_sregions

        rng = c.rng
        ref = wcsgen.random_sky(rng, lim=(8, 60))
        n = int(rng.choice([1, 1, 2, 3, 5]))
        fps = []
        for k in range(n):
            o = wcsgen.near(rng, ref, shift=1.5)
            f = corners(o)
            if rng.random() < .25:  # more or fewer vertices
                t = np.sort(rng.uniform(0, 2 * np.pi, int(rng.integers(3, 9))))
                ny, nx = o.shape
                f = np.array(o.p2w(nx / 2 * (1 + .9 * np.cos(t)), ny / 2 * (1 + .9 * np.sin(t)))).T
            fps.append(f)
        wi = info(rng, ref)
        kw = {}
        s0 = scale_at(ref, wi["ra_ref"], wi["dec_ref"])
        want_scale = np.sqrt(s0[0] * s0[1])
        if rng.random() < .3:
            kw["pscale"] = want_scale * float(rng.uniform(.4, 2.5))
        if rng.random() < .4:
            kw["pscale_ratio"] = float(rng.uniform(.4, 2.5))
        if rng.random() < .06:
            kw["pscale"] = want_scale * float(rng.uniform(20, 200))
        want_scale = kw.get("pscale") or want_scale * kw.get("pscale_ratio", 1.0)
        if rng.random() < .5:
            kw["rotation"] = float(rng.choice([0.0, rng.uniform(-360, 360)]))
        mid = middle(fps)
        if rng.random() < .3:
            ra, dec = ref.p2w(rng.uniform(-5, ref.shape[1] + 5), rng.uniform(-5, ref.shape[0] + 5))
            kw["crval"] = (float(ra), float(dec))
        if rng.random() < .25:
            kw["crpix"] = (float(rng.uniform(0, 80)), float(rng.uniform(0, 80)))
        if rng.random() < .25:
            kw["shape"] = (int(rng.integers(2, 120)), int(rng.integers(2, 120)))
        as_text = rng.random() < .5
        given = [region(f) if as_text else f.copy() for f in fps]
        if n > 1 and rng.random() < .2:
            given[0] = region(fps[0])
        # reference pixel positions, in the tangent plane of the requested system
        a = np.deg2rad(kw["rotation"] if "rotation" in kw else wi["roll_ref"] - wi["vparity"] * wi["v3yangle"])
        m = want_scale * np.array([[wi["vparity"] * np.cos(a), np.sin(a)], [-wi["vparity"] * np.sin(a), np.cos(a)]])
        cv = kw.get("crval", mid)
        plane = wcsgen.Sky((0, 0), cv, m, (10, 10))
        px, py = plane.w2p(*np.vstack(fps).T)
        if not np.isfinite(px).all():
            raise Skip()
        lo = np.array([px.min(), py.min()])
        off = np.array(kw["crpix"]) if "crpix" in kw else -lo
        top = np.array([px.max(), py.max()]) + off
        size = top + .5 if "shape" not in kw else np.array([99, 99])
        if np.any(np.abs(size - 2) < 1e-3):
            raise Skip()
        w = ref.gwcs()
        keep = [g.copy() if isinstance(g, np.ndarray) else g for g in given]
        if np.any(size < 2):
            try:
                wcs_from_sregions(given, w, wi, **kw)
            except ValueError:
                c.count("too_small")
            else:
                c.fail("too_small", f"shape of {size} accepted", abort=False)
            c.state("small")
            return
        if np.any(size > 5000):
            raise Skip()
        out = c.call(wcs_from_sregions, given, w, wi, **kw)
        c.check(all(np.array_equal(g, k) if isinstance(k, np.ndarray) else g == k for g, k in zip(given, keep)), "inputs_modified", "footprints changed")
        shp = tuple(out.pixel_shape)[::-1]
        c.check(tuple(out.array_shape) == shp, "shapes", f"{out.array_shape} and {shp}")
        bb = np.array(out.bounding_box.bounding_box(order="F"))
        # reference point and pixel
        cx, cy = out.invert(*cv, with_bounding_box=False)
        c.check(np.hypot(cx - off[0], cy - off[1]) < 1e-3, "crpix", f"reference point at {cx}, {cy}, expected {off} ({kw})")
        ra, dec = out(*off, with_bounding_box=False)
        c.check(wcsgen.separation(ra, dec, *cv) < 1e-3 * want_scale, "crval", f"sky at the reference pixel {ra}, {dec}, expected {cv}")
        # scale and orientation there
        s = [out(off[0] + i, off[1] + j, with_bounding_box=False) for i, j in ((1, 0), (0, 1))]
        got = [float(wcsgen.separation(*cv, *q)) for q in s]
        c.check(max(abs(g / want_scale - 1) for g in got) < 2e-3, "scale", f"pixel scales {got}, requested {want_scale} ({kw})")
        c.count("scales")
        pa = [angle(*cv, *q) for q in s]
        want_y = np.degrees(a)
        c.check(turn(pa[1], want_y) < .2, "orientation", f"y axis at {pa[1]}, requested {want_y}")
        c.check(turn(pa[0], want_y + 90 * wi["vparity"]) < .2, "parity", f"x axis at {pa[0]} and y axis at {pa[1]} with parity {wi['vparity']}")
        c.count("orientations")
        # the whole system is the tangent plane at the reference point
        tx, ty = rng.uniform(-10, 200, 20), rng.uniform(-10, 200, 20)
        ra, dec = out(tx, ty, with_bounding_box=False)
        want = plane.p2w(tx - off[0], ty - off[1])
        c.check(float(np.max(wcsgen.separation(ra, dec, *want))) < 5e-3 * want_scale, "projection", "positions differ from the tangent plane at the reference point")
        bx, by = out.invert(ra, dec, with_bounding_box=False)
        c.check(float(np.max(np.hypot(bx - tx, by - ty))) < 1e-3, "round_trip", "pixel to sky to pixel does not return")
        c.count("round_trips")
        # containment
        qx, qy = out.invert(*np.vstack(fps).T, with_bounding_box=False)
        if "shape" in kw:
            c.check(shp == tuple(kw["shape"]), "shape", f"{shp} instead of {kw['shape']}")
            for k, (q, nn) in enumerate(zip((qx, qy), shp[::-1])):
                c.check(bb[k][0] >= -.5 and bb[k][1] <= nn - .5, "bbox_outside_shape", f"{bb.tolist()} for {shp}")
                lo_want, hi_want = max(-.5, q.min()), min(nn - .5, q.max())
                if lo_want < hi_want - 1:
                    c.check(lo_want - 1.01 <= bb[k][0] <= lo_want + 1.01 and hi_want - 1.01 <= bb[k][1] <= hi_want + 1.01, "bbox_shape", f"box {bb.tolist()} for corners {q.min()}..{q.max()} within {shp}")
            c.count("explicit_shape")
        else:
            c.check(bb.tolist() == [[-.5, shp[1] - .5], [-.5, shp[0] - .5]], "bbox", f"{bb.tolist()} for shape {shp}")
            for q, nn in zip((qx, qy), shp[::-1]):
                c.check(nn - 1.51 <= q.max() <= nn + .51, "corner_outside", f"corners up to {q.max()}, {nn} pixels")
                if "crpix" not in kw:
                    c.check(-.01 <= q.min() <= 1.0, "corner_before", f"corners from {q.min()}")
        if "crpix" in kw:
            c.count("explicit_crpix")
        c.check(out.output_frame.name == w.output_frame.name and out.input_frame.name == w.input_frame.name, "frames", "frames are not those of the reference")
        c.count("corners", len(qx))
        c.count("polar", int(abs(cv[1]) > 85))
        c.count("wrapped", int(np.ptp(np.vstack(fps)[:, 0]) > 180))
        # order of the inputs, repeated inputs
        if n > 1 and "crval" not in kw:
            p = [int(i) for i in rng.permutation(n)] + [0]
            o2 = wcs_from_sregions([given[i] for i in p], w, wi, **kw)
            c.check(tuple(o2.pixel_shape) == tuple(out.pixel_shape) and np.allclose(o2.invert(*cv, with_bounding_box=False), (cx, cy), atol=1e-4), "order", "result depends on the order of the inputs")
        c.state(tuple(sorted(kw)), n, as_text, abs(cv[1]) > 85, wi["vparity"])
        c.describe(kw=kw, inputs=n, shape=shp)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [("grids", 450 * k, W01.case)]


# -------------------------------------------------------------------------------------------- W02
def in_convex(poly, p):
    a = np.asarray(poly)
    b = np.roll(a, -1, axis=0)
    e = b - a
    d = p[:, None, :] - a
    s = e[:, 0] * d[..., 1] - e[:, 1] * d[..., 0]
    return np.all(s >= 0, axis=1) | np.all(s <= 0, axis=1)


def in_polygon(poly, p):
    """Even-odd rule."""
    a = np.asarray(poly)
    b = np.roll(a, -1, axis=0)
    x, y = p[:, 0, None], p[:, 1, None]
    cross = (a[:, 1] > y) != (b[:, 1] > y)
    with np.errstate(all="ignore"):
        at = a[:, 0] + (y - a[:, 1]) / (b[:, 1] - a[:, 1]) * (b[:, 0] - a[:, 0])
    return (np.sum(cross & (x < at), axis=1) % 2) == 1


def edge_distance(polys, p):
    d = np.full(len(p), np.inf)
    for poly in polys:
        a = np.asarray(poly)
        b = np.roll(a, -1, axis=0)
        e = b - a
        L = np.maximum((e * e).sum(1), 1e-30)
        t = np.clip(((p[:, None, :] - a) * e).sum(-1) / L, 0, 1)
        q = a + t[..., None] * e
        d = np.minimum(d, np.sqrt(((p[:, None, :] - q) ** 2).sum(-1)).min(1))
    return d


class W02:
    PID = "W02"
    RULE = ("random sets of quadrilaterals and convex polygons (dithers down to fractions of a pixel and along a row, exact repeats, mosaics, rings, islands, "
            "mixed vertex counts), with and without an output outline cutting them; distinct = (arrangement, inputs, outline, polygons returned)")
    ASSUMPTIONS = ["gaps completely enclosed by inputs count as covered (a region string has no holes)", "convex inputs", "shapes within 0.15 pixel of an outline are not judged"]
    REQUIRE = {"points_in": 20000, "points_out": 20000, "input_corners": 1500, "several_polygons": 30, "outlines": 80, "nothing_left": 10, "repeats": 100, "cut_apart": 5, "mixed_vertices": 30, "exact_grid": 100}
    TOL = .15

    @staticmethod
    def arrangement(rng):
        kind = str(rng.choice(["mosaic", "mosaic", "dither", "row", "repeat", "row", "islands", "ring", "strip", "comb"]))
        n = int(rng.choice([1, 2, 3, 4, 6]))
        w, h = rng.uniform(10, 60, 2)
        th = rng.uniform(0, np.pi / 2) if rng.random() < .7 else 0.0

        def quad(x, y, w=w, h=h, th=th, k=4):
            if k == 4:
                p = np.array([[-w, -h], [-w, h], [w, h], [w, -h]]) / 2
            else:
                t = np.sort(rng.uniform(0, 2 * np.pi, 1)) + np.arange(k) * 2 * np.pi / k
                p = np.stack([w / 2 * np.cos(t), h / 2 * np.sin(t)], 1)
            r = np.array([[np.cos(th), -np.sin(th)], [np.sin(th), np.cos(th)]])
            p = p @ r.T + (x, y)
            return p[::-1] if rng.random() < .3 else np.roll(p, int(rng.integers(0, k)), axis=0)

        x0, y0 = rng.uniform(20, 80, 2)
        if kind == "mosaic":
            return kind, [quad(x0 + rng.uniform(-60, 60), y0 + rng.uniform(-60, 60), *rng.uniform(8, 60, 2), rng.uniform(0, 6.3), int(rng.choice([4, 4, 4, 3, 6, 8]))) for _ in range(n)]
        if kind == "dither":
            s = 10 ** rng.uniform(-9, .5)
            return kind, [quad(x0 + rng.normal(0, s), y0 + rng.normal(0, s), th=th + rng.choice([0, 1e-6, 1e-3]) * rng.normal()) for _ in range(n)]
        if kind == "row":
            s = float(rng.choice([.01, .02, .03, .04, .045, .2, 5]))
            n = max(n, 2)
            u = np.array([np.cos(th), np.sin(th)])
            return kind, [quad(*(np.array([x0, y0]) + k * s * u)) for k in range(n)]
        if kind == "repeat":
            q = quad(x0, y0)
            return kind, [q.copy() for _ in range(n)]
        if kind == "islands":
            return kind, [quad(x0 + 150 * k, y0 + rng.uniform(-40, 40)) for k in range(n)]
        if kind == "comb":  # a bar with arms, to be cut across the arms
            k = int(rng.integers(2, 5))
            return kind, [quad(x0, y0, 30 * k, 10, 0.0, 4)] + [quad(x0 + 30 * (j - (k - 1) / 2), y0 + 28, rng.uniform(8, 20), 60, rng.normal(0, .05), 4) for j in range(k)]
        if kind == "ring":
            return kind, [quad(x0 + 40 * np.cos(t), y0 + 40 * np.sin(t), 50, 14, t + np.pi / 2, 4) for t in np.arange(8) * np.pi / 4]
        return kind, [quad(x0 + 20 * k, y0, 24, h, .1) for k in range(n)]

    @staticmethod
    def case(c):
        from stcal.alignment.resample_utils import combine_sregions

        rng = c.rng
        sky = wcsgen.random_sky(rng, (100, 100), distort=False)
        kind, quads = W02.arrangement(rng)
        exact = rng.random() < .35
        if exact:  # pixels are powers of two of a degree: no rounding
            from astropy.modeling.models import Scale

            unit = 2.0 ** -13
            sky = types.SimpleNamespace(p2w=lambda x, y: (x * unit, y * unit), w2p=lambda ra, dec: (ra / unit, dec / unit))
            t = Scale(unit) & Scale(unit)
            move = 600 - np.floor(np.vstack(quads).min(0))
            if kind == "row":
                quads = [quads[0].round() + np.round(q.mean(0) - quads[0].mean(0), 6) for q in quads]
            quads = [q + move for q in quads]  # right ascensions stay positive
            c.count("exact_grid")
        world = [np.array(sky.p2w(*q.T)).T for q in quads]
        if len({len(q) for q in quads}) > 1:
            c.count("mixed_vertices")
        text = rng.random() < (.2 if kind == "row" else .5)
        given = [region(f) if text or (k == 0 and rng.random() < .2 and kind != "row") else f for k, f in enumerate(world)]
        if kind in ("dither", "row", "repeat"):  # the 9 decimals of a string matter
            quads = [np.array(sky.w2p(*(parse(g)[0] if isinstance(g, str) else g).T)).T for g in given]
        if not exact:
            t = sky.gwcs().get_transform("detector", "world")
        cut, box = None, None
        if rng.random() < .45:
            a, b = (np.sort(rng.uniform(-60, 160, 2)) + (m - 50) * exact for m in quads[0].mean(0))
            box = np.array([[a[0], b[0]], [a[0], b[1]], [a[1], b[1]], [a[1], b[0]]])
            if min(np.ptp(a), np.ptp(b)) < 2:
                raise Skip()
            if kind == "comb" and rng.random() < .8:
                m = quads[0].mean(0) + (0, rng.choice([5, 5, 8, 15, -5]))
                box = m + np.array([[-200, 0], [-200, 20], [200, 20], [200, 0]])
            elif rng.random() < .3 and kind != "mosaic":  # a slit across several inputs
                m = quads[0].mean(0)
                box = np.array([[m[0] - 550, m[1] + 3], [m[0] - 550, m[1] + 8], [m[0] + 850, m[1] + 8], [m[0] + 850, m[1] + 3]])
            cut = np.array(sky.p2w(*box.T)).T
        n = len(quads)
        # random positions, some of them near outlines
        lo, hi = np.vstack(quads).min(0) - 5, np.vstack(quads).max(0) + 5
        p = [rng.uniform(lo, hi, (400, 2))]
        for q in quads:
            for a, b in zip(q, np.roll(q, -1, axis=0)):
                f = rng.uniform(0, 1, (6, 1))
                p.append(a + f * (b - a) + rng.normal(0, 1, (6, 2)))
        p = np.vstack(p)
        p = p[edge_distance([*quads, *([box] if box is not None else [])], p) > W02.TOL]
        truth = np.any([in_convex(q, p) for q in quads], axis=0)
        if box is not None:
            truth &= in_convex(box, p)
            c.count("outlines")
        import shapely

        union = shapely.unary_union([shapely.Polygon(q) for q in quads])
        parts = [union] if union.geom_type == "Polygon" else list(union.geoms)
        plain = shapely.unary_union([shapely.Polygon(g.exterior) for g in parts])  # holes count as covered
        if box is not None:
            plain = plain.intersection(shapely.Polygon(box))
        parts = [g for g in getattr(plain, "geoms", [plain]) if g.geom_type == "Polygon"]
        thin = [g for g in parts if g.area > 0 and g.buffer(-.2).is_empty]
        parts = [g for g in parts if not g.buffer(-.2).is_empty]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                s = combine_sregions([g.copy() if isinstance(g, np.ndarray) else g for g in given], t, cut)
        except ValueError as e:
            if parts or thin:
                c.check(not parts, "refused", f"{e} although {len(parts)} polygons of {sum(g.area for g in parts):.1f} pixels remain")
            c.count("nothing_left")
            c.state(kind, "empty")
            return
        except Exception as e:
            c.fail(f"exception:{type(e).__name__}", f"{kind}, {n} inputs, outline {cut is not None}: {e!r}")
        polys = parse(s)
        c.check(bool(parts or thin), "not_refused", f"{s!r} although nothing is covered")
        pix = [np.array(sky.w2p(*q.T)).T for q in polys]
        for q in pix:
            c.check(len(q) >= 3, "degenerate", f"polygon of {len(q)} vertices ({kind})")
            d = np.abs(q - np.roll(q, 1, axis=0)).max(1)
            c.check(bool(np.all(d > .04)), "repeated_vertex", f"vertices {d.min():.3g} pixels apart ({kind})")
        inside = np.array([in_polygon(q, p) for q in pix])
        c.check(not np.any(inside.sum(0) > 1), "polygons_overlap", f"{kind}: a position lies in two polygons")
        got = inside.any(axis=0)
        pts = shapely.points(p)
        hole = shapely.contains(plain, pts) & ~truth if box is None or True else None
        c.check(not np.any(truth & ~got), "uncovered", f"{int((truth & ~got).sum())} of {int(truth.sum())} covered positions are outside the result ({kind}, {n} inputs, outline {cut is not None}): first {p[truth & ~got][:1].tolist()}")
        c.check(not np.any(got & ~truth & ~hole), "invented", f"{int((got & ~truth & ~hole).sum())} uncovered positions are inside the result ({kind}, {n} inputs, outline {cut is not None})")
        # connections narrower than a fraction of a pixel may count either way
        least, most = (len(getattr(g, "geoms", [g])) for g in (plain.buffer(.1), plain.buffer(-.1)))
        c.check(min(least, len(parts)) <= len(polys) <= max(len(parts), most) + len(thin), "polygons", f"{len(polys)} polygons for {len(parts)} separate areas ({kind})")
        # every corner (within the outline) stays inside or on the boundary
        v = np.vstack(quads)
        if box is not None:
            v = v[in_convex(box, v) & (edge_distance([box], v) > .3)]
        if len(v):
            miss = ~np.any([in_polygon(q, v) for q in pix], axis=0) & (edge_distance(pix, v) > .12)
            if thin:
                miss &= np.array([not g.buffer(.3).intersects(shapely.Point(x)) for x in v for g in thin[:1]])
            c.check(not miss.any(), "corner_lost", f"corner {v[miss][:1].tolist()} of an input lies {edge_distance(pix, v[miss][:1]) if miss.any() else ''} pixels outside the result ({kind})")
        ra = np.vstack(polys)[:, 0]
        c.check(bool(np.all((ra >= 0) & (ra <= 360))), "ra_range", "right ascension outside 0..360")
        # order and repetition
        o = [int(i) for i in rng.permutation(n)] + ([int(rng.integers(0, n))] if rng.random() < .7 else [])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s2 = c.call(combine_sregions, [given[i] for i in o], t, cut)
        alt = [np.array(sky.w2p(*q.T)).T for q in parse(s2)]
        i2 = np.any([in_polygon(q, p) for q in alt], axis=0)
        c.check(len(alt) == len(pix) or bool(thin) or least < most, "order_polygons", f"{len(pix)} polygons, {len(alt)} in another order")
        c.check(np.array_equal(i2, got), "order", f"coverage depends on the order or repetition of the inputs ({kind})")
        c.count("repeats")
        c.count("points_in", int(truth.sum()))
        c.count("points_out", int((~truth & ~hole).sum()))
        c.count("input_corners", len(v))
        c.count("several_polygons", int(len(polys) > 1))
        c.count("cut_apart", int(box is not None and len(parts) > (1 if union.geom_type == "Polygon" else len(union.geoms))))
        c.state(kind, n, cut is not None, len(polys), text)
        c.describe(kind=kind, inputs=n, outline=None if box is None else box.tolist(), polygons=len(polys))

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [("regions", 700 * k, W02.case)]


# -------------------------------------------------------------------------------------------- W03
class W03:
    PID = "W03"
    RULE = ("random coordinate systems (distorted, flipped, near RA 0 and the poles, bounding boxes, shapes), footprints, spectral systems, roll angles; "
            "distinct = (helper, place, options)")
    ASSUMPTIONS = ["region strings carry nine decimals"]
    REQUIRE = {"scales": 150, "fiducials": 150, "regions": 150, "undefined": 10, "wrapped": 20, "matrices": 100, "spectral": 40, "parsed": 100}

    @staticmethod
    def helpers(c):
        from stcal.alignment import util as U

        rng = c.rng
        sky = wcsgen.random_sky(rng, lim=(5, 60))
        ny, nx = sky.shape
        w = sky.gwcs()
        # scale
        x, y = rng.uniform(0, nx), rng.uniform(0, ny)
        ra, dec = (float(v) for v in sky.p2w(x, y))
        r = None if rng.random() < .5 else float(rng.uniform(.3, 3))
        s = scale_at(sky, ra, dec)
        got = c.call(U.compute_scale, w, (ra, dec), pscale_ratio=r)
        want = np.sqrt(s[0] * s[1]) * (1 if r is None else r)
        c.check(abs(got / want - 1) < 1e-4, "scale", f"{got}, neighbouring pixels {want} apart (ratio {r})")
        c.count("scales")
        # footprint string
        kind = int(rng.integers(0, 4))
        bb = sky.bbox
        center = bool(rng.random() < .5)
        if kind == 1:
            a, b = np.sort(rng.uniform(-.5, nx - .5, 2)), np.sort(rng.uniform(-.5, ny - .5, 2))
            bb = ((float(a[0]), float(a[1])), (float(b[0]), float(b[1])))
            w.bounding_box = bb
        shape = None
        if kind == 2:
            w.bounding_box = None
            shape = (ny, nx) if rng.random() < .7 else (4, ny, nx)
        if kind == 3:
            shape = (ny + 3, nx + 7)  # a bounding box takes precedence
        (x0, x1), (y0, y1) = bb
        if center:
            x0, x1, y0, y1 = (np.floor(v + .5) for v in (x0, x1, y0, y1))
        v = np.array(sky.p2w(np.array([x0, x0, x1, x1]), np.array([y0, y1, y1, y0]))).T
        text = c.call(U.compute_s_region_imaging, w, shape, center)
        c.check(isinstance(text, str) and len(parse(text)) == 1, "region_text", f"{text!r}")
        got = parse(text)[0]
        c.check(got.shape == v.shape and bool(np.all(wcsgen.separation(*got.T, *v.T) < 5e-9)), "region_vertices", f"{got.tolist()}, expected {v.tolist()} (kind {kind}, centers {center})")
        c.check(bool(np.all((got[:, 0] >= 0) & (got[:, 0] <= 360))), "region_ra", f"{got[:, 0]}")
        c.count("regions")
        c.count("wrapped", int(np.ptp(got[:, 0]) > 180))
        if kind == 2:
            w2 = sky.gwcs()
            w2.bounding_box = None
            try:
                U.compute_s_region_imaging(w2)
            except ValueError:
                pass
            else:
                c.fail("no_shape", "region computed without bounding box or shape", abort=False)
        back = c.call(U.sregion_to_footprint, text)
        c.check(back.shape == (4, 2) and np.allclose(back, got, atol=1e-12, rtol=0), "parse", f"{back.tolist()} from {text}")
        k = int(rng.integers(3, 12))
        vv = np.stack([rng.uniform(0, 360, k), rng.uniform(-90, 90, k)], 1)
        back = c.call(U.sregion_to_footprint, ("POLYGON ICRS  " if rng.random() < .5 else "polygon ") + " ".join(f"{q:.9f}" for q in vv.ravel()))
        c.check(back.shape == vv.shape and np.abs(back - vv).max() < 6e-10, "parse", "vertices not returned")
        c.count("parsed")
        bad = v.copy()
        bad[int(rng.integers(0, 4)), int(rng.integers(0, 2))] = np.nan
        c.check(c.call(U.compute_s_region_keyword, bad) is None, "undefined_region", "a region with an undefined corner")
        t2 = c.call(U.compute_s_region_keyword, v)
        c.check(np.abs(parse(t2)[0] - v).max() < 6e-10, "keyword", f"{t2}")
        c.count("undefined")
        b = c.call(U.wcs_bbox_from_shape, (7, ny, nx) if rng.random() < .3 else (ny, nx))
        c.check(tuple(map(tuple, b)) == ((-.5, nx - .5), (-.5, ny - .5)), "bbox", f"{b} for {(ny, nx)}")
        # reference point of several systems
        others = [sky] + [wcsgen.near(rng, sky, shift=1.0) for _ in range(int(rng.integers(0, 4)))]
        ws = [o.gwcs() for o in others]
        kw = {}
        if rng.random() < .2:
            kw["bounding_box"] = ((1.0, 6.0), (2.0, 4.0))
            fp = [np.array(o.p2w(np.array([1.0, 1, 6, 6]), np.array([2.0, 4, 4, 2]))).T for o in others]
        else:
            fp = []
            fp = [corners(o) for o in others]
        got = c.call(U.compute_fiducial, ws, **kw)
        want = middle(fp)
        c.check(len(got) == 2 and wcsgen.separation(*got, *want) < 1e-7, "fiducial", f"{got}, centre of the footprints {want}")
        c.count("fiducials")
        roll, yang, par = rng.uniform(-7, 7), rng.uniform(-7, 7), int(rng.choice([-1, 1]))
        m = c.call(U.calc_rotation_matrix, roll, yang, vparity=par)
        a = roll - par * yang
        c.check(np.allclose(m, [par * np.cos(a), np.sin(a), -par * np.sin(a), np.cos(a)], atol=1e-12), "rotation", f"{m}")
        mm = np.reshape(m, (2, 2))
        c.check(abs(np.linalg.det(mm) - par) < 1e-9 and np.allclose(mm @ mm.T, np.eye(2)), "rotation_orthogonal", f"{m}")
        try:
            U.calc_rotation_matrix(roll, yang, vparity=int(rng.choice([0, 2, -3])))
        except ValueError:
            c.count("matrices")
        else:
            c.fail("parity_accepted", "parity other than -1 and 1 accepted", abort=False)
        c.state(kind, center, r is None, len(others), abs(sky.crval[1]) > 85, bool(kw))
        c.describe(kind=kind, center=center, shape=sky.shape, crval=sky.crval)

    @staticmethod
    def spectral(c):
        """Reference point and scale of systems with a wavelength axis."""
        import gwcs
        from astropy import coordinates as coord
        from astropy import units as u
        from astropy.modeling import models as M
        from gwcs import coordinate_frames as cf
        from stcal.alignment import util as U

        rng = c.rng
        sky = wcsgen.random_sky(rng, lim=(5, 40), distort=False)
        ws, lo = [], []
        skies = [sky] + [wcsgen.near(rng, sky, distort=False) for _ in range(int(rng.integers(0, 3)))]
        along = int(rng.integers(0, 2))  # wavelength along x or y as well as position
        for o in skies:
            l0, dl = float(rng.uniform(.5, 5)), float(rng.uniform(1e-4, 1e-2))
            t = M.Shift(-o.crpix[0]) & M.Shift(-o.crpix[1]) | M.AffineTransformation2D(o.m) | M.Pix2Sky_TAN() | M.RotateNative2Celestial(*o.crval, 180.0)
            lam = M.Polynomial1D(1, c0=l0, c1=dl)
            f = M.Mapping((0, 1, along)) | t & lam
            f.inverse = t.inverse & M.Identity(1) | M.Mapping((0, 1), n_inputs=3)
            frame = cf.CompositeFrame([cf.CelestialFrame(axes_order=(0, 1), reference_frame=coord.ICRS(), unit=(u.deg, u.deg)),
                                       cf.SpectralFrame(axes_order=(2,), unit=(u.micron,), axes_names=("wavelength",))], name="world")
            w = gwcs.WCS([(cf.Frame2D(name="detector", unit=(u.pix, u.pix)), f), (frame, None)])
            w.bounding_box = o.bbox
            ws.append(w)
            (x0, x1), (y0, y1) = o.bbox
            lo.append(l0 + dl * (x0 if along == 0 else y0))
        fp = [corners(o) for o in skies]
        got = c.call(U.compute_fiducial, ws)
        want = middle(fp)
        c.check(len(got) == 3 and wcsgen.separation(got[0], got[1], *want) < 1e-7, "fiducial", f"{got}, centre {want}")
        c.check(abs(got[2] - min(lo)) < 1e-9, "wavelength", f"{got[2]}, smallest wavelength {min(lo)}")
        ra, dec = (float(v) for v in sky.p2w(2.3, 1.7))
        s = scale_at(sky, ra, dec)
        axis = int(rng.choice([1, 2]))
        r = None if rng.random() < .5 else float(rng.uniform(.3, 3))
        sc = c.call(U.compute_scale, ws[0], (ra, dec, 1.0), disp_axis=axis, pscale_ratio=r)
        want = (s[1] if axis == 1 else s[0]) * (r or 1)
        c.check(abs(sc / want - 1) < 1e-4, "spectral_scale", f"{sc}, expected {want} across the dispersion axis {axis}")
        try:
            U.compute_scale(ws[0], (ra, dec, 1.0))
        except ValueError:
            pass
        else:
            c.fail("no_axis", "scale of a spectral system without dispersion axis", abort=False)
        c.count("spectral")
        c.state("spectral", len(skies), along, axis, r is None)
        c.describe(systems=len(skies), axis=axis)

    @staticmethod
    def streams(tier):
        k = 1 if tier == "quick" else 20
        return [("helpers", 350 * k, W03.helpers), ("spectral", 80 * k, W03.spectral)]


CHECKS = {"W01": W01, "W02": W02, "W03": W03}
