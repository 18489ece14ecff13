"""O01, O02, O03: outlier detection: streaming median, outlier masks, blotting."""
import gc
import os
import resource
import signal
import warnings

import numpy as np

from .lib import wcsgen


# ------------------------------------------------------------------ O01 streaming median
def ref_median(cube):
    """Per-pixel median of the values that are not NaN, by sorting."""
    n, ny, nx = cube.shape
    out = np.full((ny, nx), np.nan)
    s = np.sort(cube.astype(np.float64), axis=0)  # NaN last
    k = (~np.isnan(s)).sum(axis=0)
    for m in np.unique(k):
        if m:
            w = k == m
            out[w] = (s[(m - 1) // 2][w] + s[m // 2][w]) / 2
    return out


def stack(rng, n=None, shape=None, dtype=None):
    n = n or int(rng.choice([1, 2, 3, 4, 5, 8, 13, 30]))
    shape = shape or (int(rng.integers(1, 24)), int(rng.integers(1, 24)))
    dtype = np.dtype(dtype or rng.choice(["float32", "float32", "float64", ">f4"]))
    c = rng.normal(0, 10 ** rng.uniform(-3, 4), (n, *shape)) + rng.normal(0, 100)
    kind = int(rng.integers(0, 5))
    if kind == 0:
        c = np.round(c)  # ties
    c = c.astype(dtype)
    p = float(rng.choice([0, .1, .5, .95]))
    c[rng.random(c.shape) < p] = np.nan
    if kind == 1:
        c[:, rng.random(shape) < .3] = np.nan
    if kind == 2:
        c[:, int(rng.integers(0, shape[0]))] = np.nan
    if kind == 3:
        c[int(rng.integers(0, n))] = np.nan
    return c


def buffers(rng, cube):
    n, ny, nx = cube.shape
    row, img = nx * cube.itemsize, ny * nx * cube.itemsize
    return [None, 0, 1, row * n, row * n - 1, row * n + 1, img, img * n, img * n * 10, int(rng.integers(1, img * n + 2))]


def same_median(c, got, cube, mech):
    want = ref_median(cube)
    c.check(got.shape == want.shape and np.dtype(got.dtype).kind == "f", mech + ":type", f"{got.shape} {got.dtype}")
    eps = float(np.finfo(cube.dtype).eps)
    top = np.nan_to_num(np.abs(cube.astype(float))).max(axis=0)
    c.close_to(got.astype(float), want, mech, 2 * eps, eps * top)


def listing(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, ds, fs in os.walk(d) for f in fs + ds)


def o01_median(c):
    from stcal.outlier_detection.median import MedianComputer, nanmedian3D

    rng = c.rng
    cube = stack(rng)
    keep = cube.copy()
    n = len(cube)
    base = c.scratch()
    tmp, cwd = os.path.join(base, "tmp"), os.path.join(base, "cwd")
    os.makedirs(tmp, exist_ok=True)
    os.makedirs(cwd, exist_ok=True)
    old = os.getcwd()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = nanmedian3D(cube, overwrite_input=False)
    c.equal(cube, keep, "input_changed")
    same_median(c, a, keep, "nanmedian")
    mem = MedianComputer(cube.shape, True, dtype=cube.dtype)
    for i in rng.permutation(n):
        mem.append(cube[i].copy(), int(i))
    res = c.call(mem.evaluate)
    same_median(c, res, keep, "memory")
    b = buffers(rng, cube)
    size = b[int(rng.integers(0, len(b)))]
    used_cwd = rng.random() < .3
    c.describe(shape=cube.shape, dtype=str(cube.dtype), buffer=size, cwd=used_cwd)
    try:
        os.chdir(cwd)
        kw = {} if used_cwd else {"tempdir": str(tmp)}
        disk = MedianComputer(cube.shape, False, buffer_size=size, dtype=cube.dtype, **kw)
        where = cwd if used_cwd else tmp
        c.check(listing(where) and not listing(tmp if used_cwd else cwd), "temp_place", "temporary files are not where they were asked for")
        order = rng.permutation(n)
        for i in order:
            c.call(disk.append, cube[i].copy(), int(i) if rng.random() < .5 else None)
        files = [os.path.join(r, f) for r, _, fs in os.walk(where) for f in fs]
        sizes = [os.path.getsize(f) for f in files]
        c.check(sum(sizes) == keep.nbytes, "stored_bytes", f"{sum(sizes)} bytes stored for {keep.nbytes}")
        limit = max(size or keep[0].nbytes, n * keep.shape[2] * keep.itemsize)
        c.check(max(sizes) <= limit, "buffer", f"a section holds {max(sizes)} bytes, the buffer is {limit}")
        c.count("sections", len(sizes))
        c.state("sections", len(sizes), n, keep.shape)
        res2 = c.call(disk.evaluate)
        c.check(not listing(where), "left_after_evaluate", f"{listing(where)}")
        same_median(c, res2, keep, "disk")
        c.equal(res2, res, "disk_memory")
        c.equal(cube, keep, "input_changed")
        c.count("medians")
        if n > keep.shape[1]:
            c.count("more_images_than_rows")
        if (~np.isfinite(keep)).all(axis=0).any():
            c.count("all_nan_pixels")
    finally:
        os.chdir(old)


def o01_partial(c):
    """Fewer images than announced, and two computations at once in one directory."""
    from stcal.outlier_detection.median import MedianComputer

    rng = c.rng
    tmp = c.scratch()
    cubes = [stack(rng), stack(rng)]
    done = [int(rng.integers(1, len(q) + 1)) for q in cubes]
    comps = [MedianComputer(q.shape, False, buffer_size=int(rng.choice(np.array([0, 1, q.nbytes, q.nbytes // 3 + 1]))),
                            dtype=q.dtype, tempdir=str(tmp)) for q in cubes]
    c.describe(shapes=[q.shape for q in cubes], done=done)
    todo = [0] * done[0] + [1] * done[1]
    rng.shuffle(todo)
    at = [0, 0]
    for k in todo:
        c.call(comps[k].append, cubes[k][at[k]])
        at[k] += 1
    same_median(c, c.call(comps[0].evaluate), cubes[0][:done[0]], "first")
    same_median(c, c.call(comps[1].evaluate), cubes[1][:done[1]], "second")
    c.check(not listing(tmp), "left_after_evaluate", f"{listing(tmp)}")
    # one image too many is refused
    q = cubes[0]
    d = MedianComputer(q.shape, False, dtype=q.dtype, tempdir=str(tmp))
    for i in range(len(q)):
        d.append(q[i])
    try:
        d.append(q[0])
        c.fail("too_many", "an image more than announced was accepted")
    except IndexError:
        c.count("refused_images")
    same_median(c, c.call(d.evaluate), q, "after_refusal")
    c.count("interleaved", 2)
    c.state("partial", done[0], done[1])


def o01_abandon(c):
    """Whatever happens half-way, nothing stays on disk once the object is gone."""
    from stcal.outlier_detection.median import MedianComputer

    rng = c.rng
    tmp = c.scratch()
    q = stack(rng, n=int(rng.integers(2, 8)))
    how = str(rng.choice(["drop", "wrong_shape", "wrong_dtype", "disk_full", "user_error"]))
    size = int(rng.choice(np.array([0, 1, q.nbytes])))
    c.describe(shape=q.shape, how=how, buffer=size)
    stop = int(rng.integers(0, len(q)))

    def work():
        d = MedianComputer(q.shape, False, buffer_size=size, dtype=q.dtype, tempdir=str(tmp))
        for i in range(stop):
            d.append(q[i])
        if how == "wrong_shape":
            d.append(np.zeros((q.shape[1] + 1, q.shape[2]), q.dtype))
        elif how == "wrong_dtype":
            d.append(np.zeros(q.shape[1:], np.int16))
        elif how == "user_error":
            raise RuntimeError("user")
        elif how == "disk_full":
            lim = resource.getrlimit(resource.RLIMIT_FSIZE)
            sig = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            try:
                biggest = max([os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(tmp) for f in fs] + [0])
                resource.setrlimit(resource.RLIMIT_FSIZE, (biggest + q.itemsize * q.shape[2] // 2, lim[1]))
                d.append(q[stop])
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, lim)
                signal.signal(signal.SIGXFSZ, sig)
            d.evaluate()  # lost bytes may only be noticed here, but must be

    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            work()
            gc.collect()
    except Exception as e:  # noqa: BLE001
        err = type(e).__name__
        e.__traceback__ = None
        del e
    if how != "drop":
        c.check(err is not None, "no_error", f"{how} was accepted silently")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gc.collect()
    c.check(not listing(tmp), "left_behind", f"after {how} ({err}): {listing(tmp)}")
    c.count("abandoned")
    c.count("abandoned_" + how)
    c.state("abandon", how, stop)


# ------------------------------------------------------------------ O02 masks
def field(rng, shape, nan=0.05):
    ny, nx = shape
    y, x = np.mgrid[:ny, :nx]
    m = rng.normal(0, 5) + 3 * np.sin(x / rng.uniform(1, 5)) + rng.normal(0, 1, shape)
    for _ in range(int(rng.integers(0, 4))):
        m += rng.uniform(10, 500) * np.exp(-((x - rng.uniform(0, nx)) ** 2 + (y - rng.uniform(0, ny)) ** 2) / rng.uniform(1, 8))
    sci = m + rng.normal(0, .5, shape)
    hit = rng.random(shape) < .08
    sci[hit] += rng.normal(0, 60, int(hit.sum()))
    err = rng.uniform(.2, 2, shape)
    dt = np.float32 if rng.random() < .7 else np.float64
    for a in (m, sci, err):
        a[rng.random(shape) < nan] = np.nan
    return sci.astype(dt), err.astype(dt), m.astype(dt)


def deriv(b):
    """Largest absolute difference to the four neighbours; differences with NaN do not count."""
    ny, nx = b.shape
    out = np.zeros((ny, nx))
    for dy, dx in ((0, 1), (1, 0), (0, -1), (-1, 0)):
        p = np.full((ny, nx), np.nan)
        ys, yd = slice(max(dy, 0), ny + min(dy, 0)), slice(max(-dy, 0), ny + min(-dy, 0))
        xs, xd = slice(max(dx, 0), nx + min(dx, 0)), slice(max(-dx, 0), nx + min(-dx, 0))
        p[yd, xd] = b[ys, xs]
        out = np.fmax(out, np.abs(p - b))
    out[np.isnan(b)] = np.nan
    return out


def decide(diff, thr, scale):
    """True, False, and undecided within rounding."""
    tol = 4e-6 * scale + 1e-12
    with np.errstate(invalid="ignore"):
        return diff > thr + tol, np.abs(diff - thr) <= tol


def grow(m):
    p = np.pad(m, 1, mode="edge")
    return np.any([p[a:a + m.shape[0], b:b + m.shape[1]] for a in range(3) for b in range(3)], axis=0)


def o02_masks(c):
    from stcal.outlier_detection.utils import flag_crs, flag_resampled_crs

    rng = c.rng
    shape = (int(rng.integers(1, 25)), int(rng.integers(1, 25)))
    sci, err, blot = field(rng, shape, float(rng.choice([0, .05, .3])))
    keep = [a.copy() for a in (sci, err, blot)]
    c.describe(shape=shape, dtype=str(sci.dtype))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s, e, b = (a.astype(np.float64) for a in keep)
        e0 = np.nan_to_num(e)
        snr = float(rng.choice([0, 1, 3, 5, 20]))
        got = c.call(flag_crs, sci, err, blot, snr)
        yes, maybe = decide(np.abs(s - b), snr * e0, np.abs(s) + np.abs(b) + snr * e0)
        c.check(got.shape == shape and got.dtype == bool, "type", f"{got.shape} {got.dtype}")
        c.equal(got, yes, "flag_crs", mask=~maybe)
        nan = np.isnan(s) | np.isnan(b)
        c.check(not got[nan].any(), "nan_flagged", "a pixel without data or model was flagged")
        snr1, snr2 = float(rng.uniform(2, 8)), float(rng.uniform(.5, 5))
        k1, k2 = float(rng.choice([0, .5, 1.2, 3])), float(rng.choice([0, .3, .7, 2]))
        bg = float(rng.choice([0, 0, 2.5, -7]))
        got = c.call(flag_resampled_crs, sci, err, blot, snr1, snr2, k1, k2, bg)
        d = deriv(b)
        diff = np.abs(s - b - bg)
        mag = np.abs(s) + np.abs(b) + abs(bg) + np.nan_to_num(np.abs(d)) * (k1 + k2) + (snr1 + snr2) * e0
        y1, u1 = decide(diff, k1 * d + snr1 * e0, mag)
        y2, u2 = decide(diff, k2 * d + snr2 * e0, mag)
        want = grow(y1) & y2
        unsure = u2 | (grow(u1) & ~grow(y1))
        c.equal(got, want, "flag_resampled_crs", mask=~unsure)
        c.check(not got[nan].any(), "nan_flagged", "a pixel without data or model was flagged")
    for a, k, name in zip((sci, err, blot), keep, ("sci", "err", "blot")):
        c.equal(a, k, "input_changed", name)
    c.count("pixels", sci.size)
    c.count("flagged", int(got.sum()))
    c.count("flagged_by_growth", int((want & ~y1).sum()))
    c.count("held_back", int((y2 & ~want).sum()))
    c.state("mask", shape, int(got.sum()), k1, k2)


def clip_mean(v):
    v = np.sort(v.astype(np.float64))
    near = False
    for _ in range(5):
        med, std = np.median(v), v.std()
        dev = np.abs(v - med)
        if std > 0 and np.any(np.abs(dev - 3 * std) < 2e-5 * (std + abs(med))):
            near = True
        w = v[dev <= 3 * std]
        if len(w) == len(v):
            break
        v = w
    return (v.mean() if len(v) else np.nan), near


def o02_weight(c):
    from stcal.outlier_detection.utils import compute_weight_threshold, medfilt

    rng = c.rng
    shape = (int(rng.integers(2, 30)), int(rng.integers(2, 30)))
    if rng.random() < .3:
        shape = (int(rng.integers(1, 5)), *shape)
    w = np.abs(rng.normal(10, rng.choice([.01, 1, 3]), shape)).astype(np.float32 if rng.random() < .7 else np.float64)
    w[rng.random(shape) < rng.choice([0, .3])] = 0
    w[rng.random(shape) < rng.choice([0, .1])] *= 50
    w[rng.random(shape) < rng.choice([0, .1])] = rng.choice([np.nan, np.inf])
    pt = float(rng.choice([0, .3, .7, 1]))
    keep = w.copy()
    c.describe(shape=shape, maskpt=pt)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = c.call(compute_weight_threshold, w, pt)
    c.equal(w, keep, "input_changed", "weight")
    use = keep[np.isfinite(keep) & (keep != 0)]
    if len(use):
        want, near = clip_mean(use)
        if not near:
            c.check(abs(got - want * pt) <= 2e-6 * abs(want * pt) + 1e-12, "weight_threshold", lambda: f"{got} for {want * pt}")
            c.count("weight_thresholds")
    # median filter used for the background of the difference
    nd = int(rng.choice([1, 2, 2, 3]))
    shp = tuple(int(v) for v in rng.integers(1, 9, nd))
    ker = [int(v) for v in rng.choice([1, 3, 5], nd)]
    a = rng.normal(0, 5, shp)
    a[rng.random(shp) < .15] = np.nan
    k = a.copy()
    m = c.call(medfilt, a, ker)
    c.equal(a, k, "input_changed", "medfilt")
    pad = np.pad(k, [(q // 2, q // 2) for q in ker])
    want = np.empty(shp)
    for i in np.ndindex(*shp):
        v = pad[tuple(slice(j, j + q) for j, q in zip(i, ker))].ravel()
        v = np.sort(v[~np.isnan(v)])
        want[i] = (v[(len(v) - 1) // 2] + v[len(v) // 2]) / 2 if len(v) else np.nan
    c.close_to(m, want, "medfilt", 1e-12, 1e-12)
    c.count("filters")
    c.state("weight", len(shape), nd, tuple(ker))


# ------------------------------------------------------------------ O03 blotting
def bilinear(img, x, y):
    ny, nx = img.shape
    x0, y0 = np.clip(np.floor(x), 0, max(nx - 2, 0)).astype(int), np.clip(np.floor(y), 0, max(ny - 2, 0)).astype(int)
    x1, y1 = np.minimum(x0 + 1, nx - 1), np.minimum(y0 + 1, ny - 1)
    fx, fy = x - x0, y - y0
    i = img.astype(np.float64)
    return (i[y0, x0] * (1 - fx) + i[y0, x1] * fx) * (1 - fy) + (i[y1, x0] * (1 - fx) + i[y1, x1] * fx) * fy


def snapshot(w):
    b = w.bounding_box
    try:
        b = b.bounding_box(order="F")
    except AttributeError:
        pass
    x, y = np.meshgrid(np.linspace(-3, 12, 5), np.linspace(-3, 12, 5))
    r = w.pixel_to_world_values(x, y)
    return None if b is None else tuple(tuple(map(float, q)) for q in b), w.array_shape, repr([np.asarray(v).tolist() for v in r])


def o03_blot(c):
    from stcal.outlier_detection.utils import gwcs_blot

    rng = c.rng
    src = wcsgen.random_sky(rng, lim=(4, 30))
    dst = wcsgen.near(rng, src, shift=float(rng.choice([0, .5, 1, 2.5])))
    if rng.random() < .2:  # a pure shift of the same system
        dst = src.moved(crpix=src.crpix + rng.integers(-4, 5, 2), bbox="full")
    if rng.random() < .3:
        ny, nx = dst.shape
        dst = dst.moved(bbox=((1.5, nx * .7), (-0.5, ny * .8)))
    if rng.random() < .3:
        ny, nx = src.shape
        src = src.moved(bbox=((2.5, nx * .7), (1.5, ny * .8)))
    if rng.random() < .15:
        dst = dst.moved(bbox=None)
    kind = str(rng.choice(["const", "plane", "noise"]))
    yy, xx = np.mgrid[:src.shape[0], :src.shape[1]]
    img = {"const": np.full(src.shape, 7.25), "plane": 3 + .5 * xx - .25 * yy, "noise": rng.normal(0, 10, src.shape)}[kind].astype(np.float32)
    fill = float(rng.choice([0, -99, np.nan]))
    step = int(rng.choice([1, 1, 3, 10]))
    order = int(rng.choice([1, 3]))
    gs, gd = src.gwcs(), dst.gwcs()
    before = snapshot(gs), snapshot(gd)
    keep = img.copy()
    c.describe(src=src.shape, dst=dst.shape, kind=kind, step=step, fill=fill)
    out = c.call(gwcs_blot, img, gs, dst.shape, gd, fillval=fill, pixmap_stepsize=step, pixmap_order=order)
    c.check((snapshot(gs), snapshot(gd)) == before, "wcs_changed", "a coordinate system changed")
    c.equal(img, keep, "input_changed")
    y, x = np.indices(dst.shape, float)
    sx, sy = src.w2p(*dst.p2w(x, y))
    tol = 1e-6
    if step > 1:
        tol = 2e-2 + 2 * step ** 2 / 4 * max(np.abs(np.diff(sx, 2, axis=a)).max(initial=0) + np.abs(np.diff(sy, 2, axis=a)).max(initial=0) for a in (0, 1)) \
            + step ** 2 * (np.abs(np.diff(np.diff(sx, axis=0), axis=1)).max(initial=0) + np.abs(np.diff(np.diff(sy, axis=0), axis=1)).max(initial=0))
    inbox = np.ones(dst.shape, bool)
    edge = np.zeros(dst.shape, bool)
    if dst.bbox is not None:
        (x1, x2), (y1, y2) = dst.bbox
        inbox = (x >= x1) & (x <= x2) & (y >= y1) & (y <= y2)
        edge = (np.abs(x - x1) < 1e-6) | (np.abs(x - x2) < 1e-6) | (np.abs(y - y1) < 1e-6) | (np.abs(y - y2) < 1e-6)
    ny, nx = src.shape
    t = tol + 1e-4
    inside = inbox & (sx >= t) & (sx <= nx - 1 - t) & (sy >= t) & (sy <= ny - 1 - t) & ~edge
    outside = ~edge & (~inbox | (sx < -t) | (sx >= nx + t) | (sy < -t) | (sy >= ny + t))
    want = bilinear(keep, sx, sy)
    slack = 1e-5 * (1 + np.abs(keep).max())
    if kind == "noise":
        slack += tol * 8 * np.abs(keep).max()
    elif kind == "plane":
        slack += tol
    c.close_to(out[inside], want[inside], "value", 1e-5, slack)
    c.equal(out[outside], np.full(int(outside.sum()), fill, np.float32), "fill")
    c.count("pixels_inside", int(inside.sum()))
    c.count("pixels_outside", int(outside.sum()))
    c.count("blots")
    c.state("blot", kind, step, src.shape, dst.shape)


class O01:
    PID = "O01"
    RULE = "distinct (number of sections, images, image shape), interleavings and abandonment points"
    ASSUMPTIONS = ["floating-point data; one evaluation per computation object; in memory every announced image is added"]
    REQUIRE = {"medians": 200, "more_images_than_rows": 20, "all_nan_pixels": 20, "abandoned": 100, "abandoned_disk_full": 10,
               "refused_images": 30, "interleaved": 100, "sections": 500}

    @staticmethod
    def streams(t):
        k = 1 if t == "quick" else 40
        return [("median", 600 * k, o01_median), ("partial", 100 * k, o01_partial), ("abandon", 200 * k, o01_abandon)]


class O02:
    PID = "O02"
    RULE = "distinct (shape, number flagged, allowances) of compared masks and filter shapes"
    ASSUMPTIONS = ["finite or NaN model images; pixels within rounding of a threshold are not judged; odd filter kernels"]
    REQUIRE = {"pixels": 50000, "flagged": 500, "flagged_by_growth": 50, "held_back": 50, "weight_thresholds": 100, "filters": 100}

    @staticmethod
    def streams(t):
        k = 1 if t == "quick" else 60
        return [("masks", 800 * k, o02_masks), ("weight", 400 * k, o02_weight)]


class O03:
    PID = "O03"
    RULE = "distinct (image kind, step, shapes) of compared blots"
    ASSUMPTIONS = ["finite source images; positions in the outermost half pixel of the source are not judged",
                   "sparse pixel maps are held to an interpolation bound computed from the exact map"]
    REQUIRE = {"pixels_inside": 20000, "pixels_outside": 5000, "blots": 200}

    @staticmethod
    def streams(t):
        k = 1 if t == "quick" else 30
        return [("blot", 500 * k, o03_blot)]


CHECKS = {"O01": O01, "O02": O02, "O03": O03}
