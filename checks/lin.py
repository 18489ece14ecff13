"""L01: linearity correction against per-pixel scalar evaluation."""
import numpy as np

PID = "L01"
RULE = ("random exposures with per-pixel polynomials of 2-7 coefficients, NaN / zero-linear-term / flagged coefficient sets, saturated "
        "groups, zero frames with zeros, images up to 150 rows, plain and read-level correction (uneven reads, saturation caps, extra "
        "correction); distinct = (order, mode, zero frame, tall image, pixel classes present)")
ASSUMPTIONS = ["read-level correction is given at least two resultants", "saturation persists to the end of an integration"]
REQUIRE = {"corrected_samples": 5000, "saturated_kept": 500, "uncorrectable_pixels": 100, "zero_frames": 30, "read_level_runs": 40,
           "tall_images": 5}
FLS = [{"SATURATED": 2, "NO_LIN_CORR": 1 << 20}, {"SATURATED": 64, "NO_LIN_CORR": 1 << 7}]


def poly(cs, x):
    r = np.zeros_like(np.asarray(x, float))
    m = np.zeros_like(r)
    p = np.ones_like(r)
    for k in cs:
        r = r + k * p
        m = m + np.abs(k * p)
        p = p * x
    return r, m


def coeffs(rng, n, ny, nx, inverse=False):
    """Mild non-linearity: identity plus a few per cent at 60000 counts."""
    c = np.zeros((n, ny, nx))
    c[0] = rng.normal(0, 5, (ny, nx))
    c[1] = rng.uniform(0.9, 1.1, (ny, nx))
    for k in range(2, n):
        c[k] = rng.uniform(-0.05, 0.05, (ny, nx)) / 60000.0 ** (k - 1)
    return c.astype(np.float32)


def usable(c3, dq, fl):
    return ~(np.isnan(c3).any(axis=0) | (c3[1] == 0) | ((dq & fl["NO_LIN_CORR"]) != 0))


def spoil(rng, c3, p):
    n, ny, nx = c3.shape
    bad = rng.random((ny, nx)) < p
    for y, x in np.argwhere(bad):
        if rng.random() < 0.6:
            c3[int(rng.integers(0, n)), y, x] = np.nan
        else:
            c3[1, y, x] = 0
            if rng.random() < 0.4:
                c3[:, y, x] = 0


def make(c, tall=False, read_level=False):
    rng = c.rng
    ni = int(rng.integers(1, 4))
    ng = int(rng.integers(2 if read_level else 1, 7))
    ny, nx = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    if tall:
        ny, nx, ni, ng = int(rng.integers(60, 150)), int(rng.integers(1, 4)), 1, min(ng, 4)
    fl = FLS[c.idx % 2]
    n = int(rng.integers(2, 8))
    c3 = coeffs(rng, n, ny, nx)
    spoil(rng, c3, 0.2)
    dq = np.zeros((ny, nx), np.uint32)
    dq[rng.random((ny, nx)) < 0.12] |= fl["NO_LIN_CORR"]
    dq[rng.random((ny, nx)) < 0.12] |= 1 << 11
    x = np.cumsum(10 ** rng.uniform(0, 4.1, (ni, 1, ny, nx)) * rng.uniform(0.8, 1.2, (ni, ng, ny, nx)), axis=1)
    x = (x + rng.normal(0, 50, x.shape)).astype(np.float32)
    gdq = np.zeros(x.shape, np.uint8)
    gdq[rng.random(x.shape) < 0.1] |= 1 if fl["SATURATED"] != 1 else 4
    for i, y, q in np.argwhere(rng.random((ni, ny, nx)) < 0.35):
        gdq[i, int(rng.integers(0, ng)):, y, q] |= fl["SATURATED"]
    pdq = np.zeros((ny, nx), np.uint32)
    pdq[rng.random((ny, nx)) < 0.2] |= 1 << 3
    z = None
    if rng.random() < 0.5:
        z = (x[:, 0] * rng.uniform(0.2, 0.9, (ni, ny, nx))).astype(np.float32)
        z[rng.random(z.shape) < 0.2] = 0
    return dict(x=x, gdq=gdq, pdq=pdq, c3=c3, dq=dq, z=z), fl


def pixel_flags(d, fl, extra=None):
    w = (d["pdq"] | d["dq"]).astype(np.int64)
    bad = np.isnan(d["c3"]).any(axis=0) | (d["c3"][1] == 0)
    if extra is not None:
        bad |= np.isnan(extra).any(axis=0) | (extra[1] == 0)
    return w | np.where(bad, fl["NO_LIN_CORR"], 0)


def call(c, d, fl, **kw):
    from stcal.linearity.linearity import linearity_correction

    k = {a: (None if b is None else b.copy()) for a, b in d.items()}
    kw = {a: (b.copy() if isinstance(b, np.ndarray) else b) for a, b in kw.items()}
    out = c.call(linearity_correction, k["x"], k["gdq"], k["pdq"], k["c3"], k["dq"], fl, zframe=k["z"], **kw)
    c.equal(k["gdq"], d["gdq"], "group_flags_changed", "group flags after correction")
    return out


def judge_zero(c, d, ok, z):
    if d["z"] is None:
        c.check(z is None, "zero_frame_invented", "zero frame")
        return
    c.count("zero_frames")
    zz = d["z"].astype(float)
    r, m = poly([np.where(ok, np.nan_to_num(k), 0)[None] for k in d["c3"].astype(float)], zz)
    want = np.where(ok[None] & (zz != 0), r, zz)
    z = np.asarray(z, float)
    c.check(z.shape == want.shape, "zero_frame_shape", f"{z.shape}")
    bad = ~(np.abs(z - want) <= 3e-6 * (m + 1))
    c.check(not bad.any(), "zero_frame", lambda: f"zero frame: {int(bad.sum())} wrong, first {np.argwhere(bad)[0]}: "
            f"{z[bad][0]!r} expected {want[bad][0]!r}")


def plain(c, tall=False):
    d, fl = make(c, tall)
    x = d["x"].astype(float)
    ok = usable(d["c3"], d["dq"], fl)
    r, m = poly([np.where(ok, np.nan_to_num(k), 0)[None, None] for k in d["c3"].astype(float)], x)
    sat = (d["gdq"] & fl["SATURATED"]) != 0
    want = np.where(sat | ~ok[None, None], x, r)
    out, pdq, z = call(c, d, fl)
    out = np.asarray(out, float)
    c.check(out.shape == want.shape, "shape", str(out.shape))
    c.count("corrected_samples", int((~sat & ok[None, None]).sum()))
    c.count("saturated_kept", int(sat.sum()))
    c.count("uncorrectable_pixels", int((~ok).sum()))
    exact = sat | ~ok[None, None]
    e = exact & (out != x)
    c.check(not e.any(), "value_not_kept", lambda: f"{int(e.sum())} samples that must keep their value changed, first at "
            f"{np.argwhere(e)[0].tolist()}: {x[e][0]!r} -> {out[e][0]!r}")
    b = ~exact & ~(np.abs(out - want) <= 3e-6 * (m + 1))
    c.check(not b.any(), "polynomial", lambda: f"{int(b.sum())} samples are not the polynomial, first at {np.argwhere(b)[0].tolist()}: "
            f"{out[b][0]!r}, expected {want[b][0]!r}")
    c.equal(np.asarray(pdq).astype(np.int64), pixel_flags(d, fl), "pixel_flags", "pixel flags")
    judge_zero(c, d, ok, z)
    if tall:
        c.count("tall_images")
    c.state("plain", d["c3"].shape[0], d["z"] is not None, tall, bool((~ok).any()), bool(sat.any()), x.shape[0] > 1)
    c.describe(shape=x.shape, ncoeffs=d["c3"].shape[0], uncorrectable=int((~ok).sum()), saturated=int(sat.sum()))


def read_level(c, tall=False):
    rng = c.rng
    d, fl = make(c, tall, True)
    ni, ng, ny, nx = d["x"].shape
    rp, t = [], 0
    for _ in range(ng):
        m = int(rng.integers(1, 5)) if c.idx % 3 else 1
        rp.append(list(range(t + 1, t + m + 1)))
        t += m + int(rng.integers(0, 2))
    il = coeffs(rng, int(rng.integers(2, 6)), ny, nx)
    spoil(rng, il, 0.08)
    satval = rng.uniform(20000, 50000, (ny, nx)).astype(np.float32) if rng.random() < 0.6 else None
    extra = None
    if rng.random() < 0.5:
        col = np.linspace(-1, 1, nx)
        extra = lambda a: 3.0 * np.sin(np.asarray(a, float) / 4000.0) * col  # noqa: E731
    out, pdq, z = call(c, d, fl, ilin_coeffs=il, additional_correction=extra, read_pattern=rp, satval=satval)
    out = np.asarray(out, float)
    ok = usable(d["c3"], d["dq"], fl)
    iok = usable(il, d["dq"], fl)
    S = fl["SATURATED"]
    mean_read = [float(np.mean(q)) for q in rp]
    ident = [0.0, 1.0]
    scale = np.zeros(out.shape)
    want = d["x"].astype(float).copy()
    for i in range(ni):
        for y in range(ny):
            for q in range(nx):
                L = [float(v) for v in d["c3"][:, y, q]] if ok[y, q] else ident
                I = [float(v) for v in il[:, y, q]] if iok[y, q] else ident
                v = d["x"][i, :, y, q].astype(float)
                s = (d["gdq"][i, :, y, q] & S) != 0
                last = max(int((~s).sum()) - 1, 2) - 1
                f0 = v[0] if s[0] else float(poly(L, v[0])[0])
                f1 = v[last] if s[last] else float(poly(L, v[last])[0])
                rate = (f1 - f0) / (mean_read[last] - mean_read[0])
                for g in range(ng):
                    if s[g]:
                        continue
                    reads = f0 + rate * (np.array(rp[g], float) - mean_read[0])
                    un = poly(I, reads)[0]
                    un = un + (v[g] - un.mean())
                    if extra is not None:
                        un = un + 3.0 * np.sin(un / 4000.0) * col[q]
                    if satval is not None:
                        un = np.minimum(un, 1.2 * float(satval[y, q]))
                    rr, mm = poly(L, un)
                    want[i, g, y, q] = rr.mean()
                    scale[i, g, y, q] = mm.max() + abs(f0) + abs(f1)
    sat = (d["gdq"] & S) != 0
    e = sat & (out != d["x"])
    c.check(not e.any(), "value_not_kept", "saturated resultants changed by read-level correction")
    b = ~sat & ~(np.abs(out - want) <= 1e-5 * (scale + 10))
    c.check(not b.any(), "read_level_value", lambda: f"{int(b.sum())} resultants differ, first at {np.argwhere(b)[0].tolist()}: "
            f"{out[b][0]!r}, expected {want[b][0]!r} (reads {rp})")
    c.equal(np.asarray(pdq).astype(np.int64), pixel_flags(d, fl, il), "pixel_flags", "pixel flags (read level)")
    judge_zero(c, d, ok, z)
    c.count("read_level_runs")
    c.count("corrected_samples", int((~sat).sum()))
    if tall:
        c.count("tall_images")
    c.state("reads", len(rp[0]), tall, satval is None, extra is None, d["z"] is not None, bool(sat.any()), ng)
    c.describe(shape=out.shape, reads=rp, cap=satval is not None, extra=extra is not None)


def streams(tier):
    k = 1 if tier == "quick" else 25
    return [("plain", 400 * k, plain), ("plain_tall", 20 * k, lambda c: plain(c, True)), ("reads", 200 * k, read_level),
            ("reads_tall", 12 * k, lambda c: read_level(c, True))]
