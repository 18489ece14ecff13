"""S01 / S02: saturation flagging against a per-definition reference."""
import numpy as np

FL1 = {"DO_NOT_USE": 1, "SATURATED": 2, "AD_FLOOR": 64, "NO_SAT_CHECK": 1 << 21}
FL2 = {"DO_NOT_USE": 16, "SATURATED": 128, "AD_FLOOR": 4, "NO_SAT_CHECK": 1 << 9}


def grow(mask, n):
    """Pixels within n (Chebyshev distance) of a set pixel."""
    out = np.zeros_like(mask)
    ny, nx = mask.shape
    for y, x in np.argwhere(mask):
        out[max(0, y - n):min(ny, y + n + 1), max(0, x - n):min(nx, x + n + 1)] = True
    return out


def reference(d, fl, limit, n, read_pattern=None):
    """Expected (gdq, pdq, zframe, ambiguous groups) from the definition; float64 throughout."""
    D, S, A, N = fl["DO_NOT_USE"], fl["SATURATED"], fl["AD_FLOOR"], fl["NO_SAT_CHECK"]
    ni, ng, ny, nx = d["data"].shape
    gdq = d["gdq"].astype(np.int64)
    nocheck = ((d["sat_dq"] & N) != 0) | np.isnan(d["thr"])
    rdq = d["sat_dq"].astype(np.int64) | np.where(np.isnan(d["thr"]), N, 0)
    thr = np.where(nocheck, limit + 1.0, d["thr"].astype(np.float64))
    amb = np.zeros(gdq.shape, bool)
    four = thr.ndim == 4
    x = d["data"].astype(np.float64)
    z = None if d["z"] is None else d["z"].copy()
    for i in range(ni):
        seen = np.zeros((ny, nx), bool)
        for g in range(ng):
            t = thr[i, g] if four else thr
            seen |= x[i, g] >= t
            own = seen | ((gdq[i, g] & S) != 0)
            gdq[i, g][grow(own, n)] |= S
            gdq[i, g][x[i, g] <= 0] |= A | D
        if read_pattern is not None:
            base = gdq[i].copy()
            for g in range(ng - 1):
                f = (sum(read_pattern[g]) / len(read_pattern[g])) / read_pattern[g][-1]
                if f == 1:
                    continue
                t = (thr[i, g] if four else thr)
                nc = nocheck[i, g] if four else nocheck
                lim = np.where(nc, t, t * f)
                could = ((base[g] & (S | D)) == 0) & ((base[g + 1] & S) != 0)
                gdq[i, g][grow(could & (x[i, g] >= lim), n)] |= D
                amb[i, g] |= grow(could & (np.abs(x[i, g] - lim) <= 1e-6 * np.abs(lim)), n)
            if ng > 2:
                t = thr[i, 0] if four else thr
                b = 0.0 if d["bias"] is None else (d["bias"][i, 0] if d["bias"].ndim == 4 else d["bias"]).astype(np.float64)
                rp = read_pattern
                pred = (x[i, 0] - b) / (sum(rp[0]) / len(rp[0])) * rp[2][-1] + b
                step = x[i, 1] - x[i, 0]
                room = (t - x[i, 0]) / len(rp[1])
                hit = (pred < t) & (step > room) & ((gdq[i, 2] & S) != 0) & ((gdq[i, 1] & S) == 0)
                gdq[i, 1][hit] |= D
                cand = ((gdq[i, 2] & S) != 0) & ((gdq[i, 1] & S) == 0)
                near = (np.abs(pred - t) <= 3e-5 * (1 + np.abs(t))) | (np.abs(step - room) <= 3e-6 * (1 + np.abs(t)))
                amb[i, 1] |= cand & near
        if z is not None:
            t = thr[i, 0] if four else thr
            p = z[i].astype(np.float64)
            z[i][grow(p >= t, n) | (p <= 0)] = 0
    return gdq, d["pdq"].astype(np.int64) | rdq, z, amb


def make(c, fl, nread=False, limit=65535, dims4=None):
    rng = c.rng
    ni = int(rng.integers(1, 4))
    ng = int(rng.integers(1, 9))
    ny, nx = int(rng.integers(1, 13)), int(rng.integers(1, 13))
    n = int(rng.choice([0, 1, 1, 1, 2, 3]))
    four = bool(rng.random() < 0.25) if dims4 is None else dims4
    rate = 10 ** rng.uniform(1, 4.3, (ni, 1, ny, nx))
    step = rate * rng.uniform(0.2, 1.8, (ni, ng, ny, nx))
    kick = (rng.random((ni, ng, ny, nx)) < 0.08) * rng.uniform(0, 60000, (ni, ng, ny, nx))
    data = np.cumsum(step + kick, axis=1) + rng.uniform(-500, 3000, (ni, 1, ny, nx))
    data = np.minimum(np.round(data), limit).astype(np.float32)
    data[rng.random(data.shape) < 0.04] = 0
    data[rng.random(data.shape) < 0.03] *= -1
    if rng.random() < 0.3:
        data[rng.random(data.shape) < 0.05] = np.nan
    shp = (ni, ng, ny, nx) if four else (ny, nx)
    thr = rng.uniform(15000, 64000, shp).astype(np.float32).round()
    # values exactly at the threshold
    eq = rng.random(data.shape) < 0.05
    data = np.where(eq, np.broadcast_to(thr, data.shape), data).astype(np.float32)
    thr[rng.random(shp) < 0.08] = np.nan
    sat_dq = np.zeros(shp, np.uint32)
    sat_dq[rng.random(shp) < 0.08] |= fl["NO_SAT_CHECK"]
    sat_dq[rng.random(shp) < 0.08] |= 1 << 11
    gdq = np.zeros(data.shape, np.uint8)
    for bit, p in ((fl["DO_NOT_USE"], 0.04), (fl["SATURATED"], 0.01), (fl["AD_FLOOR"], 0.02), (32, 0.05)):
        gdq[rng.random(gdq.shape) < p] |= np.uint8(bit)
    pdq = np.zeros(shp, np.uint32)
    pdq[rng.random(shp) < 0.15] |= 1 << 3
    pdq[rng.random(shp) < 0.1] |= 1
    if rng.random() < 0.3:
        gdq, = (gdq.astype(np.uint32),)
    z = None
    if rng.random() < 0.5:
        z = (data[:, 0] * rng.uniform(0.2, 1.5, (ni, ny, nx))).astype(np.float32).round()
        z[rng.random(z.shape) < 0.1] = 0
        z[~np.isfinite(z)] = 5.0
    bias = None
    if nread and rng.random() < 0.7:
        bias = rng.uniform(0, 3000, shp)
        if four:
            bias = bias + rng.uniform(0, 6000, (ni, 1, 1, 1))
        bias = bias.astype(np.float32)
    return dict(data=data, gdq=gdq, pdq=pdq, thr=thr, sat_dq=sat_dq, z=z, bias=bias), n, limit


def pattern(rng, ng, single=False):
    rp, t = [], 0
    k = 1 if single else int(rng.integers(2, 9))
    for _ in range(ng):
        m = 1 if single else (k if rng.random() < 0.7 else int(rng.integers(1, 9)))
        t += int(rng.integers(0, 3))
        rp.append(list(range(t + 1, t + m + 1)))
        t += m
    return rp


def run(c, d, fl, limit, n, **kw):
    from stcal.saturation.saturation import flag_saturated_pixels

    k = {a: (None if b is None else b.copy()) for a, b in d.items()}
    out = c.call(flag_saturated_pixels, k["data"], k["gdq"], k["pdq"], k["thr"], k["sat_dq"], limit, fl, n_pix_grow_sat=n,
                 zframe=k["z"], bias=k["bias"], **kw)
    c.equal(k["data"], d["data"], "data_modified", "science data after flagging")
    return out


def compare(c, d, got, want, what):
    gdq, pdq, z = got
    wg, wp, wz, amb = want
    fl = c.fl
    c.equal(np.asarray(gdq).astype(np.int64) & fl["SATURATED"], wg & fl["SATURATED"], "saturated_flags", f"{what}: saturated flag")
    c.equal(np.asarray(gdq).astype(np.int64), wg, "group_flags", f"{what}: group flags", mask=~amb)
    c.equal(np.asarray(pdq).astype(np.int64), wp, "pixel_flags", f"{what}: pixel flags")
    if wz is not None:
        c.equal(np.asarray(z, float), wz.astype(float), "zero_frame", f"{what}: zero frame")
    else:
        c.check(z is None, "zero_frame_invented", f"{what}: zero frame {z!r}")
    c.count("ambiguous_groups", int(amb.sum()))


class S01:
    PID = "S01"
    RULE = ("random exposures of 1-3 integrations, 1-8 groups, 1-12 x 1-12 pixels: ramps with kicks, exact-threshold values, "
            "zeros, NaN, 2-D or 4-D thresholds, unchecked pixels, prior flags, zero frames, growth 0-3, two flag numberings; "
            "distinct = (growth, dims, 2-D/4-D, zero frame, set of per-pixel histories classes)")
    ASSUMPTIONS = ["science values do not exceed the A/D limit", "thresholds are finite or NaN"]
    REQUIRE = {"groups_newly_saturated": 200, "grown_groups": 100, "floor_groups": 100, "unchecked_pixels": 50,
               "zero_frames": 20}

    @staticmethod
    def case(c):
        fl = c.fl = FL1 if c.idx % 3 else FL2
        d, n, limit = make(c, fl)
        want = reference(d, fl, limit, n)
        kw = {}
        if c.idx % 4 == 0:
            kw["read_pattern"] = None
        got = run(c, d, fl, limit, n, **kw)
        S = fl["SATURATED"]
        new = ((want[0] & S) != 0) & ((d["gdq"] & S) == 0)
        c.count("groups_newly_saturated", int(new.sum()))
        t = d["thr"]
        c.count("grown_groups", int((new & ~(d["data"] >= t)).sum()))
        c.count("floor_groups", int((d["data"] <= 0).sum()))
        c.count("unchecked_pixels", int((np.isnan(t) | ((d["sat_dq"] & fl["NO_SAT_CHECK"]) != 0)).sum()))
        c.count("zero_frames", int(d["z"] is not None))
        sh = d["data"].shape
        c.state(n, min(sh[2], 5), min(sh[3], 5), sh[0] > 1, t.ndim, d["z"] is not None, d["gdq"].dtype.itemsize)
        c.describe(shape=sh, growth=n, threshold_dims=t.ndim, new=int(new.sum()))
        compare(c, d, got, want, f"shape {sh} growth {n}")

    @staticmethod
    def streams(tier):
        return [("ramps", 700 if tier == "quick" else 30000, S01.case)]


class S02:
    PID = "S02"
    RULE = ("as S01 with read patterns of 1-8 reads per group (uniform, uneven, with gaps), bias images, planted saturation inside a "
            "group; single-read patterns and no pattern compared with each other; distinct = (reads, bias, dims, tests that fired)")
    ASSUMPTIONS = ["read numbers start at 1 and increase", "groups whose decision lies within rounding error of the limit are not judged"]
    REQUIRE = {"partial_groups": 60, "second_group_hits": 25, "single_read_runs": 10, "grown_dnu": 20}

    @staticmethod
    def plant(rng, d, rp):
        """Make ramps that saturate inside a group, in particular inside the second one."""
        x, thr = d["data"], d["thr"]
        ni, ng, ny, nx = x.shape
        for i in range(ni):
            for y in range(ny):
                for q in range(nx):
                    if rng.random() > 0.5 or ng < 3:
                        continue
                    t = float(thr[y, q]) if thr.ndim == 2 else float(thr[i, 0, y, q])
                    if not np.isfinite(t):
                        continue
                    g = 1 if rng.random() < 0.6 else int(rng.integers(0, ng - 1))
                    base = rng.uniform(100, 3000)
                    b = 0.0
                    if d["bias"] is not None:
                        b = float(d["bias"][y, q]) if d["bias"].ndim == 2 else float(d["bias"][i, 0, y, q])
                    rate = rng.uniform(1, 0.7 * t / rp[-1][-1])
                    v = b + rate * np.array([np.mean(r) for r in rp]) + base * 0.01
                    frac = rng.uniform(0.05, 1.0)
                    v[g] = min(v[g] + frac * (t - v[g]), t * 0.99999)
                    v[g + 1:] = t + rng.uniform(0, 500)
                    x[i, :, y, q] = np.minimum(v, 65535)
                    d["gdq"][i, :, y, q] = 0

    @staticmethod
    def each_integration(c):
        S02.case(c, True)

    @staticmethod
    def case(c, four=None):
        fl = c.fl = FL1 if c.idx % 3 else FL2
        d, n, limit = make(c, fl, nread=True, dims4=four)
        ng = d["data"].shape[1]
        rp = pattern(c.rng, ng)
        S02.plant(c.rng, d, rp)
        if c.rng.random() < 0.3:
            rp = [[float(v) * 3.04 for v in r] for r in rp]
        want = reference(d, fl, limit, n, rp)
        base = reference(d, fl, limit, n, None)
        got = run(c, d, fl, limit, n, read_pattern=rp)
        added = (want[0] != base[0])
        c.count("partial_groups", int(added.sum()))
        if ng > 2:
            c.count("second_group_hits", int(added[:, 1].sum()))
        c.count("grown_dnu", int((added & (d["data"] < 0.5 * np.broadcast_to(np.nan_to_num(d["thr"]), d["data"].shape))).sum()))
        c.state(len(rp[0]), d["bias"] is None, d["thr"].ndim, n, bool(added.any()), ng > 2 and bool(added[:, 1].any()))
        c.describe(shape=d["data"].shape, growth=n, pattern=rp, added=int(added.sum()))
        compare(c, d, got, want, f"pattern {rp} growth {n}")

    @staticmethod
    def single(c):
        fl = c.fl = FL1
        d, n, limit = make(c, fl, nread=True, dims4=False)
        rp = pattern(c.rng, d["data"].shape[1], single=True)
        want = reference(d, fl, limit, n, None)
        c.count("single_read_runs")
        for p in (rp, None):
            got = run(c, d, fl, limit, n, read_pattern=p)
            w = list(want)
            w[3] = reference(d, fl, limit, n, rp)[3]
            compare(c, d, got, w, f"single-read pattern {p}")
        c.state("single", n, d["thr"].ndim)

    @staticmethod
    def streams(tier):
        q = tier == "quick"
        return [("patterns", 700 if q else 30000, S02.case), ("each_integration", 500 if q else 10000, S02.each_integration), ("single", 100 if q else 3000, S02.single)]


CHECKS = {"S01": S01, "S02": S02}
