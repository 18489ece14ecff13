"""Reference model of the documented OLS ramp fit, one pixel at a time, in double precision.

Written from the documentation (segments, optimal weighting, variances, special cases);
used as the oracle for R01, R02 and R04.
"""
import math

import numpy as np

BIG = 1.0e6  # variances above this are reported as zero
NAN = float("nan")


def segments(gdq, dq, nosat_stop=False):
    """[start, end) runs of good groups; a run directly preceded by a pure jump starts on the jump."""
    pers, jump, sat = dq["PERSISTENCE"], dq["JUMP_DET"], dq["SATURATED"]
    n = len(gdq)
    if not nosat_stop and int(gdq[0]) & sat:
        return []
    g = [int(v) & ~pers for v in gdq]
    segs, i = [], 0
    while i < n:
        if g[i] == 0:
            s = i - 1 if i > 0 and g[i - 1] == jump else i
            while i < n and g[i] == 0:
                i += 1
            segs.append((s, i))
        else:
            i += 1
    if len(segs) > 1:
        if max(e - s for s, e in segs) < 2:
            segs = segs[:1]
        else:
            segs = [(s, e) for s, e in segs if e - s > 1]
    return segs


def inv(x):
    if x == 0:
        return math.inf
    return 1.0 / x


def power_of(snr):
    for lim, p in ((5, 0.0), (10, 0.4), (20, 1.0), (50, 3.0), (100, 6.0)):
        if snr < lim:
            return p
    return 10.0


class Pixel:
    """Everything the fit says about one pixel."""

    def __init__(self, data, gdq, pixdq, gain, rn, dcur, zf, ogdq, m, suppress):
        self.dqd = dq = m.dq
        D, S, J, P, CH = (dq[k] for k in ("DO_NOT_USE", "SATURATED", "JUMP_DET", "PERSISTENCE", "CHARGELOSS"))
        INV = D | S
        nints, ng = data.shape
        gt, ft = float(m.group_time), float(m.frame_time)
        t1 = (m.nframes + 1) * ft / 2.0
        ped_t = ((m.nframes + 1) / 2.0 + (m.drop or 0)) / (m.nframes + m.groupgap)
        gain, rn, dcur = float(gain), float(rn), float(dcur)
        badgain = not gain > 0
        base = int(pixdq)
        if badgain:
            base |= D | dq["NO_GAIN_VALUE"]
        self.edge = False
        data = data.astype(float).copy()
        gdq = gdq.astype(int).copy()
        stats, crs = [], []
        timing1 = []
        for i in range(nints):
            g = gdq[i]
            data[i][(g & S) != 0] = NAN
            crs.append([data[i][k] - data[i][k - 1] for k in range(1, ng) if g[k] & J])
            st = dict(good=int(((g & ~P) == 0).sum()), unus=int(((g & INV) != 0).sum()), sat=int(((g & S) != 0).sum()),
                      jump=bool((g & J).any()), pers=bool((g & P).any()), chg=bool((g & CH).any()))
            t = gt
            st["first"] = None
            if not suppress:
                if st["good"] == 1 and g[0] & ~P == 0:
                    t, st["first"] = t1, "group"
                elif st["good"] == 0 and zf is not None and zf[i] != 0:
                    if st["sat"] == ng:
                        st["sat"] -= 1
                    if st["unus"]:
                        st["unus"] -= 1
                    data[i][0], g[0] = float(zf[i]), 0
                    t, st["first"] = ft, "zero"
            timing1.append(t)
            stats.append(st)
        # median rate
        rates = []
        for i in range(nints):
            d, g = data[i], gdq[i]
            if ng == 1:
                r = d[0] / t1
                if (g[0] & INV):
                    r = NAN
            elif stats[i]["first"]:
                r = d[0] / timing1[i]
            else:
                v = np.where((g & D) != 0, NAN, d) / gt
                df = np.diff(v)
                df[(g[1:] & J) != 0] = NAN
                if np.isnan(df).all() and not math.isnan(v[0]):
                    df[0] = v[0]
                ok = df[~np.isnan(df)]
                r = float(np.median(ok)) if ok.size else NAN
            rates.append(0.0 if math.isnan(r) else r)
        self.median = med = float(np.sum(rates)) / nints
        if abs(med) < 1e-9 * max(1e-30, float(np.sum(np.abs(rates)))) and med != 0:
            self.edge = True

        def var_p(t, n):
            return ((med if med > 0 else 0.0) + dcur) / (t * gain * (n - 1)) if gain != 0 else NAN

        def var_r(t, n):
            return 12.0 * (rn / t) ** 2 / ((n ** 3 - n) * gain * gain) if not badgain else 0.0

        def fit(i, s, e):
            n = e - s
            y = data[i][s:e]
            if n == 1:
                t = timing1[i]
                o = dict(slope=y[0] / t, sigslope=0.0, var_p=var_p(t, 2), var_r=var_r(t, 2), yint=0.0, sigyint=0.0)
            elif n == 2:
                o = dict(slope=(y[1] - y[0]) / gt, sigslope=math.sqrt(2) * rn, var_p=var_p(gt, 2), var_r=var_r(gt, 2),
                         yint=y[0] - (y[1] - y[0]) * s, sigyint=math.sqrt(2) * rn)
            else:
                sig = y[-1] - y[0]
                den = rn * rn + sig * gain
                snr = 0.0
                if den > 0 and gain != 0:
                    snr = max(0.0, sig * gain / math.sqrt(den))
                for lim in (5, 10, 20, 50, 100):
                    if abs(snr - lim) < 1e-5 * lim:
                        self.edge = True
                mid = (n - 1) / 2.0
                w = np.abs((np.arange(n) - mid) / mid) ** power_of(snr) / rn ** 2
                x = s + np.arange(n, dtype=float)
                yy = np.where(np.isnan(y), 0.0, y)
                sw, sx, sxx, sy, sxy = w.sum(), (w * x).sum(), (w * x * x).sum(), (w * yy).sum(), (w * x * yy).sum()
                # centred form: numerically independent of the implementation
                xm, ym = sx / sw, sy / sw
                cxx = (w * (x - xm) ** 2).sum()
                cxy = (w * (x - xm) * (yy - ym)).sum()
                b = cxy / cxx
                o = dict(slope=b / gt, sigslope=math.sqrt(1 / cxx), var_p=var_p(gt, n), var_r=var_r(gt, n),
                         yint=ym - b * xm, sigyint=math.sqrt(sxx / (sw * cxx)))
                self.scale = max(getattr(self, "scale", 0.0), float(np.max(np.abs(yy))))
            o["weight"] = inv(o["var_r"])
            o["n"], o["s"] = n, s
            return o

        self.integ, self.segs, self.crs, self.ped = [], [], crs, []
        R = dict(ip=0.0, ir=0.0, num=0.0)
        rdq = base
        ndnu = nsat = 0
        anysat = False
        err_r = []
        for i in range(nints):
            st = stats[i]
            q = base | (J if st["jump"] else 0) | (P if st["pers"] else 0)
            rdq |= (J if st["jump"] else 0) | (P if st["pers"] else 0)
            slope, vp, vr, er = 0.0, 0.0, 0.0, 0.0
            first_sat = bool(gdq[i][0] & S)
            if first_sat:
                q |= D | S
                slope = NAN
            sg = segments(gdq[i], dq)
            fits = []
            if st["unus"] == ng:
                q |= D
                if st["sat"] == ng:
                    q |= S
            elif sg:
                fits = [fit(i, s, e) for s, e in sg]
                ip = sum(inv(f["var_p"]) for f in fits if f["var_p"] > 0)
                ir = sum(inv(f["var_r"]) for f in fits)
                ie = sum(inv(f["var_p"] + f["var_r"]) for f in fits)
                num = sum(f["slope"] / f["var_r"] if f["var_r"] else NAN for f in fits)
                vp = inv(ip) if ip > 0 else 0.0
                vr = inv(ir)
                vp, vr = (0.0 if v >= BIG else v for v in (vp, vr))
                ve = inv(ie)
                if q & INV:
                    slope = NAN
                    vp = vr = er = 0.0
                else:
                    slope = num * vr
                    er = 0.0 if ve > BIG else math.sqrt(ve)
                if ip > 0:
                    R["ip"] += ip
                R["ir"] += ir
                R["num"] += num
            if q & D:
                ndnu += 1
                slope = NAN
            ped = 0.0
            if not q & S:
                ped = data[i][0] - slope * ped_t
                if math.isnan(ped):
                    ped = 0.0
            if q & S:
                nsat += 1
                slope = NAN
            if st["sat"] > 0:
                q |= S
                anysat = True
            self.integ.append(dict(slope=slope, var_poisson=vp, var_rnoise=vr, err=er, dq=q))
            self.segs.append(sg if st["unus"] != ng or True else [])
            self.ped.append(ped)
            err_r.append(fits)
        self.fits = err_r
        if ndnu == nints:
            rdq |= D
        if nsat == nints:
            rdq |= S
        vp = inv(R["ip"]) if R["ip"] > 0 else 0.0
        vr = inv(R["ir"]) if R["ir"] > 0 else 0.0
        vp, vr = (0.0 if v >= BIG else v for v in (vp, vr))
        er = math.sqrt(vp + vr)
        slope = R["num"]
        if rdq & INV:
            slope, vp, vr, er = NAN, 0.0, 0.0, 0.0
        if anysat:
            rdq |= S
        if not math.isnan(slope):
            slope *= vr
        self.rate = dict(slope=slope, var_poisson=vp, var_rnoise=vr, err=er, dq=rdq)
        # read noise as if charge-loss groups had been used
        if ogdq is not None and any(st["chg"] for st in stats):
            tot = 0.0
            for i in range(nints):
                if not stats[i]["chg"]:
                    v = self.integ[i]["var_rnoise"]
                    tot += 1.0 / v if v > 0 else 0.0
                    continue
                og = ogdq[i].astype(int).copy()
                w = (og & CH) != 0
                og[w] ^= D | CH
                ir = 0.0
                for s, e in segments(og, dq, nosat_stop=True):
                    n = e - s
                    v = var_r(timing1[i], 2) if n == 1 else var_r(gt, n)
                    if v > 0:
                        ir += 1.0 / v
                v = inv(ir)
                self.integ[i]["var_rnoise"] = 0.0 if v >= BIG else v
                tot += ir
            if tot > 0:
                v = 1.0 / tot
                self.rate["var_rnoise"] = 0.0 if v >= BIG else v


def prepare(m, suppress):
    """The exposure after group suppression and MIRI trimming, or None when nothing is left."""
    D, S, J = m.dq["DO_NOT_USE"], m.dq["SATURATED"], m.dq["JUMP_DET"]
    data, gdq = m.data, m.gdq.copy()
    nints, ng, ny, nx = data.shape
    og = gdq.copy() if (gdq & m.dq["CHARGELOSS"]).any() else None
    if suppress and ng > 1:
        one = ((gdq & ~np.uint8(m.dq["PERSISTENCE"] & 0xFF)) == 0).sum(axis=1) == 1
        gdq = np.where(one[:, None], gdq | D, gdq).astype(gdq.dtype)
    else:
        suppress = False
    if m.instrument == "MIRI" and ng > 1:
        lo = 0
        while lo < ng and ((gdq[:, lo] & D) != 0).all():
            lo += 1
        if lo == ng:
            return None
        if lo:
            gdq[:, lo] &= ~np.uint8(J)
        hi = ng - 1 if ((gdq[:, -1] & D) != 0).all() else ng
        if hi - lo < 2:
            return None
        data, gdq = data[:, lo:hi], gdq[:, lo:hi]
        og = og[:, lo:hi] if og is not None else None
    if ((gdq[:, 0] & S) != 0).all():
        return None
    return data, gdq, og, suppress


def fit_exposure(m, suppress=False):
    """Returns None or {(y, x): Pixel}."""
    p = prepare(m, suppress)
    if p is None:
        return None
    data, gdq, og, suppress = p
    rn = (m.rn * (m.gain / np.sqrt(2.0 * m.nframes))).astype(np.float32)
    out = {}
    with np.errstate(all="ignore"):
        for y in range(data.shape[2]):
            for x in range(data.shape[3]):
                out[y, x] = Pixel(data[:, :, y, x], gdq[:, :, y, x], m.pdq[y, x], m.gain[y, x], rn[y, x], m.dark[y, x],
                                  None if m.zeroframe is None else m.zeroframe[:, y, x],
                                  None if og is None else og[:, :, y, x], m, suppress)
    return out
