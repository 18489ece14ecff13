"""Two-point-difference jump detection written ramp by ramp from its published rule.

Everything is evaluated in double precision; a pixel whose decision lies within rounding
distance of a threshold is reported as not judged.
"""
import warnings

import numpy as np

REL, ABS = 2e-4, 4e-3


def _near(r, thr):
    return np.isfinite(r) & (np.abs(r - thr) <= ABS + REL * np.abs(thr))


class Ref:
    def __init__(self, d, o, flags):
        self.J, self.S, self.D = flags["JUMP_DET"], flags["SATURATED"], flags["DO_NOT_USE"]
        self.o = o
        self.gdq0 = d.gdq.copy()
        self.gain = d.gain
        data = d.data * d.gain
        self.rn2 = (d.rn * d.gain).astype(float) ** 2
        ni, ng, ny, nx = data.shape
        self.shape = data.shape
        bad = self.gdq0 & (self.D | self.S) != 0
        data = data.copy()
        data[bad] = np.nan
        if d.read_pattern is not None:
            t = np.array([np.mean(x) for x in d.read_pattern])
            n = np.array([len(x) for x in d.read_pattern], float)
            self.dt = np.diff(t)
            self.nr = n[1:] + n[:-1]
        else:
            self.dt = np.ones(ng - 1)
            self.nr = np.full(ng - 1, 2.0 * d.nframes)
        self.diff = np.diff(data, axis=1).astype(float) / self.dt[None, :, None, None]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.med = np.nanmedian(self.diff, axis=(0, 1)) if ng > 1 else np.full((ny, nx), np.nan)
        self.sigma = self.sig(self.med[None])
        self.uniform = np.all(self.nr == self.nr[0]) and np.allclose(self.dt, self.dt[0], rtol=1e-13) if ng > 1 else True

    def sig(self, med):
        """med: (1, ...pix) -> (ndiff, ...pix)"""
        sh = (-1,) + (1,) * (med.ndim - 1)
        dt, nr = self.dt.reshape(sh), self.nr.reshape(sh)
        s = np.sqrt(np.abs(med) * dt + self.rn2[None] / (0.5 * nr)) / dt
        s[s == 0] = np.nan
        return s

    # ------------------------------------------------------------------
    def usable(self):
        ni, ng = self.shape[:2]
        dead = np.all(self.gdq0 & self.D != 0, axis=(2, 3)).sum(axis=1)
        return ng - int(dead.max()), ni * ng - int(dead.sum())

    def mode(self):
        o = self.o
        ni, ng = self.shape[:2]
        min_groups, total = self.usable()
        enough_sig = ni >= o["minimum_sigclip_groups"] if o["only_use_ints"] else total >= o["minimum_sigclip_groups"]
        if min_groups < o["minimum_groups"] and not enough_sig:
            return "skip"
        if enough_sig and self.uniform:
            return "sigclip"
        if min_groups - 1 >= o["min_diffs_single_pass"]:
            return "single"
        return "iterative"

    def primary(self, row_sets=None):
        """-> (gdq with primary jumps, not-judged pixel mask)."""
        ni, ng, ny, nx = self.shape
        g = self.gdq0.copy()
        amb = np.zeros((ny, nx), bool)
        m = self.mode()
        o = self.o
        if m == "skip":
            return g, amb, m
        if m == "single":
            with np.errstate(all="ignore"):
                r = np.abs(self.diff - self.med) / self.sigma[None]
            hit = np.isfinite(self.diff) & (r > o["rejection_thresh"])
            amb |= _near(r, o["rejection_thresh"]).any(axis=(0, 1))
            g[:, 1:][hit] |= self.J
        elif m == "iterative":
            for y in range(ny):
                for x in range(nx):
                    hits, a = self._iterate(self.diff[:, :, y, x], self.rn2[y, x])
                    amb[y, x] = a
                    for i, k in hits:
                        g[i, k + 1, y, x] |= self.J
        else:
            for y in range(ny):
                for x in range(nx):
                    cols = [self.diff[:, k, y, x] for k in range(ng - 1)] if o["only_use_ints"] else [
                        self.diff[:, :, y, x].ravel()]
                    masks = []
                    for c in cols:
                        mk, a = self._clip(c)
                        amb[y, x] |= a
                        masks.append(mk)
                    mask = np.array(masks).T if o["only_use_ints"] else masks[0].reshape(ni, ng - 1)
                    ok = self.gdq0[:, 1:, y, x] & (self.S | self.D) == 0
                    g[:, 1:, y, x][mask & ok & np.isfinite(self.diff[:, :, y, x])] |= self.J
            self.allflag_amb = False
            for sl in row_sets or [slice(None)]:
                for i in range(ni):
                    for k in range(ng):
                        p = g[i, k, sl]
                        fl = p & (self.J | self.D) != 0
                        if np.all(fl | amb[sl]):
                            if amb[sl].any():
                                self.allflag_amb = True
                            p[p == self.J] = 0
        return g, amb, m

    def _iterate(self, diff, rn2):
        o = self.o
        a = np.abs(diff)
        hits, amb = [], False
        dt, nr = self.dt[None, :], self.nr[None, :]
        for _ in range(a.size + 1):
            ok = np.isfinite(a)
            n = int(ok.sum())
            if n < 2:
                break
            v = np.sort(a[ok])
            if n >= 4:
                rest = v[v < v[-1]]
                med = np.median(rest) if rest.size else np.nan
                if v[-1] - v[-2] <= 1e-6 * v[-1] and v[-1] != v[-2]:
                    pass  # ties that are not exact change the median only by rounding
                thr = o["rejection_thresh"]
            elif n == 3:
                med, thr = v[1], o["four_grp_thresh"]
            else:
                med, thr = v[0], o["three_grp_thresh"]
            s = np.sqrt(np.abs(med) * dt + rn2 / (0.5 * nr)) / dt
            s = np.where(s == 0, np.nan, s)
            with np.errstate(all="ignore"):
                r = np.abs(a - med) / s
            r = np.where(np.isfinite(r), r, -1.0) if np.isinf(r).sum() == 0 else np.where(np.isnan(r), -1.0, r)
            mx = r.max()
            if _near(np.array(mx), thr):
                amb = True
            if not mx > thr:
                break
            close = (r >= mx - (1e-6 + 1e-4 * abs(mx))) & (r != mx)
            if close.any():
                amb = True
            for i, k in np.argwhere(r == mx):
                hits.append((int(i), int(k)))
                a[i, k] = np.nan
        return hits, amb

    def _clip(self, c):
        thr = self.o["rejection_thresh"]
        x = c.astype(float)
        keep = np.isfinite(x)
        lo = hi = np.nan
        amb = False
        for _ in range(5):
            if not keep.any():
                break
            m, s = np.median(x[keep]), np.std(x[keep])
            lo, hi = m - thr * s, m + thr * s
            tol = 1e-4 * thr * s + 2e-3
            for b in (lo, hi):
                if np.any(np.abs(x[np.isfinite(x)] - b) <= tol):
                    amb = True
            new = keep & (x >= lo) & (x <= hi)
            if (new == keep).all():
                break
            keep = new
        with np.errstate(invalid="ignore"):
            return (x < lo) | (x > hi) | ~np.isfinite(x), amb

    # ------------------------------------------------------------------
    def growth(self, g, amb, rows_of=None):
        """Neighbours, then the groups after a jump.

        rows_of: slice number of each row.  When given, flags that reach a pixel from another
        slice are added last, i.e. without the groups after them (what slicing is known to do).
        """
        o = self.o
        J, S, D = self.J, self.S, self.D
        ni, ng, ny, nx = self.shape
        amb = amb.copy()
        late = np.zeros(g.shape, bool)
        free = self.gdq0 & (S | D) == 0
        if o["flag_4_neighbors"] and ng > 1:
            with np.errstate(all="ignore"):
                ratio = np.abs(self.diff - self.med) / self.sigma[None]
            mx, mn = o["max_jump_to_flag_neighbors"], o["min_jump_to_flag_neighbors"]
            js = g[:, 1:] & J != 0
            src = js & (ratio < mx) & (ratio > mn)
            unsure = (js & (_near(ratio, mx) | _near(ratio, mn))).any(axis=(0, 1)) | amb
            spread = unsure.copy()
            spread[1:] |= unsure[:-1]
            spread[:-1] |= unsure[1:]
            spread[:, 1:] |= unsure[:, :-1]
            spread[:, :-1] |= unsure[:, 1:]
            grown = np.zeros_like(src)
            grown[:, :, :, 1:] |= src[:, :, :, :-1]
            grown[:, :, :, :-1] |= src[:, :, :, 1:]
            for y in range(1, ny):
                cross = rows_of is not None and rows_of[y] != rows_of[y - 1]
                (late[:, 1:] if cross else grown)[:, :, y] |= src[:, :, y - 1]
                (late[:, 1:] if cross else grown)[:, :, y - 1] |= src[:, :, y]
            g[:, 1:][grown & free[:, 1:]] |= J
            amb = spread
        n1, n2 = o["after_jump_flag_n1"], o["after_jump_flag_n2"]
        if (n1 > 0 or n2 > 0) and ng > 1:
            gm = float(np.nanmedian(self.gain))
            e = (self.diff - self.med) * self.dt[None, :, None, None]
            js = g[:, 1:] & J != 0
            add = np.zeros(g.shape, bool)
            for n, dn in ((n1, o["after_jump_flag_dn1"]), (n2, o["after_jump_flag_dn2"])):
                lim = dn * gm
                amb |= (js & (np.abs(e - lim) <= ABS + REL * abs(lim))).any(axis=(0, 1))
                for i, k, y, x in np.argwhere(js & (e >= lim)):
                    add[i, k + 1:k + 2 + n, y, x] = True
            g[add & free] |= J
        g[late & free] |= J
        return g, amb


def expected(d, o, flags, rows_of=None):
    r = Ref(d, o, flags)
    sets = None
    if rows_of is not None:
        rows_of = np.asarray(rows_of)
        sets = [np.flatnonzero(rows_of == k) for k in np.unique(rows_of)]
        sets = [slice(int(s[0]), int(s[-1]) + 1) for s in sets]
    g, amb, mode = r.primary(sets)
    primary = int(np.sum(g & r.J != 0)) if mode != "skip" else -99
    exact = not amb.any()
    if mode == "sigclip" and r.allflag_amb:
        amb = np.ones_like(amb)
    if mode != "skip":
        g, amb = r.growth(g, amb, rows_of)
    for f in (r.S, r.D):
        m = g & (r.J | f) == (r.J | f)
        g[m] ^= r.J
    return g, amb, mode, primary, exact
