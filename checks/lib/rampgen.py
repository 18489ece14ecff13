"""Ramp exposures for the fitters: generation, packing into models, running."""
import copy
from types import SimpleNamespace

import numpy as np

DQ = {"GOOD": 0, "DO_NOT_USE": 1, "SATURATED": 2, "JUMP_DET": 4, "DROPOUT": 8, "OUTLIER": 16, "PERSISTENCE": 32,
      "AD_FLOOR": 64, "CHARGELOSS": 128, "NO_GAIN_VALUE": 1 << 19, "UNRELIABLE_SLOPE": 1 << 24,
      "REFERENCE_PIXEL": 1 << 31}
# same names, other bit positions: nothing may depend on the particular values
DQ2 = {"GOOD": 0, "DO_NOT_USE": 8, "SATURATED": 64, "JUMP_DET": 1, "DROPOUT": 2, "OUTLIER": 128, "PERSISTENCE": 16,
       "AD_FLOOR": 32, "CHARGELOSS": 4, "NO_GAIN_VALUE": 1 << 10, "UNRELIABLE_SLOPE": 1 << 20,
       "REFERENCE_PIXEL": 1 << 30}


class Model(SimpleNamespace):
    def hasattr(self, name):
        return getattr(self, name, None) is not None


def make(rng, nints=1, ngroups=6, nrows=3, ncols=4, nframes=1, groupgap=0, frame_time=None, drop=0, rate_max=80.0,
         jump_p=0.08, sat_p=0.15, dnu_p=0.06, pers_p=0.0, charge_p=0.0, other_p=0.0, zeroframe=False, dark=False,
         badgain_p=0.0, nan_p=0.0, instrument="NIRCam", pixdq_p=0.05, noise=True, dq=DQ, jump_first_p=0.0):
    """One exposure as plain arrays.  Rates, noise, cosmic rays and flags are drawn per pixel."""
    ft = float(frame_time if frame_time is not None else rng.uniform(0.5, 12))
    gt = ft * (nframes + groupgap)
    shp = (nints, ngroups, nrows, ncols)
    rate = np.where(rng.random((nrows, ncols)) < 0.2, rng.normal(0, 1, (nrows, ncols)),
                    10 ** rng.uniform(-2, np.log10(rate_max), (nrows, ncols)))
    gain = rng.uniform(0.7, 6.0, (nrows, ncols)).astype(np.float32)
    rn = rng.uniform(2.0, 25.0, (nrows, ncols)).astype(np.float32)
    t = gt * (np.arange(ngroups) + 0.5)
    data = rng.normal(0, 20, (nints, 1, nrows, ncols)) + rate * t[None, :, None, None]
    if noise:
        data = data + rng.normal(0, 1, shp) * rn / np.sqrt(2)
    gdq = np.zeros(shp, np.uint8)
    J, S, D = dq["JUMP_DET"], dq["SATURATED"], dq["DO_NOT_USE"]
    cr = rng.random(shp) < jump_p
    cr[:, 0] = rng.random((nints, nrows, ncols)) < jump_first_p
    data += np.cumsum(np.where(cr, rng.uniform(50, 5000, shp), 0.0), axis=1)
    gdq[cr] |= J
    gdq[(rng.random(shp) < dnu_p)] |= D
    if pers_p:
        gdq[rng.random(shp) < pers_p] |= dq["PERSISTENCE"]
    if other_p:
        gdq[rng.random(shp) < other_p] |= dq["DROPOUT"]
    for i in range(nints):
        for y in range(nrows):
            for x in range(ncols):
                if rng.random() < sat_p:
                    g0 = int(rng.integers(0, ngroups)) if rng.random() < 0.7 else int(rng.integers(0, min(3, ngroups)))
                    gdq[i, g0:, y, x] |= S
                    if rng.random() < 0.5:
                        data[i, g0:, y, x] = 60000 + rng.normal(0, 5, ngroups - g0)
                if charge_p and rng.random() < charge_p:
                    g0 = int(rng.integers(0, ngroups))
                    gdq[i, g0:, y, x] |= dq["CHARGELOSS"] | D
    if nan_p:
        bad = (rng.random(shp) < nan_p) & ((gdq & (S | D)) != 0)
        data[bad] = rng.choice([np.nan, np.inf, -1e30], size=int(bad.sum()))
    pixdq = np.zeros((nrows, ncols), np.uint32)
    pixdq[rng.random((nrows, ncols)) < pixdq_p] |= dq["DROPOUT"]
    pixdq[rng.random((nrows, ncols)) < pixdq_p] |= dq["DO_NOT_USE"]
    pixdq[rng.random((nrows, ncols)) < pixdq_p] |= dq["UNRELIABLE_SLOPE"]
    if badgain_p:
        bad = rng.random((nrows, ncols)) < badgain_p
        gain[bad] = rng.choice(np.array([np.nan, 0.0, -1.0], np.float32), size=int(bad.sum()))
    z = None
    if zeroframe:
        z = (data[:, 0] * rng.uniform(0.3, 0.9, (nints, nrows, ncols))).astype(np.float32)
        z[(rng.random(z.shape) < 0.25) | ~np.isfinite(z) | (np.abs(z) > 1e7)] = 0.0
    adc = np.zeros((nrows, ncols), np.float32)
    if dark:
        adc = rng.uniform(0, 3, (nrows, ncols)).astype(np.float32)
    return SimpleNamespace(
        data=data.astype(np.float32), gdq=gdq, pdq=pixdq, gain=gain, rn=rn, zeroframe=z, dark=adc, nframes=nframes,
        groupgap=groupgap, frame_time=ft, group_time=gt, drop=drop, instrument=instrument, dq=dq)


def clone(m):
    return copy.deepcopy(m)


def simple_ramp(rng, **kw):
    return make(rng, **kw)


def pack(m):
    exp = SimpleNamespace(frame_time=m.frame_time, group_time=m.group_time, groupgap=m.groupgap, nframes=m.nframes,
                          drop_frames1=m.drop)
    if getattr(m, "read_times", None) is not None:
        exp.read_times = m.read_times
    meta = SimpleNamespace(instrument=SimpleNamespace(name=m.instrument), exposure=exp)
    return Model(data=m.data, groupdq=m.gdq, pixeldq=m.pdq, average_dark_current=m.dark, zeroframe=m.zeroframe, meta=meta)


def run_ols(m, save_opt=False, max_cores="none", suppress=False, copy_in=True, algorithm="OLS_C"):
    """Fit a private copy of the exposure; returns (image, integ, opt, the copies used)."""
    from stcal.ramp_fitting.ramp_fit import ramp_fit

    k = clone(m) if copy_in else m
    im, ii, oo = ramp_fit(pack(k), save_opt, k.rn, k.gain, algorithm, "optimal", max_cores, m.dq, suppress)
    return im, ii, oo, k
