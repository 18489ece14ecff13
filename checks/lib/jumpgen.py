"""Exposures and settings for jump detection."""
import copy
from types import SimpleNamespace

import numpy as np

from checks.lib.rampgen import DQ

FLAGS = {k: DQ[k] for k in ("GOOD", "DO_NOT_USE", "SATURATED", "JUMP_DET", "NO_GAIN_VALUE", "REFERENCE_PIXEL")}


def make(rng, nints=1, ngroups=8, nrows=4, ncols=5, nframes=1, cr_p=0.08, sat_p=0.1, dnu_p=0.04, old_p=0.03, other_p=0.05,
         rn=(3, 20), gain=(1, 4), rate_max=100, dnu_group_p=0.0, read_pattern=None, badgain_p=0.0, zero_rn_p=0.0,
         strength=(0.5, 200)):
    shp = (nints, ngroups, nrows, ncols)
    J, S, D = FLAGS["JUMP_DET"], FLAGS["SATURATED"], FLAGS["DO_NOT_USE"]
    g = rng.uniform(*gain, (nrows, ncols)).astype(np.float32)
    r = rng.uniform(*rn, (nrows, ncols)).astype(np.float32)
    if zero_rn_p:
        r[rng.random(r.shape) < zero_rn_p] = 0
    rate = np.where(rng.random((nrows, ncols)) < 0.3, rng.normal(0, 2, (nrows, ncols)), 10 ** rng.uniform(-1, np.log10(rate_max), (nrows, ncols)))
    if read_pattern is not None:
        t = np.array([np.mean(x) for x in read_pattern])
    else:
        t = np.arange(1, ngroups + 1.0)
    mean = rate * t[None, :, None, None]
    data = rng.normal(0, 30, (nints, 1, nrows, ncols)) + mean + rng.normal(0, 1, shp) * r / np.sqrt(2 * nframes)
    cr = rng.random(shp) < cr_p
    cr[:, 0] = False
    amp = r * 10 ** rng.uniform(np.log10(strength[0]), np.log10(strength[1]), shp) * np.where(rng.random(shp) < 0.1, -1, 1)
    data += np.cumsum(np.where(cr, amp, 0), axis=1)
    gdq = np.zeros(shp, np.uint8)
    gdq[rng.random(shp) < old_p] |= J
    gdq[rng.random(shp) < dnu_p] |= D
    gdq[rng.random(shp) < other_p] |= 16
    sat = rng.random((nints, nrows, ncols)) < sat_p
    for i, y, x in np.argwhere(sat):
        gdq[i, int(rng.integers(0, ngroups)):, y, x] |= S
    if dnu_group_p:
        for i in range(nints):
            for k in range(ngroups):
                if rng.random() < dnu_group_p:
                    gdq[i, k] |= D
    pdq = np.zeros((nrows, ncols), np.uint32)
    pdq[rng.random(pdq.shape) < 0.1] |= 16
    if badgain_p:
        bad = rng.random(g.shape) < badgain_p
        g[bad] = rng.choice(np.array([np.nan, -1, 0], np.float32), int(bad.sum()))
    return SimpleNamespace(data=data.astype(np.float32), gdq=gdq, pdq=pdq, gain=g, rn=r, nframes=nframes,
                           read_pattern=read_pattern)


def clone(d):
    return copy.deepcopy(d)


def jump_data(d, opts):
    from stcal.jump.jump_class import JumpData

    exp = SimpleNamespace(nframes=d.nframes)
    if d.read_pattern is not None:
        exp.read_pattern = d.read_pattern
    model = SimpleNamespace(data=d.data, groupdq=d.gdq, pixeldq=d.pdq, meta=SimpleNamespace(exposure=exp))
    jd = JumpData(model, d.gain, d.rn, FLAGS)
    o = dict(rejection_thresh=4.0, three_grp_thresh=6.0, four_grp_thresh=5.0, flag_4_neighbors=False, max_cores="none",
             min_jump_area=5)
    o.update(opts)
    for k, v in o.items():
        setattr(jd, k, v)
    return jd


def run(d, opts, copy_in=True):
    """Returns (gdq, pdq, primary count, extended count, the copy that was used)."""
    from stcal.jump.jump import detect_jumps_data

    k = clone(d) if copy_in else d
    jd = jump_data(k, opts)
    g, p, n, e = detect_jumps_data(jd)
    return g, p, n, e, k
