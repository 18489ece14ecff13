"""D01: dark subtraction against frame-by-frame bookkeeping."""
from types import SimpleNamespace as NS

import numpy as np

PID = "D01"
RULE = ("random exposures (1-4 integrations, 1-7 groups, 1-6 frames per group, gap 0-5, segment start) against 3-D and 4-D references "
        "(1-4 integrations) that are long enough, too short (extrapolated) or incompatible, with NaNs and flags; "
        "distinct = (reference dims, averaging, gap, segment start, integration surplus, extrapolated)")
ASSUMPTIONS = ["references to be frame-averaged hold single frames without gaps (as all delivered references do)",
               "a reference to be extrapolated has at least two groups"]
REQUIRE = {"subtractions": 4000, "averaged": 60, "four_d": 60, "extrapolated": 30, "skipped": 15, "later_segments": 30}


def make(c):
    rng = c.rng
    ni, ng = int(rng.integers(1, 5)), int(rng.integers(1, 8))
    nf, gap = int(rng.choice([1, 1, 2, 3, 4, 6])), int(rng.choice([0, 0, 1, 2, 5]))
    ny, nx = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    four = bool(rng.random() < 0.5)
    di = int(rng.integers(1, 5)) if four else 1
    kind = str(rng.choice(["average", "average", "match", "skip"], p=[0.4, 0.25, 0.25, 0.1]))
    dnf, dgap = 1, 0
    if kind == "match":
        dnf, dgap = nf, gap
    if kind == "skip":
        dnf, dgap = (nf + int(rng.integers(1, 4)), gap) if rng.random() < 0.5 else (nf, gap + int(rng.integers(1, 4)))
    total = ng * nf + (ng - 1) * gap
    if dnf == nf and dgap == gap:
        dg = max(2, ng + int(rng.integers(-3, 4)))
    else:
        dg = max(2, total + int(rng.integers(-4, 6)))
    shp = (di, dg, ny, nx) if four else (dg, ny, nx)
    dark = np.cumsum(rng.uniform(0, 3, shp), axis=-3) + rng.normal(0, 1, shp)
    dark = dark.astype(np.float32)
    dark[rng.random(shp) < 0.06] = np.nan
    dq = np.zeros((di, 1, ny, nx) if four else (ny, nx), np.uint32)
    for b in (0, 3, 11, 21):
        dq[rng.random(dq.shape) < 0.15] |= 1 << b
    sci = rng.normal(500, 100, (ni, ng, ny, nx)).astype(np.float32)
    sci[rng.random(sci.shape) < 0.02] = np.nan
    gdq = rng.integers(0, 8, sci.shape).astype(np.uint8)
    pdq = np.zeros((ny, nx), np.uint32)
    pdq[rng.random(pdq.shape) < 0.3] |= 1 << 5
    start = [1, None, 1, 2, 5][int(rng.integers(0, 5))]
    return NS(sci=sci, gdq=gdq, pdq=pdq, dark=dark, dq=dq, nf=nf, gap=gap, dnf=dnf, dgap=dgap, start=start, kind=kind, four=four)


def extended(a, extra):
    rate = a[-1] - a[-2]
    return np.concatenate([a, np.stack([a[-1] + rate * k for k in range(1, extra + 1)])]) if extra > 0 else a


def reference(m):
    """(what is subtracted per integration, groups extrapolated) or None when the reference is unusable."""
    ni, ng = m.sci.shape[:2]
    if m.dnf > m.nf or m.dgap > m.gap:
        return None, 0
    d4 = m.dark.astype(float) if m.four else m.dark.astype(float)[None]
    need = ng * m.nf + (ng - 1) * m.gap
    dg = d4.shape[1]
    have = dg * m.dnf + (dg - 1) * m.dgap
    extra = 0
    while (dg + extra) * m.dnf + (dg + extra - 1) * m.dgap < need:
        extra += 1
    assert have >= need or extra
    d4 = np.stack([extended(d, extra) for d in d4])
    d4 = np.where(np.isnan(d4), 0.0, d4)
    if not (m.dnf == m.nf and m.dgap == m.gap):
        groups = []
        for g in range(ng):
            first = g * (m.nf + m.gap)
            groups.append(sum(d4[:, first + k] for k in range(m.nf)) / m.nf)
        d4 = np.stack(groups, axis=1)
    sub = []
    for i in range(ni):
        if not m.four:
            sub.append(d4[0][:ng])
        elif i < d4.shape[0] and m.start in (1, None):
            sub.append(d4[i][:ng])
        else:
            sub.append(d4[-1][:ng])
    return np.stack(sub), extra


def objects(m, models):
    from stcal.dark_current import dark_class

    if models:
        exp = NS(nframes=m.nf, groupgap=m.gap, ngroups=m.sci.shape[1])
        if m.start is not None:
            exp.integration_start = m.start
        sm = NS(data=m.sci.copy(), groupdq=m.gdq.copy(), pixeldq=m.pdq.copy(), meta=NS(exposure=exp))
        dm = NS(data=m.dark.copy(), dq=m.dq.copy(),
                meta=NS(exposure=NS(nframes=m.dnf, groupgap=m.dgap, ngroups=m.dark.shape[-3])))
        return sm, dm
    s = dark_class.ScienceData()
    s.data, s.groupdq, s.pixeldq = m.sci.copy(), m.gdq.copy(), m.pdq.copy()
    s.exp_nframes, s.exp_groupgap, s.exp_intstart = m.nf, m.gap, m.start
    d = dark_class.DarkData()
    d.data, d.groupdq = m.dark.copy(), m.dq.copy()
    d.exp_nframes, d.exp_groupgap, d.exp_ngroups = m.dnf, m.dgap, m.dark.shape[-3]
    return s, d


def case(c):
    from stcal.dark_current import dark_sub

    m = make(c)
    models = bool(c.idx % 2)
    s, d = objects(m, models)
    save = "out.fits" if c.rng.random() < 0.3 else None
    out, avg = c.call(dark_sub.do_correction if models else dark_sub.do_correction_data, s, d, save)
    want, extra = reference(m)
    info = (f"sci {m.sci.shape} frames {m.nf} gap {m.gap} start {m.start}; dark {m.dark.shape} frames {m.dnf} gap {m.dgap}")
    c.describe(case=info, skipped=want is None, extrapolated_groups=extra)
    c.equal(s.data, m.sci, "science_modified", f"{info}: input science data")
    c.equal(s.pixeldq, m.pdq, "science_flags_modified", f"{info}: input pixel flags")
    c.equal(out.groupdq, m.gdq, "group_flags", f"{info}: group flags")
    c.state(m.four, m.nf > 1, m.gap > 0, m.start, m.kind, m.dark.shape[0] > m.sci.shape[0] if m.four else None, extra > 0)
    if want is None:
        c.count("skipped")
        c.equal(out.data, m.sci, "skipped_but_changed", f"{info}: data of a skipped step")
        c.equal(out.pixeldq, m.pdq, "skipped_but_flagged", f"{info}: flags of a skipped step")
        c.check(out.cal_step == "SKIPPED", "status", f"{info}: status {out.cal_step!r}")
        c.check(avg is None, "averaged_dark", f"{info}: averaged dark {avg!r}")
        return
    c.check(out.cal_step == "COMPLETE", "status", f"{info}: status {out.cal_step!r}")
    got = m.sci.astype(float) - np.asarray(out.data, float)
    c.count("subtractions", got.size)
    c.count("averaged", m.kind == "average" and (m.nf > 1 or m.gap > 0))
    c.count("four_d", m.four)
    c.count("extrapolated", extra > 0)
    c.count("later_segments", m.four and m.start not in (1, None))
    c.close_to(np.asarray(out.data, float), m.sci.astype(float) - want, "subtracted", rtol=1e-6, atol=5e-4, msg=info)
    dq = m.pdq.copy()
    for i in range(m.dq.shape[0] if m.four else 1):
        dq |= m.dq[i, 0] if m.four else m.dq
    c.equal(out.pixeldq, dq, "pixel_flags", f"{info}: pixel flags")
    same = m.nf == m.dnf and m.gap == m.dgap
    if same and save is None:
        c.check(avg is None, "averaged_dark", f"{info}: averaged dark returned for a matching reference")
    else:
        c.check(avg is not None, "averaged_dark", f"{info}: no averaged dark returned")
        c.check(bool(avg.save) == (save is not None) and avg.output_name == save, "averaged_dark_name", f"{info}: {avg.output_name!r}")
        if not same:
            c.check((avg.exp_nframes, avg.exp_groupgap, avg.exp_ngroups) == (m.nf, m.gap, m.sci.shape[1]), "averaged_dark_meta", info)
            a = np.asarray(avg.data, float)
            used = a[None] if not m.four else a
            for i in range(m.sci.shape[0]):
                k = 0 if not m.four else (i if i < used.shape[0] and m.start in (1, None) else used.shape[0] - 1)
                c.close_to(used[k], want[i], "averaged_dark_values", rtol=1e-5, atol=1e-4, msg=f"{info}: averaged dark, integration {i}")


def streams(tier):
    return [("exposures", 600 if tier == "quick" else 20000, case)]
