"""J01 J02 J03: jump detection against an independent ramp-by-ramp model, whole and sliced."""
import copy
import random

import numpy as np

from checks.lib import jumpgen, jumpref, pools
from vp.core import Skip

F = jumpgen.FLAGS
J, S, D = F["JUMP_DET"], F["SATURATED"], F["DO_NOT_USE"]
BASE = dict(rejection_thresh=4.0, three_grp_thresh=6.0, four_grp_thresh=5.0, flag_4_neighbors=False,
            max_jump_to_flag_neighbors=1000, min_jump_to_flag_neighbors=10, max_cores="none",
            after_jump_flag_dn1=0.0, after_jump_flag_n1=0, after_jump_flag_dn2=0.0, after_jump_flag_n2=0,
            minimum_groups=3, minimum_sigclip_groups=100, only_use_ints=True, min_diffs_single_pass=10)

PATTERNS = [
    [[1], [2], [3, 4], [5, 6, 7], [8, 9, 10, 11], [12, 13], [14]],
    [[1, 2], [3, 4], [5, 6], [9, 10], [20, 21], [22, 23]],
    [[1], [3], [5], [7], [9], [11], [13], [15], [17], [19], [21], [23], [26]],
    [[1, 2, 3], [4], [5, 6], [7, 8, 9], [12]],
    [[1, 2], [3, 4], [5, 6], [7, 8], [9, 10], [11, 12]],
]


def options(rng, growth):
    o = dict(BASE)
    o["rejection_thresh"] = float(rng.choice([3.0, 4.0, 5.5, 12.0]))
    o["four_grp_thresh"] = float(rng.choice([3.5, 5.0, 8.0]))
    o["three_grp_thresh"] = float(rng.choice([3.2, 6.0, 11.0]))
    o["min_diffs_single_pass"] = int(rng.choice([2, 4, 7, 10, 30]))
    o["minimum_groups"] = int(rng.choice([2, 3, 3, 4, 6]))
    u = rng.random()
    if u < 0.25:
        o["minimum_sigclip_groups"] = int(rng.integers(2, 8))
        o["only_use_ints"] = bool(rng.random() < 0.5)
        o["rejection_thresh"] = float(rng.choice([1.2, 1.6, 2.2, 3.0]))
    elif u < 0.35:
        o["minimum_sigclip_groups"] = int(rng.integers(4, 60))
        o["only_use_ints"] = False
    if growth:
        if rng.random() < 0.75:
            o["flag_4_neighbors"] = True
            o["min_jump_to_flag_neighbors"] = float(rng.choice([0.0, 5.0, 10.0, 30.0]))
            o["max_jump_to_flag_neighbors"] = float(rng.choice([20.0, 60.0, 200.0, 1000.0]))
        if rng.random() < 0.75 or not o["flag_4_neighbors"]:
            o["after_jump_flag_n1"] = int(rng.choice([0, 1, 2, 3, 100]))
            o["after_jump_flag_dn1"] = float(rng.choice([0.0, 20.0, 100.0]))
            o["after_jump_flag_n2"] = int(rng.choice([0, 1, 4, 7]))
            o["after_jump_flag_dn2"] = float(rng.choice([50.0, 300.0]))
    return o


def exposure(rng, **kw):
    p = dict(nints=int(rng.choice([1, 1, 2, 3, 6])), ngroups=int(rng.choice([2, 3, 4, 5, 6, 7, 9, 12, 15])),
             nrows=int(rng.integers(1, 6)), ncols=int(rng.integers(1, 7)), nframes=int(rng.choice([1, 1, 4, 8])),
             cr_p=float(rng.choice([0.02, 0.1, 0.3])), sat_p=float(rng.choice([0, 0.1, 0.5])),
             dnu_p=float(rng.choice([0, 0.05, 0.3])), old_p=float(rng.choice([0, 0, 0.05])),
             dnu_group_p=float(rng.choice([0, 0, 0.15, 0.4])), badgain_p=float(rng.choice([0, 0, 0.1])),
             zero_rn_p=float(rng.choice([0, 0, 0.1])))
    if rng.random() < 0.3:
        pat = PATTERNS[int(rng.integers(len(PATTERNS)))]
        n = int(rng.integers(2, len(pat) + 1))
        p["read_pattern"] = pat[:n]
        p["ngroups"] = n
    p.update(kw)
    return jumpgen.make(rng, **p)


def judged(case, d, o, growth):
    exp, amb, mode, nprim, exact = jumpref.expected(d, o, F)
    case.describe(shape=d.data.shape, mode=mode, options={k: o[k] for k in o if o[k] != BASE[k]},
                  read_pattern=d.read_pattern)
    g, p, n, ext, used = case.call(jumpgen.run, d, o)
    case.count("exposures_" + mode)
    ok = np.broadcast_to(~amb[None, None], g.shape)
    new = (exp & ~d.gdq & J != 0) & ok
    case.count("jumps_expected", new.sum())
    case.count("groups_judged", ok.sum())
    case.count("pixels_near_a_threshold", amb.sum())
    case.state(mode, d.data.shape[:2], int(new.sum()), o["flag_4_neighbors"], o["after_jump_flag_n1"] > 0)
    return exp, amb, ok, mode, nprim, exact, g, p, n, ext, used


def common(case, d, o, growth):
    exp, amb, ok, mode, nprim, exact, g, p, n, ext, used = judged(case, d, o, growth)
    # no decision needed for these: they hold for every pixel
    lost = d.gdq & ~g
    gone = (lost & ~np.uint8(J)) != 0
    case.check(not gone.any(), "flag_lost", lambda: f"flags other than jump removed at {np.argwhere(gone)[0]}")
    extra = (g & ~d.gdq & ~np.uint8(J)) != 0
    case.check(not extra.any(), "other_flag_added", lambda: f"flag other than jump added at {np.argwhere(extra)[0]}")
    both = (g & J != 0) & (g & (S | D) != 0)
    case.check(not both.any(), "jump_on_unusable", lambda: f"jump in a saturated or unusable group {np.argwhere(both)[0]}")
    case.check(not np.any(g[:, 0] & J & ~d.gdq[:, 0]), "jump_in_first_group", "first group newly flagged as jump")
    if mode != "sigclip":
        dropped = (lost & J != 0) & (d.gdq & (S | D) == 0)
        case.check(not dropped.any(), "jump_removed", lambda: f"pre-existing jump removed at {np.argwhere(dropped)[:1]}")
    mech = "growth" if growth else "decision"
    case.equal(g & J, exp & J, f"{mech}:{mode}", f"jump flags ({mode}, shape {d.data.shape})", mask=ok)
    pe = d.pdq.copy()
    pe[(d.gain <= 0) | np.isnan(d.gain)] |= F["NO_GAIN_VALUE"] | D
    case.equal(p, pe, "pixel_flags", "pixel flags")
    case.check(used.data.tobytes() == d.data.tobytes(), "science_changed", "science data changed")
    case.check(used.rn.tobytes() == d.rn.tobytes() and used.gain.tobytes() == d.gain.tobytes(), "reference_changed",
               "read noise or gain changed")
    case.check(ext == 0, "extended_count", f"{ext} extended events with their handling off")
    if mode == "skip":
        case.check(n == -99, "skip_count", f"count {n} for a skipped exposure")
    elif exact and not growth and not np.any(d.gdq & J):
        case.check(n == nprim, "count", f"{n} jumps reported, {nprim} flagged")


def j01_random(case):
    d = exposure(case.rng)
    common(case, d, options(case.rng, False), False)


def j01_short(case):
    """Ramps with 2-5 usable differences, where every threshold applies to a different count."""
    r = case.rng
    d = exposure(r, ngroups=int(r.integers(3, 7)), nints=1, sat_p=0.5, dnu_p=0.1, cr_p=0.35, strength=(1, 15),
                 read_pattern=None, nrows=5, ncols=6)
    o = options(r, False)
    o.update(minimum_sigclip_groups=100, only_use_ints=True, min_diffs_single_pass=30)
    common(case, d, o, False)


def j01_min_groups(case):
    """Usable-group bookkeeping: whole groups flagged unusable, differently in each integration."""
    r = case.rng
    d = exposure(r, ngroups=int(r.integers(3, 9)), nints=int(r.integers(1, 5)), dnu_group_p=0.35, read_pattern=None)
    o = options(r, False)
    tot = int(np.sum(~np.all(d.gdq & D != 0, axis=(2, 3))))
    if r.random() < 0.5:
        o.update(only_use_ints=False, minimum_sigclip_groups=max(2, tot + int(r.integers(-2, 3))), rejection_thresh=1.5)
    else:
        lo = int(np.min(np.sum(~np.all(d.gdq & D != 0, axis=(2, 3)), axis=1)))
        o.update(minimum_groups=max(2, lo + int(r.integers(-1, 2))), min_diffs_single_pass=max(1, lo - 1 + int(r.integers(-1, 2))))
    common(case, d, o, False)


def j01_identical(case):
    """A ramp's verdict must not depend on where it sits: shuffle the pixels, shuffle the answer."""
    r = case.rng
    d = exposure(r, dnu_group_p=0)
    o = options(r, False)
    if jumpref.Ref(d, o, F).mode() == "sigclip":
        raise Skip
    g1, *_ = case.call(jumpgen.run, d, o)
    ny, nx = d.gain.shape
    perm = r.permutation(ny * nx)
    e = copy.deepcopy(d)

    def sh(a):
        return np.ascontiguousarray(a.reshape(a.shape[:-2] + (-1,))[..., perm].reshape(a.shape))

    e.data, e.gdq, e.pdq, e.gain, e.rn = (sh(x) for x in (d.data, d.gdq, d.pdq, d.gain, d.rn))
    g2, *_ = case.call(jumpgen.run, e, o)
    case.count("groups_judged", g1.size)
    case.state("perm", d.data.shape, int(np.sum(g1 & J != 0)))
    case.equal(g2, sh(g1), "position_dependent", "flags after shuffling the pixels")


def j02_random(case):
    d = exposure(case.rng, cr_p=float(case.rng.choice([0.01, 0.05, 0.2])), nrows=int(case.rng.integers(1, 8)))
    common(case, d, options(case.rng, True), True)


def j02_single(case):
    """One strong jump in a quiet exposure: growth must be exactly its own neighbourhood."""
    r = case.rng
    ng = int(r.choice([5, 8, 12, 62]))
    d = jumpgen.make(r, nints=int(r.integers(1, 4)), ngroups=ng, nrows=int(r.integers(1, 6)), ncols=int(r.integers(1, 6)),
                     cr_p=0, sat_p=0.1, dnu_p=0.03, old_p=0.0, rate_max=5)
    ni, _, ny, nx = d.data.shape
    for _ in range(int(r.integers(1, 3))):
        i, k, y, x = int(r.integers(ni)), int(r.integers(1, ng)), int(r.integers(ny)), int(r.integers(nx))
        d.data[i, k:, y, x] += np.float32(10 ** r.uniform(1.5, 3.5))
    o = options(r, True)
    o.update(minimum_sigclip_groups=1000, only_use_ints=False)
    if ng == 62:
        o["after_jump_flag_n1"] = int(r.choice([55, 60, 100]))
        o["min_diffs_single_pass"] = 10
    common(case, d, o, True)


def j02_superset(case):
    """Growth adds to what detection alone finds, and more growth adds to less growth."""
    r = case.rng
    d = exposure(r)
    o = options(r, True)
    off = dict(o, flag_4_neighbors=False, after_jump_flag_n1=0, after_jump_flag_n2=0)
    more = dict(o, after_jump_flag_n1=o["after_jump_flag_n1"] + int(r.integers(1, 4)))
    a, *_ = case.call(jumpgen.run, d, off)
    b, *_ = case.call(jumpgen.run, d, o)
    c, *_ = case.call(jumpgen.run, d, more)
    case.count("groups_judged", a.size)
    case.state("super", d.data.shape, int((a & J != 0).sum()), int((b & J != 0).sum()), int((c & J != 0).sum()))
    for small, big, nm in ((a, b, "growth"), (b, c, "longer_growth")):
        bad = (small & ~big) != 0
        case.check(not bad.any(), f"{nm}_removes", lambda: f"flag lost at {np.argwhere(bad)[0]}")


# ---------------------------------------------------------------- J03
def slice_rows(ny, n):
    inc = ny // n
    return np.minimum(np.arange(ny) // inc, n - 1)


def compare(case, d, o, n, cores, order):
    a = case.call(jumpgen.run, d, dict(o, max_cores="none"))
    with pools.recording(cores, order=order) as log:
        b = case.call(jumpgen.run, d, dict(o, max_cores=n))
    if not log or log[0]["tasks"] < 2:
        raise Skip
    k = log[0]["tasks"]
    ny = d.data.shape[2]
    case.count("sliced_runs")
    case.count("slices", k)
    mode = jumpref.Ref(d, o, F).mode()
    case.count("sliced_" + mode)
    case.state(mode, d.data.shape, k, int(np.sum(a[0] & J != 0)), bool(order))
    case.describe(shape=d.data.shape, slices=k, mode=mode, options={q: o[q] for q in o if o[q] != BASE.get(q)})
    case.equal(b[1], a[1], "pixel_flags_differ", "pixel flags of the sliced run")
    diff = a[0] != b[0]
    if diff.any():
        # the two listed deviations, and nothing else, are recognised by predicting the sliced result
        rows = slice_rows(ny, k)
        exp_s, amb_s, *_ = jumpref.expected(d, o, F)
        exp_m, amb_m, _, nprim, _ = jumpref.expected(d, o, F, rows_of=rows)
        amb = amb_s | amb_m
        explained = (a[0] == exp_s) & (b[0] == exp_m) & (exp_s != exp_m)
        unexplained = diff & ~explained & ~np.broadcast_to(amb, diff.shape)
        if unexplained.any():
            w = np.argwhere(unexplained)[0]
            case.fail("flags_differ", f"{int(unexplained.sum())} groups differ between whole and {k} slices ({mode}), "
                      f"first {w.tolist()}: whole {a[0][tuple(w)]}, sliced {b[0][tuple(w)]}")
        if (diff & explained).any():
            case.fail("slice_sigclip_all_jump" if mode == "sigclip" and not np.array_equal(
                jumpref.expected(d, dict(o, flag_4_neighbors=False, after_jump_flag_n1=0, after_jump_flag_n2=0), F)[0],
                jumpref.expected(d, dict(o, flag_4_neighbors=False, after_jump_flag_n1=0, after_jump_flag_n2=0), F, rows_of=rows)[0])
                else "slice_edge_after_jump",
                f"{int((diff & explained).sum())} groups differ as known for slices", abort=False)
        return
    case.check(a[3] == b[3], "extended_count_differs", f"{a[3]} vs {b[3]}")
    case.check(a[2] == b[2], "count_differs", f"{a[2]} jumps whole, {b[2]} in {k} slices ({mode})")
    case.check(b[4].data.tobytes() == d.data.tobytes(), "science_changed", "science data changed")


def j03_random(case):
    r = case.rng
    ny = int(r.integers(2, 13))
    d = exposure(r, nrows=ny)
    o = options(r, r.random() < 0.6)
    if o["flag_4_neighbors"] and r.random() < 0.6:
        o["after_jump_flag_n1"] = o["after_jump_flag_n2"] = 0
    if r.random() < 0.7:
        o["minimum_sigclip_groups"] = 100
        o["only_use_ints"] = True
    n = str(int(r.integers(2, ny + 1)))
    compare(case, d, o, n, 64, random.Random(case.idx) if case.idx % 2 else None)


def j03_dead_groups(case):
    """Groups unusable in part of the rows only: no slice may conclude anything from that alone."""
    r = case.rng
    ny = int(r.integers(2, 9))
    d = exposure(r, nrows=ny, dnu_group_p=0.1)
    for _ in range(int(r.integers(1, 5))):
        y0 = int(r.integers(0, ny))
        d.gdq[int(r.integers(d.gdq.shape[0])), int(r.integers(d.gdq.shape[1])), y0:y0 + int(r.integers(1, ny))] |= D
    o = options(r, False)
    o["minimum_groups"] = int(r.integers(2, d.gdq.shape[1] + 1))
    o["min_diffs_single_pass"] = int(r.integers(1, d.gdq.shape[1] + 1))
    compare(case, d, o, str(int(r.integers(2, ny + 1))), 64, random.Random(case.idx))


def j03_edges(case):
    """Jumps next to the slice boundaries, neighbours only."""
    r = case.rng
    ny = int(r.integers(2, 10))
    d = exposure(r, nrows=ny, cr_p=0.25, strength=(20, 300))
    o = options(r, True)
    o.update(flag_4_neighbors=True, after_jump_flag_n1=0, after_jump_flag_n2=0, min_jump_to_flag_neighbors=2.0,
             max_jump_to_flag_neighbors=1e5, minimum_sigclip_groups=100, only_use_ints=True)
    compare(case, d, o, str(int(r.integers(2, ny + 1))), 64, random.Random(case.idx))


def j03_events(case):
    """Large events are handled on the reassembled image."""
    r = case.rng
    d = exposure(r, nrows=24, ncols=20, nints=int(r.integers(1, 3)), ngroups=6, cr_p=0.0, sat_p=0.0, read_pattern=None,
                 old_p=0, dnu_p=0, dnu_group_p=0, nframes=1, zero_rn_p=0, badgain_p=0)
    for _ in range(int(r.integers(1, 4))):
        y, x, k = int(r.integers(3, 21)), int(r.integers(3, 17)), int(r.integers(1, 5))
        q = int(r.integers(1, 4))
        d.data[0, k:, y - q:y + q + 1, x - q:x + q + 1] += 3000
        if r.random() < 0.6:
            d.gdq[0, k:, y, x] |= S
    o = options(r, False)
    o.update(minimum_sigclip_groups=100, only_use_ints=True, expand_large_events=True, edge_size=3, min_jump_area=5,
             min_sat_area=1, expand_factor=2.0)
    compare(case, d, o, str(int(r.integers(2, 9))), 64, random.Random(case.idx))


def j03_real(case):
    """The same comparison with real worker processes."""
    r = case.rng
    d = exposure(r, nrows=11, ncols=6, nints=2, ngroups=7, read_pattern=None)
    o = options(r, True)
    o.update(flag_4_neighbors=True, after_jump_flag_n1=0, after_jump_flag_n2=0, minimum_sigclip_groups=100, only_use_ints=True)
    a = case.call(jumpgen.run, d, dict(o, max_cores="none"))
    b = case.call(jumpgen.run, d, dict(o, max_cores=str(2 + case.idx)))
    case.count("real_pools")
    case.count("sliced_runs")
    case.state("real", case.idx, int(np.sum(a[0] & J != 0)))
    case.equal(b[0], a[0], "flags_differ", "flags with real worker processes")
    case.equal(b[1], a[1], "pixel_flags_differ", "pixel flags with real worker processes")
    case.check(a[2] == b[2], "count_differs", f"{a[2]} vs {b[2]}")


def j03_probe(case):
    """Deterministic situations of the listed findings."""
    r = np.random.default_rng(5)
    if case.idx == 0:
        d = jumpgen.make(r, nints=1, ngroups=8, nrows=4, ncols=3, cr_p=0, sat_p=0, dnu_p=0, old_p=0, other_p=0, rate_max=2)
        d.data[0, 3:, 1, 1] += 500
        d.data[0, 3:, 2, 1] += 12
        o = dict(BASE, flag_4_neighbors=True, after_jump_flag_n1=2, min_jump_to_flag_neighbors=5.0,
                 max_jump_to_flag_neighbors=1e5, rejection_thresh=40.0)
    else:
        d = jumpgen.make(r, nints=12, ngroups=4, nrows=4, ncols=3, cr_p=0, sat_p=0, dnu_p=0, old_p=0, other_p=0, rate_max=2)
        d.data[3, 2:, 1] += 900
        d.data[3, 2:, 0] += 900
        o = dict(BASE, minimum_sigclip_groups=5, rejection_thresh=2.5)
    compare(case, d, o, "2", 16, None)


class J01:
    PID = "J01"
    RULE = ("one distinct case per (detection mode, integrations x groups, number of jumps) whose flags were compared "
            "group by group with the model; pixels within rounding distance of a threshold are not judged")
    ASSUMPTIONS = ["published rule as documented: thresholds by number of usable differences, median and noise model",
                   "sigma clipping means five iterations of median and standard deviation"]
    REQUIRE = {"exposures_iterative": 30, "exposures_single": 20, "exposures_sigclip": 15, "exposures_skip": 5,
               "jumps_expected": 500, "groups_judged": 20000}

    @staticmethod
    def streams(tier):
        k = 10 if tier == "quick" else 240
        return [("random", 160 * k, j01_random), ("short", 80 * k, j01_short), ("min_groups", 80 * k, j01_min_groups),
                ("shuffled", 40 * k, j01_identical)]


class J02:
    PID = "J02"
    RULE = "one distinct case per (mode, shape, number of flags, growth options) compared with the model"
    ASSUMPTIONS = J01.ASSUMPTIONS + ["after-jump thresholds scale with the median gain"]
    REQUIRE = {"exposures_iterative": 20, "exposures_single": 15, "jumps_expected": 500, "groups_judged": 15000}

    @staticmethod
    def streams(tier):
        k = 10 if tier == "quick" else 240
        return [("random", 160 * k, j02_random), ("single", 80 * k, j02_single), ("superset", 40 * k, j02_superset)]


class J03:
    PID = "J03"
    RULE = "one distinct case per (mode, shape, number of slices, jumps found, task order)"
    ASSUMPTIONS = ["worker processes are replaced by in-process tasks on pickled copies, except in the stream 'real'"]
    REQUIRE = {"sliced_runs": 100, "slices": 300, "sliced_iterative": 20, "sliced_single": 10, "sliced_sigclip": 5,
               "real_pools": 1}

    @staticmethod
    def streams(tier):
        k = 10 if tier == "quick" else 240
        return [("random", 120 * k, j03_random), ("dead_groups", 60 * k, j03_dead_groups), ("edges", 60 * k, j03_edges),
                ("events", 8 * k, j03_events), ("real", 1 if tier == "quick" else 4, j03_real), ("known", 2, j03_probe)]


CHECKS = {"J01": J01, "J02": J02, "J03": J03}
