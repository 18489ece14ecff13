"""P01: number of workers."""
from types import SimpleNamespace

from checks.lib import pools

PID = "P01"
RULE = ("grid over every documented setting x rows 1..40 x cores 1..70, random digit strings and random text; "
        "plus jump and ramp-fit runs with a recording pool; distinct = (setting class, clamp that was active)")
ASSUMPTIONS = ["settings are strings; at least one row and one core exist"]
REQUIRE = {"counts_checked": 2000, "pools_observed": 4}


def expect(setting, rows, cores):
    n = 1
    if setting and all(ch in "0123456789" for ch in setting):
        n = int(setting)
    elif setting == "quarter":
        n = cores // 4
    elif setting == "half":
        n = cores // 2
    elif setting == "all":
        n = cores
    return max(1, min(n, rows, cores))


def judge(c, setting, rows, cores):
    from stcal.multiprocessing import compute_num_cores

    got = c.call(compute_num_cores, setting, rows, cores)
    c.count("counts_checked")
    c.check(isinstance(got, (int,)) or hasattr(got, "__index__"), "not_an_integer", f"{setting!r} -> {got!r}")
    c.check(1 <= got, "below_one", f"cores={setting!r} rows={rows} available={cores} -> {got}")
    c.check(got <= rows and got <= cores, "above_limit", f"cores={setting!r} rows={rows} available={cores} -> {got}")
    want = expect(setting, rows, cores)
    c.check(got == want, "wrong_count", f"cores={setting!r} rows={rows} available={cores} -> {got}, expected {want}")
    kind = "num" if setting.isdigit() else setting if setting in ("none", "one", "quarter", "half", "all") else "other"
    c.state(kind, got == rows, got == cores, got == 1)


def grid(c):
    """One setting, all rows and cores."""
    settings = ["none", "one", "None", "ONE", "quarter", "half", "all", "0", "1", "2", "3", "4", "5", "7", "8", "9", "16",
                "31", "64", "100", "00", "007", "1000000", "", "-1", "-5", "7.5", "3/4", "1e3", " 3x", "abc", "two",
                "quarterly", "\u00bd", "\u00b2", "\u2167", "0x10", "+-2", "nan"]
    s = settings[c.idx % len(settings)]
    for rows in list(range(1, 14)) + [20, 31, 40, 2048]:
        for cores in list(range(1, 14)) + [16, 17, 31, 32, 64, 70]:
            judge(c, s, rows, cores)
    c.describe(setting=s)


def fuzz(c):
    alphabet = "0123456789abcdefhlnoqrtu -+./_\u00b2\u00bdHALF"
    for _ in range(150):
        s = "".join(alphabet[int(i)] for i in c.rng.integers(0, len(alphabet), int(c.rng.integers(0, 7))))
        if c.rng.random() < 0.4:
            s = str(int(c.rng.integers(0, 300)))
        if s.strip() != s or "_" in s or s.startswith("+"):
            continue
        judge(c, s, int(c.rng.integers(1, 3000)), int(c.rng.integers(1, 200)))


def end_to_end(c):
    """What the pipelines really start: recorded pools, tasks and the rows each got."""
    import numpy as np

    from checks.lib import rampgen

    rng = c.rng
    nrows = int(rng.integers(1, 9))
    cores = int(rng.integers(1, 9))
    setting = str(rng.choice(["none", "1", "2", "3", "5", "8", "20", "half", "quarter", "all", "junk", "0"]))
    want = expect(setting, nrows, cores)
    which = "jump" if c.idx % 2 else "ramp"
    with pools.recording(cores) as log:
        if which == "ramp":
            m = rampgen.simple_ramp(rng, nints=1, ngroups=5, nrows=nrows, ncols=3)
            c.call(rampgen.run_ols, m, max_cores=setting)
        else:
            from checks.lib import jumpgen

            d = jumpgen.make(rng, nints=1, ngroups=6, nrows=nrows, ncols=4)
            c.call(jumpgen.run, d, dict(max_cores=setting))
    c.describe(which=which, nrows=nrows, cores=cores, setting=setting, workers=want, log=log)
    started = max([p["processes"] or 0 for p in log], default=1)
    tasks = sum(p["tasks"] for p in log)
    c.count("pools_observed")
    c.check(1 <= started <= min(nrows, cores), "pool_size", f"{which}: {started} workers for {nrows} rows, {cores} cores")
    c.check(started == want, "pool_size_setting", f"{which}: {started} workers for setting {setting!r}, expected {want}")
    if log:
        c.check(tasks == want, "tasks", f"{which}: {tasks} tasks for {want} workers")
    c.state(which, want, bool(log))


def streams(tier):
    k = 1 if tier == "quick" else 10
    return [("grid", 39, grid), ("fuzz", 40 * k, fuzz), ("end_to_end", 40 * k, end_to_end)]
