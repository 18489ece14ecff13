"""V01: velocity aberration against the special-relativistic formula in another form."""
import math

import numpy as np

PID = "V01"
RULE = ("targets over the whole sphere (poles, RA 0/360 seam, random, along/against/perpendicular to the velocity), "
        "speeds from 0 to 0.9 c; distinct = (speed decade, geometry class, RA quadrant, Dec band)")
ASSUMPTIONS = ["observer speed is below the speed of light; directions are unit vectors"]
REQUIRE = {"directions_checked": 500, "vector_forms_checked": 300}
C = 299792.458


def vec(ra, dec):
    r, d = math.radians(ra), math.radians(dec)
    return np.array([math.cos(d) * math.cos(r), math.cos(d) * math.sin(r), math.sin(d)])


def expected(v, u):
    """Decompose the direction along/across the velocity (textbook aberration)."""
    b = math.sqrt(float(np.dot(v, v))) / C
    if b == 0.0:
        return 1.0, u
    n = v / math.sqrt(float(np.dot(v, v)))
    g = 1.0 / math.sqrt((1.0 - b) * (1.0 + b))
    mu = float(np.dot(u, n))
    perp = u - mu * n
    mu2 = (mu + b) / (1 + b * mu)
    return g * (1 + b * mu), mu2 * n + perp / (g * (1 + b * mu))


def one(c):
    from stcal.velocity_aberration import compute_va_effects, compute_va_effects_vector

    rng = c.rng
    for _ in range(40):
        geo = str(rng.choice(["random", "pole", "seam", "along", "against", "perp", "axis"]))
        ra, dec = float(rng.uniform(0, 360)), float(np.degrees(np.arcsin(rng.uniform(-1, 1))))
        if geo == "pole":
            dec = float(rng.choice([90.0, -90.0, 90 - 1e-9, -90 + 1e-7, 89.999]))
        if geo == "seam":
            ra = float(rng.choice([0.0, 360.0, 1e-9, 360 - 1e-9, -1e-6, 359.99999, 720.5, -90.0]))
        if geo == "axis":
            ra, dec = float(rng.choice([0, 90, 180, 270])), float(rng.choice([0, 0, 90, -90]))
        u = vec(ra, dec)
        speed = float(rng.choice([0.0, 10 ** rng.uniform(-6, 0), 30.0 * rng.random(), 29.8, 10 ** rng.uniform(0, 5),
                                  0.9 * C * rng.random()]))
        d = rng.normal(size=3)
        if geo in ("along", "against"):
            d = u * (1 if geo == "along" else -1)
        if geo == "perp":
            d = np.cross(u, rng.normal(size=3))
        if geo == "axis":
            d = np.eye(3)[int(rng.integers(3))] * float(rng.choice([-1, 1]))
        v = d / np.linalg.norm(d) * speed
        v = np.array([float(x) for x in v])
        es, eu = expected(v, u)
        gs, gra, gdec = c.call(compute_va_effects, v[0], v[1], v[2], ra, dec)
        info = f"v={v.tolist()} ra={ra} dec={dec}"
        c.count("directions_checked")
        c.check(abs(gs - es) <= 1e-12 * es, "scale", f"{info}: scale {gs!r}, expected {es!r}")
        c.check(np.isfinite(gra) and np.isfinite(gdec), "not_finite", f"{info}: {gra}, {gdec}")
        c.check(0 <= gra <= 360, "ra_range", f"{info}: RA {gra}")
        c.check(-90 <= gdec <= 90, "dec_range", f"{info}: Dec {gdec}")
        gu = vec(gra, gdec)
        c.check(np.abs(gu - eu).max() <= 2e-11, "direction", lambda: f"{info}: direction {gu.tolist()}, expected {eu.tolist()}")
        if abs(dec) < 89.9 and abs(gdec) < 89.9:
            era = math.degrees(math.atan2(eu[1], eu[0])) % 360
            dra = abs((gra - era + 180) % 360 - 180) * math.cos(math.radians(gdec))
            c.check(dra < 1e-9, "ra", f"{info}: RA {gra}, expected {era}")
        if speed == 0:
            c.check(gs == 1.0, "zero_velocity_scale", f"{info}: {gs}")
            c.count("zero_velocity")
        # towards the velocity
        if speed > 1:
            n = v / np.linalg.norm(v)
            c.check(np.dot(gu, n) >= np.dot(u, n) - 1e-12, "shift_direction", info)
        u_in = u.copy()
        vs, vu = c.call(compute_va_effects_vector, v[0], v[1], v[2], u)
        c.count("vector_forms_checked")
        c.check(abs(vs - es) <= 1e-12 * es, "vector_scale", f"{info}: scale {vs!r}, expected {es!r}")
        vu = np.asarray(vu, float)
        c.check(vu.shape == (3,) and np.abs(vu - eu).max() <= 1e-12, "vector_direction", lambda: f"{info}: {vu}, expected {eu}")
        c.check(abs(np.linalg.norm(vu) - 1) < 1e-12, "not_unit", info)
        c.check(np.array_equal(u, u_in), "input_modified", info)
        # reversed velocity: scales multiply to gamma^2 (1 - (u.beta)^2)
        rs, _ = c.call(compute_va_effects_vector, -v[0], -v[1], -v[2], u)
        b2 = float(np.dot(v, v)) / C**2
        ub = float(np.dot(u, v)) / C
        c.check(abs(rs * vs - (1 - ub * ub) / (1 - b2)) <= 1e-11 / (1 - b2), "reversal", f"{info}: {rs * vs}")
        c.state(geo, int(math.floor(math.log10(speed))) if speed else None, int(ra // 90) % 4, int(dec // 30))
    c.describe(last=info, scale=gs)


def streams(tier):
    return [("sphere", 60 if tier == "quick" else 3000, one)]
