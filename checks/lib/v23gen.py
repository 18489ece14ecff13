"""Telescope-like coordinate systems (detector -> v2v3 -> sky) with an independent numpy evaluation.

An attitude is a 3x3 rotation from v2v3 unit vectors to sky unit vectors; all detectors of an exposure
share it, and a pointing error is a small rotation applied to it.
"""
import numpy as np

from .wcsgen import basis, radec, unit

ARC = np.deg2rad(1 / 3600.0)


def rotation(axis, angle):
    """Rotation by `angle` radians about `axis` (Rodrigues)."""
    a = np.asarray(axis, float) / np.linalg.norm(axis)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(angle) * k + (1 - np.cos(angle)) * k @ k


def attitude(ra, dec, roll, v2, v3):
    """Attitude that puts (v2, v3) [arcsec] at (ra, dec) with V3 at position angle `roll` [deg]."""
    ev, nv, rv = basis(v2 / 3600, v3 / 3600)
    e, n, r = basis(ra, dec)
    p = np.deg2rad(roll)
    # position angles grow from north to east; v2 grows to the east of v3 as longitudes do
    n2, e2 = np.cos(p) * n + np.sin(p) * e, -np.sin(p) * n + np.cos(p) * e
    return np.outer(r, rv) + np.outer(n2, nv) + np.outer(e2, ev)


class Detector:
    def __init__(self, v2, v3, m, shape, dist=(0.0, 0.0), bbox="full"):
        self.v2, self.v3, self.m, self.shape, self.dist = float(v2), float(v3), np.array(m, float), shape, dist
        ny, nx = shape
        self.mid = np.array([(nx - 1) / 2, (ny - 1) / 2])
        self.bbox = ((-.5, nx - .5), (-.5, ny - .5)) if bbox == "full" else bbox

    def pix2v(self, x, y):
        x, y = np.asarray(x, float) - self.mid[0], np.asarray(y, float) - self.mid[1]
        u = x + self.dist[0] * y ** 2
        v = y + self.dist[1] * u ** 2
        return self.v2 + self.m[0, 0] * u + self.m[0, 1] * v, self.v3 + self.m[1, 0] * u + self.m[1, 1] * v

    def v2pix(self, v2, v3):
        inv = np.linalg.inv(self.m)
        a, b = v2 - self.v2, v3 - self.v3
        u, v = inv[0, 0] * a + inv[0, 1] * b, inv[1, 0] * a + inv[1, 1] * b
        y = v - self.dist[1] * u ** 2
        return u - self.dist[0] * y ** 2 + self.mid[0], y + self.mid[1]

    def sky(self, att, x, y):
        v2, v3 = self.pix2v(x, y)
        return unit(v2 / 3600, v3 / 3600) @ att.T

    def pixel(self, att, vec):
        lon, lat = radec(vec @ att)
        lon = np.where(lon > 180, lon - 360, lon)
        return self.v2pix(lon * 3600, lat * 3600)

    def inside(self, x, y, margin=0.0):
        (x0, x1), (y0, y1) = self.bbox
        return (x > x0 + margin) & (x < x1 - margin) & (y > y0 + margin) & (y < y1 - margin)

    def corners(self):
        (x0, x1), (y0, y1) = self.bbox
        return np.array([x0, x0, x1, x1]), np.array([y0, y1, y1, y0])

    def reference(self, att):
        """ra, dec and roll at the reference point."""
        ra, dec = radec(att @ unit(self.v2 / 3600, self.v3 / 3600))
        e, n, _ = basis(ra, dec)
        nv = basis(self.v2 / 3600, self.v3 / 3600)[1]
        w = att @ nv
        return float(ra), float(dec), float(np.rad2deg(np.arctan2(w @ e, w @ n)))

    def wcsinfo(self, att):
        ra, dec, roll = self.reference(att)
        return {"v2_ref": self.v2, "v3_ref": self.v3, "roll_ref": roll, "ra_ref": ra, "dec_ref": dec, "v3yangle": 0.0, "vparity": -1}

    def gwcs(self, att):
        import gwcs
        from astropy import coordinates as coord
        from astropy import units as u
        from astropy.modeling import models as M
        from gwcs import coordinate_frames as cf
        from gwcs.geometry import CartesianToSpherical, SphericalToCartesian

        t = M.Shift(-self.mid[0]) & M.Shift(-self.mid[1])
        a, b = self.dist
        if a or b:
            p1 = M.Mapping((0, 1, 1), n_inputs=2) | (M.Polynomial2D(2, c1_0=1, c0_2=a) & M.Identity(1))
            i1 = M.Mapping((0, 1, 1), n_inputs=2) | (M.Polynomial2D(2, c1_0=1, c0_2=-a) & M.Identity(1))
            p2 = M.Mapping((0, 0, 1), n_inputs=2) | (M.Identity(1) & M.Polynomial2D(2, c0_1=1, c2_0=b))
            i2 = M.Mapping((0, 0, 1), n_inputs=2) | (M.Identity(1) & M.Polynomial2D(2, c0_1=1, c2_0=-b))
            d = p1 | p2
            d.inverse = i2 | i1
            t = t | d
        t = t | M.AffineTransformation2D(self.m, translation=[self.v2, self.v3])
        ra, dec, roll = self.reference(att)
        rot = M.RotationSequence3D([self.v2 / 3600, -self.v3 / 3600, roll, dec, -ra], axes_order="zyxyz")
        s = (M.Scale(1 / 3600) & M.Scale(1 / 3600)) | SphericalToCartesian(wrap_lon_at=180) | rot | CartesianToSpherical(wrap_lon_at=360)
        s.name = "v23tosky"
        w = gwcs.WCS([(cf.Frame2D(name="detector", unit=(u.pix, u.pix)), t),
                      (cf.Frame2D(name="v2v3", axes_names=("v2", "v3"), unit=(u.arcsec, u.arcsec)), s),
                      (cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg)), None)])
        if self.bbox is not None:
            w.bounding_box = self.bbox
        w.array_shape = self.shape
        return w


def random_detector(rng, v2=None, v3=None, scale=None, shape=None):
    scale = scale if scale is not None else float(rng.choice([.063, .08, .11]))
    shape = shape or (int(rng.integers(400, 700)), int(rng.integers(400, 700)))
    t = np.deg2rad(rng.uniform(0, 360))
    m = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]]) @ np.diag([scale * rng.choice([-1, 1]), scale * rng.uniform(.98, 1.02)])
    dist = tuple(rng.uniform(-1, 1, 2) * 10 ** rng.uniform(-7, -5)) if rng.random() < .5 else (0.0, 0.0)
    return Detector(v2 if v2 is not None else rng.uniform(-500, 500), v3 if v3 is not None else rng.uniform(-600, 600), m, shape, dist)
