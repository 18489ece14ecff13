"""Celestial coordinate systems with an independent reference evaluation.

`Sky` maps pixel positions to the sky and back with plain numpy; `Sky.gwcs()` builds the same system
as a gwcs object for the code under test.
"""
import numpy as np


def unit(ra, dec):
    ra, dec = np.deg2rad(ra), np.deg2rad(dec)
    return np.stack([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)], -1)


def radec(v):
    v = np.asarray(v, float)
    return np.rad2deg(np.arctan2(v[..., 1], v[..., 0])) % 360.0, np.rad2deg(np.arctan2(v[..., 2], np.hypot(v[..., 0], v[..., 1])))


def basis(ra, dec):
    """East, north and radial unit vectors."""
    a, d = np.deg2rad(ra), np.deg2rad(dec)
    e = np.array([-np.sin(a), np.cos(a), 0])
    n = np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)])
    r = np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
    return e, n, r


def separation(ra1, dec1, ra2, dec2):
    """Angular distance in degrees, accurate at small separations."""
    d = unit(ra1, dec1) - unit(ra2, dec2)
    return np.rad2deg(2 * np.arcsin(np.clip(np.sqrt((d * d).sum(-1)) / 2, 0, 1)))


def area(ra, dec, center=None):
    """Area in steradian of a convex spherical polygon (Girard, accurate form by fan of triangles)."""
    v = unit(np.asarray(ra), np.asarray(dec))
    tot = 0.0
    for i in range(1, len(v) - 1):
        a, b, c = v[0], v[i], v[i + 1]
        num = np.dot(a, np.cross(b - a, c - a))
        den = 1 + a @ b + b @ c + c @ a
        tot += 2 * np.arctan2(num, den)
    return abs(tot)


class Sky:
    """TAN system: optional exactly invertible distortion, then an affine map, then the gnomonic projection."""

    def __init__(self, crpix, crval, matrix, shape, dist=(0.0, 0.0), bbox="full"):
        self.crpix, self.crval = np.array(crpix, float), (float(crval[0]) % 360.0, float(crval[1]))
        self.m, self.shape, self.dist = np.array(matrix, float), tuple(int(s) for s in shape), tuple(dist)
        ny, nx = self.shape
        self.bbox = ((-0.5, nx - 0.5), (-0.5, ny - 0.5)) if bbox == "full" else bbox

    # u = x + a*y^2 ; v = y + b*u^2
    def distort(self, x, y):
        u = x + self.dist[0] * y ** 2
        return u, y + self.dist[1] * u ** 2

    def undistort(self, u, v):
        y = v - self.dist[1] * u ** 2
        return u - self.dist[0] * y ** 2, y

    def p2w(self, x, y):
        x, y = np.asarray(x, float) - self.crpix[0], np.asarray(y, float) - self.crpix[1]
        u, v = self.distort(x, y)
        xi, eta = np.deg2rad(self.m[0, 0] * u + self.m[0, 1] * v), np.deg2rad(self.m[1, 0] * u + self.m[1, 1] * v)
        e, n, r = basis(*self.crval)
        w = r + xi[..., None] * e + eta[..., None] * n
        return radec(w)

    def w2p(self, ra, dec):
        e, n, r = basis(*self.crval)
        w = unit(ra, dec)
        z = w @ r
        xi, eta = np.rad2deg((w @ e) / z), np.rad2deg((w @ n) / z)
        xi, eta = np.where(z > 0, xi, np.nan), np.where(z > 0, eta, np.nan)
        inv = np.linalg.inv(self.m)
        x, y = self.undistort(inv[0, 0] * xi + inv[0, 1] * eta, inv[1, 0] * xi + inv[1, 1] * eta)
        return x + self.crpix[0], y + self.crpix[1]

    def gwcs(self, bbox=True):
        import gwcs
        from astropy import coordinates as coord
        from astropy import units as u
        from astropy.modeling import models as M
        from gwcs import coordinate_frames as cf

        t = M.Shift(-self.crpix[0], name="crpix1") & M.Shift(-self.crpix[1], name="crpix2")
        a, b = self.dist
        if a or b:
            p1 = M.Mapping((0, 1, 1), n_inputs=2) | (M.Polynomial2D(2, c1_0=1, c0_2=a) & M.Identity(1))
            i1 = M.Mapping((0, 1, 1), n_inputs=2) | (M.Polynomial2D(2, c1_0=1, c0_2=-a) & M.Identity(1))
            p2 = M.Mapping((0, 0, 1), n_inputs=2) | (M.Identity(1) & M.Polynomial2D(2, c0_1=1, c2_0=b))
            i2 = M.Mapping((0, 0, 1), n_inputs=2) | (M.Identity(1) & M.Polynomial2D(2, c0_1=1, c2_0=-b))
            d = p1 | p2
            d.inverse = i2 | i1
            t = t | d
        t = (t | M.AffineTransformation2D(self.m, name="cd") | M.Pix2Sky_TAN()
             | M.RotateNative2Celestial(self.crval[0], self.crval[1], 180.0))
        w = gwcs.WCS([(cf.Frame2D(name="detector", unit=(u.pix, u.pix)), t),
                      (cf.CelestialFrame(name="world", reference_frame=coord.ICRS(), unit=(u.deg, u.deg)), None)])
        if bbox and self.bbox is not None:
            w.bounding_box = self.bbox
        w.array_shape = self.shape
        return w

    def moved(self, **kw):
        d = dict(crpix=self.crpix, crval=self.crval, matrix=self.m, shape=self.shape, dist=self.dist, bbox=self.bbox)
        d.update(kw)
        return Sky(**d)


def matrix(scale, angle=0.0, parity=-1, skew=0.0, ratio=1.0):
    """Pixel-to-tangent-plane matrix in degrees per pixel; angle rotates the pixel axes on the sky."""
    a = np.deg2rad(angle)
    rot = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return rot @ np.array([[parity * scale, skew * scale], [0, scale * ratio]])


def pointing(rng):
    """A sky position with the awkward places well represented."""
    k = int(rng.integers(0, 7))
    if k == 0:
        return float(rng.choice([0.0, 359.99999, 0.00001, 360.0])), float(rng.uniform(-60, 60))
    if k == 1:
        return float(rng.uniform(0, 360)), float(rng.choice([89.999, -89.999, 89.9, -89.9, 88.0]))
    if k == 2:
        return float(rng.choice([0, 90, 180, 270])), 0.0
    return float(rng.uniform(0, 360)), float(np.rad2deg(np.arcsin(rng.uniform(-.95, .95))))


def random_sky(rng, shape=None, scale=None, distort=True, crval=None, lim=(8, 40)):
    ny, nx = shape or (int(rng.integers(*lim)), int(rng.integers(*lim)))
    s = float(scale if scale is not None else 10 ** rng.uniform(-5.5, -4))
    m = matrix(s, rng.uniform(0, 360), int(rng.choice([-1, -1, 1])), rng.uniform(-.05, .05), rng.uniform(.9, 1.1))
    crpix = (rng.uniform(-.2, 1.2) * nx, rng.uniform(-.2, 1.2) * ny)
    d = (0.0, 0.0)
    if distort and rng.random() < .6:
        d = tuple(rng.uniform(-1, 1, 2) * 10 ** rng.uniform(-5, -3.5))
    return Sky(crpix, crval if crval is not None else pointing(rng), m, (ny, nx), d)


def near(rng, sky, shape=None, shift=1.0, scale=(.7, 1.4), distort=True):
    """Another system looking at roughly the same field."""
    ny, nx = sky.shape
    c = sky.p2w((nx - 1) / 2 + rng.uniform(-shift, shift) * nx / 2, (ny - 1) / 2 + rng.uniform(-shift, shift) * ny / 2)
    s0 = np.sqrt(abs(np.linalg.det(sky.m)))
    shp = shape or (int(ny * rng.uniform(.6, 1.6)) + 2, int(nx * rng.uniform(.6, 1.6)) + 2)
    n = random_sky(rng, shp, s0 * rng.uniform(*scale), distort, (float(c[0]), float(c[1])))
    n.crpix = np.array([(shp[1] - 1) / 2 + rng.uniform(-3, 3), (shp[0] - 1) / 2 + rng.uniform(-3, 3)])
    return n
