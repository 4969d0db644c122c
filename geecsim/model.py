"""Executable reference model of GEEC: what the results must be, computed another way.

Nothing of geec is used here: gravity by the polyhedral formulas of Werner and Scheeres on the
triangles of the hull, geodesy by the textbook formulas, layers of configuration by hand.
Trusted from the dependencies: the hull (scipy), the table of ellipsoids (pymap3d), the
interpolation in a geoid grid (pygeodesy), the YAML parser.
"""
import math

import numpy as np

MGAL = 1e5
EOTVOS = 1e9


class Invalid(Exception):
    """The configuration or a file must be refused."""


class Unsure(Exception):
    """The model does not say what must happen."""


# ---------------------------------------------------------------- gravity
class Body:
    def __init__(self, points):
        from scipy.spatial import ConvexHull

        P = np.array(points, dtype=float)
        # hull of centred points: better conditioned for bodies far from the origin
        self.points = P
        c = P.mean(axis=0)
        h = ConvexHull(P - c)
        A, B, C = (P[h.simplices[:, i]] for i in range(3))
        n = np.cross(B - A, C - A)
        # outwards, according to the hull's own equations
        flip = np.einsum("ij,ij->i", n, h.equations[:, :3]) < 0
        B2 = np.where(flip[:, None], C, B)
        C2 = np.where(flip[:, None], B, C)
        n = np.where(flip[:, None], -n, n)
        l = np.linalg.norm(n, axis=1)
        keep = l > 1e-14 * max(l.max(), 1e-300)
        self.A, self.B, self.C, self.n = A[keep], B2[keep], C2[keep], n[keep] / l[keep][:, None]
        self.size = float(np.linalg.norm(P.max(axis=0) - P.min(axis=0)))
        self.volume = h.volume

    def nearest(self, o):
        """distance to the nearest corner"""
        return max(min(float(np.linalg.norm(x - o, axis=1).min()) for x in (self.A, self.B, self.C)), 1e-300)

    def field(self, obs, rho=1.0, G=1.0, gradient=True):
        """gravity [mGal], gradient [E], and the sums of the absolute values of their terms"""
        obs = np.asarray(obs, dtype=float)
        a, b, c = self.A - obs, self.B - obs, self.C - obs
        la, lb, lc = (np.linalg.norm(v, axis=1) for v in (a, b, c))
        dot = lambda u, v: np.einsum("ij,ij->i", u, v)  # noqa
        num = dot(a, np.cross(b, c))
        den = la * lb * lc + dot(a, b) * lc + dot(b, c) * la + dot(c, a) * lb
        w = 2 * np.arctan2(num, den)
        n = self.n
        t = (dot(n, a) * w)[:, None] * n
        g = t.sum(axis=0)
        sg = np.abs(t).sum()
        T = np.einsum("i,ij,ik->jk", w, n, n)
        sT = np.abs(w).sum()
        for P, Q, lp, lq in ((a, b, la, lb), (b, c, lb, lc), (c, a, lc, la)):
            d = Q - P
            e = np.linalg.norm(d, axis=1)
            ne = np.cross(d / e[:, None], n)
            with np.errstate(divide="ignore", invalid="ignore"):
                L = np.log((lp + lq + e) / (lp + lq - e))
            k = dot(ne, P)
            # on the line of an edge k is zero, and k L too
            kL = np.where(np.isfinite(L), k * np.where(np.isfinite(L), L, 0), 0)
            t = kL[:, None] * n
            g = g - t.sum(axis=0)
            sg += np.abs(t).sum()
            T = T - np.einsum("i,ij,ik->jk", L, n, ne)
            sT += np.abs(L).sum()
        q = abs(G * rho)
        # attraction: towards the body
        gm = G * rho * MGAL * g
        Tm = -G * rho * EOTVOS * T
        if not gradient:
            Tm = np.zeros((3, 3))
        return gm, Tm, q * MGAL * sg, (q * EOTVOS * sT if gradient else 0.0)


RTOL = 2e-9  # of the sum of the absolute values of the terms, which cancel each other
RTOL_T = 2e-7


# ---------------------------------------------------------------- geodesy
def ellipsoids():
    import pymap3d as pm

    return {k: (v["a"], v["b"]) for k, v in pm.Ellipsoid.models.items()}


WGS84 = (6378137.0, 6356752.31424518)


def geodetic_to_ecef(p, ab):
    a, b = ab
    p = np.asarray(p, dtype=float)
    lon, lat, h = np.radians(p[:, 0]), np.radians(p[:, 1]), p[:, 2]
    e2 = 1 - (b / a) ** 2
    N = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return np.column_stack([(N + h) * np.cos(lat) * np.cos(lon), (N + h) * np.cos(lat) * np.sin(lon),
                            (N * (1 - e2) + h) * np.sin(lat)])


def ecef_to_geodetic(p, ab=WGS84):
    a, b = ab
    p = np.asarray(p, dtype=float)
    x, y, z = p.T
    e2 = 1 - (b / a) ** 2
    r = np.hypot(x, y)
    lat = np.arctan2(z, r * (1 - e2))
    for _ in range(60):
        N = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
        new = np.arctan2(z + e2 * N * np.sin(lat), r)
        if np.max(np.abs(new - lat)) < 1e-16:
            lat = new
            break
        lat = new
    N = a / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    h = r * np.cos(lat) + z * np.sin(lat) - a * a / N  # exact, well conditioned everywhere
    return np.column_stack([np.degrees(np.arctan2(y, x)), np.degrees(lat), h])


def enu_rotation(lon0, lat0):
    l, f = math.radians(lon0), math.radians(lat0)
    e = [-math.sin(l), math.cos(l), 0]
    n = [-math.sin(f) * math.cos(l), -math.sin(f) * math.sin(l), math.cos(f)]
    u = [math.cos(f) * math.cos(l), math.cos(f) * math.sin(l), math.sin(f)]
    return np.array([e, n, u])


def enu_to_ecef(p, org, ab):
    lon0, lat0, h0 = org
    o = geodetic_to_ecef(np.array([[lon0, lat0, h0]]), ab)[0]
    return o + np.asarray(p, dtype=float) @ enu_rotation(lon0, lat0)


def ecef_to_enu(p, org, ab=WGS84):
    lon0, lat0, h0 = org
    o = geodetic_to_ecef(np.array([[lon0, lat0, h0]]), ab)[0]
    return (np.asarray(p, dtype=float) - o) @ enu_rotation(lon0, lat0).T


def geoid_height(path, points):
    """heights of the geoid, one by one, from a grid opened for that"""
    import pygeodesy as pgeo

    g = pgeo.GeoidKarney(path)
    try:
        return np.array([float(g(pgeo.ellipsoidalKarney.LatLon(p[1], p[0]))) for p in points])
    finally:
        g.close()


def make_grid(c0, c1, c2, width=72, height=37):
    """a geoid grid: a smooth surface, the same format as the real ones"""
    lat = np.linspace(90, -90, height)
    lon = np.arange(width) * 360.0 / width
    LA, LO = np.meshgrid(np.radians(lat), np.radians(lon), indexing="ij")
    H = c0 + c1 * np.cos(LA) * np.cos(LO) + c2 * np.sin(LA) + 0.3 * c1 * np.cos(LA) ** 2 * np.sin(2 * LO)
    offset, scale = -108.0, 0.003
    d = np.clip(np.round((H - offset) / scale), 0, 65535).astype(">u2")
    head = ("P5\n# Geoid file in PGM format for the GeographicLib::Geoid class\n# Description Simulated\n"
            f"# DateTime 2009-08-29 18:45:02\n# MaxBilinearError 1.0\n# RMSBilinearError 0.1\n# MaxCubicError 0.1\n"
            f"# RMSCubicError 0.01\n# Offset {offset:g}\n# Scale {scale:g}\n# Origin 90N 0E\n# AREA_OR_POINT Point\n"
            f"# Vertical_Datum WGS84\n{width} {height}\n65535\n")
    return head.encode() + d.tobytes()


GRIDFILE = {"egm84": "egm84-15.pgm", "egm96": "egm96-5.pgm", "egm2008": "egm2008-2_5.pgm"}
GRIDS = {"egm84": (-20.0, 31.0, 7.0), "egm96": (12.0, -23.0, 17.0), "egm2008": (41.0, 13.0, -29.0)}


# ---------------------------------------------------------------- files
def parse_csv(data):
    """coordinates of a csv file, or Invalid"""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        raise Invalid("not text")
    if "\0" in text or '"' in text:
        raise Unsure("odd characters")
    rows = []
    for line in text.replace("\r\n", "\n").replace("\r", "\n").split("\n"):
        if not line.strip():
            if line:
                raise Unsure("blank line with spaces")
            continue
        f = line.split(",")
        if len(f) != 3:
            raise Invalid(f"{len(f)} fields")
        try:
            v = [float(x) for x in f]
        except ValueError:
            raise Invalid("not a number")
        if not all(map(math.isfinite, v)):
            raise Invalid("not finite")
        if "_" in line:
            raise Unsure("underscore")
        rows.append(v)
    if not rows:
        raise Invalid("empty")
    return np.array(rows)


def parse_yaml(data):
    """one layer of configuration, or Invalid"""
    import confuse
    import yaml

    try:
        v = yaml.load(data, Loader=confuse.Loader)
    except Exception as e:
        raise Invalid(f"not YAML: {e}")
    if not v:
        return {}
    if not isinstance(v, dict):
        try:
            dict(v)
        except (TypeError, ValueError):
            raise Invalid("not a mapping")
        raise Unsure("a list of pairs")  # which the configuration library takes for a mapping
    return v


MISSING = object()


class Layers:
    """the value of a parameter is that of the highest layer that gives one"""

    def __init__(self, layers):
        self.layers = layers

    def get(self, *path):
        for layer in self.layers:
            v = layer
            for k in path:
                try:
                    v = v[k]
                except (KeyError, IndexError):
                    v = MISSING
                    break
                except TypeError:
                    raise Unsure(f"{path}: not in a collection")
            if v is not MISSING:
                return v
        return MISSING

    def need(self, *path):
        v = self.get(*path)
        if v is MISSING:
            raise Unsure(f"{path} is given nowhere")
        return v

    def number(self, *path, optional=False):
        v = self.need(*path)
        if optional and v is None:
            return None
        if isinstance(v, bool):
            raise Unsure("boolean for a number")
        if not isinstance(v, (int, float)):
            raise Invalid(f"{path}: not a number")
        return v


REFS = ("cart", "ellps", "enu", "ecef")
VDATUMS = {"ellps": "ellps", "egm84": "egm84", "egm96": "egm96", "egm2008": "egm2008", "egm08": "egm2008"}


def read_crs(L, path):
    ref = L.get(*path, "ref")
    if ref is MISSING or ref is None:
        ref = "ellps"
    if not isinstance(ref, str):
        raise Invalid("ref: not a string")
    ref = ref.lower()
    if ref not in REFS:
        raise Invalid(f"unknown ref {ref}")
    crs = {"ref": ref, "ab": None, "org": None, "vdatum": "ellps"}
    if ref in ("ellps", "enu"):
        name = L.need(*path, "name")
        a = L.number(*path, "semimajor_axis", optional=True)
        b = L.number(*path, "semiminor_axis", optional=True)
        if name is not None and not isinstance(name, str):
            raise Invalid("ellipsoid name: not a string")
        if name:
            ell = ellipsoids()
            if name not in ell:
                raise Invalid(f"unknown ellipsoid {name}")
            crs["ab"] = ell[name]
        elif a and b:
            crs["ab"] = (a, b)
        elif a or b:
            raise Unsure("half an ellipsoid")
        else:
            crs["ab"] = ellipsoids()["wgs84"]
        if ref == "enu":
            crs["org"] = tuple(L.number(*path, k) for k in ("longitude_origin", "latitude_origin", "altitude_origin"))
            if abs(crs["org"][0]) > 360 or abs(crs["org"][1]) > 90:
                raise Unsure("origin out of range")
        v = L.get(*path, "vdatum")
        if v is MISSING or v is None:
            v = "ellps"
        if not isinstance(v, str):
            raise Invalid("vdatum: not a string")
        if v.lower() not in VDATUMS:
            raise Invalid(f"unknown vdatum {v}")
        crs["vdatum"] = VDATUMS[v.lower()]
    return crs


def read_points(L, path, files, grid_allowed):
    pts = L.need(*path, "points")
    if pts:
        try:
            P = np.array(pts, dtype=float)
        except (ValueError, TypeError):
            raise Invalid("points: not numbers")
        if P.ndim != 2 or P.shape[1] != 3 or not np.isfinite(P).all():
            raise Invalid("points: not three finite coordinates each")
        return P
    fp = L.need(*path, "file_path")
    if fp:
        if not isinstance(fp, str):
            raise Invalid("file_path: not a string")
        data = files(fp)
        if data is None:
            raise Invalid("no such file")
        return parse_csv(data)
    if not grid_allowed:
        if L.get(*path, "grid") is not MISSING:
            raise Unsure("a mass body on a grid")  # not documented
        raise Invalid("no points")
    if not L.need(*path, "grid"):
        raise Unsure("empty grid in a layer")
    axes = []
    for k in GRID:
        v = L.need(*path, "grid", k)
        if not isinstance(v, (list, tuple)) or len(v) != 3:
            raise Invalid("grid")
        if not all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
            raise Invalid("grid: not numbers")
        s, e, d = v
        if d <= 0:
            raise Unsure("step")
        n = math.ceil((e - s) / d)
        if n <= 0:
            raise Unsure("empty grid")
        if n > 1000:
            raise Unsure("large grid")
        axes.append([s + i * d for i in range(n)])
    if math.prod(map(len, axes)) > 5000:
        raise Unsure("large grid")
    return np.array([[x, y, z] for x in axes[0] for y in axes[1] for z in axes[2]], dtype=float)


def on_earth(P):
    if (np.abs(P[:, 0]) > 360).any() or (np.abs(P[:, 1]) > 90).any():
        raise Unsure("longitudes or latitudes out of range")


def wrap180(P):
    P = np.array(P, dtype=float)
    P[:, 0] = np.where(P[:, 0] > 180, P[:, 0] - 360, P[:, 0])
    return P


GRID = ("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep")
SHOWN_MASS = ("density", "gravity_constant", "points", "file_path")
SHOWN_CRS = ("ref", "name", "semimajor_axis", "semiminor_axis", "longitude_origin", "latitude_origin", "altitude_origin")


def interpret(layers, files, grid):
    """what is to be computed: bodies (ECEF or cartesian points, density, constant), positions to
    report, stations.  files(path) -> bytes or None; grid(vdatum, points) -> heights or Invalid"""
    L = Layers(layers)
    masses = L.need("masses")
    if not isinstance(masses, (list, tuple)):
        raise Invalid("masses: not a list")
    for i in range(len(masses)):
        for k in SHOWN_MASS:
            L.need("masses", i, k)
        for k in SHOWN_CRS + ("vdatum",):
            L.need("masses", i, "crs", k)
    for k in ("points", "file_path", "grid"):
        L.need("observers", k)
    for k in SHOWN_CRS:
        L.need("observers", "crs", k)
    for k in GRID:
        L.need("observers", "grid", k)
    bodies = []
    for i in range(len(masses)):
        m = ("masses", i)
        P = read_points(L, m, files, False)
        crs = read_crs(L, m + ("crs",))
        rho = L.number(*m, "density")
        G = L.number(*m, "gravity_constant")
        if crs["ref"] == "ellps":
            P = wrap180(P)
            on_earth(P)
            if crs["vdatum"] != "ellps":
                P[:, 2] += grid(crs["vdatum"], P)
            P = geodetic_to_ecef(P, crs["ab"])
        elif crs["ref"] == "enu":
            P = enu_to_ecef(P, crs["org"], crs["ab"])
        try:
            body = Body(P)
        except Exception as e:
            if len(P) < 4 or np.linalg.matrix_rank(P - P[0]) < 3:
                raise Invalid(f"flat body: {e}")
            raise Unsure(f"no hull: {e}")
        bodies.append((body, rho, G, crs["ref"]))
    P = read_points(L, ("observers",), files, True)
    crs = read_crs(L, ("observers", "crs"))
    if crs["vdatum"] != "ellps":
        raise Unsure("vertical datum of observers")
    geo = crs["ref"] != "cart"
    if crs["ref"] == "ellps":
        on_earth(P)
    if crs["ref"] == "ellps":
        S = geodetic_to_ecef(P, crs["ab"])
        pos = P if crs["ab"] == ellipsoids()["wgs84"] else ecef_to_geodetic(S)
    elif crs["ref"] == "enu":
        S = enu_to_ecef(P, crs["org"], crs["ab"])
        pos = ecef_to_geodetic(S)
    elif crs["ref"] == "ecef":
        S = P
        pos = ecef_to_geodetic(S)
    else:
        S = pos = P
    if any((r == "cart") == geo for *_, r in bodies):
        raise Unsure("mixed frames")
    return bodies, pos, S, geo


NAMES = {True: ["lon_mes", "lat_mes", "alt_mes"], False: ["x_mes", "y_mes", "z_mes"]}
UNITS = {True: ["(degree_east)", "(degree_north)", "(m)"], False: ["(m)"] * 3}
FIELDS = ["Gx", "Gy", "Gz", "txx", "txy", "txz", "tyy", "tyz", "tzz"]
FUNITS = ["(mGal)"] * 3 + ["(E)"] * 6


def check_scope(bodies, pos, S, geo):
    """bodies too thin and stations on a surface have no well-conditioned field"""
    from geecsim import geom

    if geo and not all(-30e3 < h < 70e3 for h in pos[:, 2]):
        raise Unsure("far from the Earth")
    for body, *_ in bodies:
        if body.volume < 5e-5 * body.size**3:
            raise Unsure("thin body")
        if any(geom.dist(body, s) < 2e-3 * body.size for s in S):
            raise Unsure("station on a surface")


class Expected:
    def __init__(self, layers, files, grid, gradient):
        bodies, self.pos, S, self.geo = interpret(layers, files, grid)
        check_scope(bodies, self.pos, S, self.geo)
        n = len(S)
        self.G = np.zeros((n, 3))
        self.T = np.zeros((n, 6))
        self.sG = np.zeros(n)
        self.sT = np.zeros(n)
        for body, rho, G, _ in bodies:
            scale = max(np.abs(body.points).max(), np.abs(S).max())
            for i, s in enumerate(S):
                g, T, sg, sT = body.field(s, rho, G, gradient)
                self.G[i] += g
                self.T[i] += T.flatten()[[0, 1, 2, 4, 5, 8]]
                # error of the coordinates themselves
                d = body.nearest(s)
                pos = 4e-16 * scale + (1e-8 if self.geo else 0)
                self.sG[i] += RTOL * sg + 4 * pos / max(d, 1e-9) * sg
                self.sT[i] += RTOL_T * sT + 4 * pos / max(d, 1e-9) * sT

    def check(self, data):
        """None if the csv file holds exactly the results, otherwise what is wrong"""
        if data is None:
            return "no output file"
        try:
            text = data.decode("ascii")
        except UnicodeDecodeError:
            return "output file is not text"
        if not text.endswith("\n"):
            return "output file ends in the middle of a line"
        lines = text[:-1].split("\n")
        want = [",".join(NAMES[self.geo] + FIELDS), ",".join(UNITS[self.geo] + FUNITS)]
        if lines[:2] != want:
            return f"header lines {lines[:2]}"
        rows = lines[2:]
        if len(rows) != len(self.pos):
            return f"{len(rows)} rows for {len(self.pos)} observation points"
        worst = 0.0
        for i, r in enumerate(rows):
            f = r.split(",")
            if len(f) != 12:
                return f"row {i}: {len(f)} fields"
            try:
                v = np.array([float(x) for x in f])
            except ValueError:
                return f"row {i}: not numbers: {r}"
            if not np.isfinite(v).all():
                return f"row {i}: not finite: {r}"
            d = np.abs(v[:3] - self.pos[i])
            if self.geo:
                d[0] = min(d[0], abs(d[0] - 360)) * math.cos(math.radians(self.pos[i][1]))
                d = d / np.array([2e-8, 2e-8, 2e-3])
            else:
                d = d / (1e-9 * (1 + np.abs(self.pos[i])))
            worst = max(worst, d.max())
            if (d > 1).any():
                return f"row {i}: position {v[:3]} instead of {self.pos[i]}"
            d = np.abs(v[3:6] - self.G[i]).max()
            if d > self.sG[i] + 1e-30:
                return f"row {i}: gravity {v[3:6]} instead of {self.G[i]}"
            worst = max(worst, d / (self.sG[i] + 1e-30))
            d = np.abs(v[6:] - self.T[i]).max()
            if d > self.sT[i] + 1e-30:
                return f"row {i}: gradient {v[6:]} instead of {self.T[i]}"
            worst = max(worst, d / (self.sT[i] + 1e-30))
        self.worst = worst
        return None
