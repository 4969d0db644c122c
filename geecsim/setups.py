"""Seeded generation of what a command is run on: configuration layers, input files, output path.

A setup is plain JSON.  "@W" stands for the root of the world."""
import copy
import os

import numpy as np
import yaml

from geecsim import gen, geom, lib_props, model, rt

DEFAULT_YAML = rt.REPO + "/geec/cfg/config_default.yaml"
TEMPLATE = rt.REPO + "/geec/cfg/config_template.yaml"
STAMP = 1690000000  # modification time of the files, so that nothing depends on the real clock


def rnd(x, n):
    return float(f"{x:.{n}g}")


def csv(P, style="plain"):
    """the same numbers, written in different ways"""
    num, sep, eol, tail = (lambda v: repr(float(v))), ",", "\n", "\n"
    if style == "crlf":
        eol = tail = "\r\n"
    elif style == "spaces":
        sep = ", "
    elif style == "sci":
        num = lambda v: f"{float(v):.17e}"  # noqa
    elif style == "noeol":
        tail = ""
    elif style == "blank":
        tail = "\n\n\n"
    elif style == "plus":
        num = lambda v: f"{float(v):+}"  # noqa
    elif style == "int":
        num = lambda v: repr(int(v)) if float(v).is_integer() else repr(float(v))  # noqa
    return eol.join(sep.join(num(v) for v in p) for p in P) + tail


CSV_STYLES = ["plain"] * 4 + ["crlf", "spaces", "sci", "noeol", "blank", "plus", "int", "int"]


def whole(P):
    """as whole numbers where they are"""
    return [[int(v) if float(v).is_integer() else v for v in p] for p in P]


# ---------------------------------------------------------------- generation
def axes(r):
    """an ellipsoid of one's own: some differ from a usual one in one axis only"""
    a, b = model.WGS84
    return r.choice([(6378200.5, 6356800.25), (6378137, 6356700.5), (6378100, round(b, 4)), (a, 6356800.25), (6378388.0, 6356911.9), (a, a)])


def gen_mass(r, geo, place, heights, size):
    """one mass body: its configuration, and its points in the frame of computation"""
    rho, G = gen.density(r), gen.constant(r)
    crs = {"ref": "cart", "name": "wgs84", "semimajor_axis": None, "semiminor_axis": None, "longitude_origin": None,
           "latitude_origin": None, "altitude_origin": None, "vdatum": "ellps"}
    if not geo:
        if r.random() < 0.12:  # whole numbers
            n = max(2, int(size))
            c = [r.randint(-2, 2) * n for _ in range(3)]
            P = [[c[0] + x * n, c[1] + y * (n + 1), c[2] + z * n] for x in (0, 1) for y in (0, 1) for z in (-1, 0)]
            r.shuffle(P)
            return {"density": rho, "gravity_constant": G, "crs": crs}, P if r.random() < 0.5 else [[float(x) for x in p] for p in P]
        P, b = gen.any_body(r, size=size, center=[r.uniform(-3, 3) * size for _ in range(3)] if r.random() < 0.5 else [0.0, 0.0, 0.0])
        if r.random() < 0.3:  # what is not used is there all the same
            crs["vdatum"] = r.choice(["egm96", "ellps"])
        return {"density": rho, "gravity_constant": G, "crs": crs}, P
    local, _ = gen.any_body(r, size=size, center=[r.uniform(-2, 2) * size for _ in range(3)])
    E = model.enu_to_ecef(np.array(local), place, model.WGS84)
    ref = r.choice(["ellps"] * 4 + ["enu", "ecef"])
    crs["ref"] = ref
    if ref == "ecef":
        return {"density": rho, "gravity_constant": G, "crs": crs}, [[round(float(x), 4) for x in p] for p in E]
    ab = model.WGS84
    if r.random() < 0.5:
        if r.random() < 0.25:
            crs["name"] = r.choice([None, None, ""])
            ab = axes(r)
            crs["semimajor_axis"], crs["semiminor_axis"] = ab
        else:
            crs["name"] = r.choice(["airy", "bessel", "clrk66", "grs80", "wgs72", "everest1956", "wgs84"])
            ell = model.ellipsoids()
            crs["name"] = crs["name"] if crs["name"] in ell else "airy"
            ab = ell[crs["name"]]
    if ref == "enu":
        o = [round(place[0] + r.uniform(-0.01, 0.01), 5), round(place[1] + r.uniform(-0.01, 0.01), 5), round(place[2] + r.uniform(-50, 50), 2)]
        crs["longitude_origin"], crs["latitude_origin"], crs["altitude_origin"] = o
        P = model.ecef_to_enu(E, o, ab)
        return {"density": rho, "gravity_constant": G, "crs": crs}, [[round(float(x), 4) for x in p] for p in P]
    P = model.ecef_to_geodetic(E, ab)
    P = [[round(float(p[0]), 9), round(float(p[1]), 9), round(float(p[2]), 4)] for p in P]
    if any(p[0] < 0 for p in P) and r.random() < 0.4:
        P = [[round(p[0] + 360, 9) if p[0] < 0 else p[0], p[1], p[2]] for p in P]
    v = r.choice(["ellps", "egm84", "egm96", "egm2008", "egm96"])
    crs["vdatum"] = v if r.random() < 0.85 else v.upper()
    if r.random() < 0.1:
        crs["ref"] = "ELLPS"
    return {"density": rho, "gravity_constant": G, "crs": crs}, P


def gen_full(r, heights, geo=None, max_obs=6, nmass=None, grids=True, many=0):
    """a complete configuration: every parameter given, points inline"""
    for _ in range(400):
        g = r.random() < 0.6 if geo is None else geo
        n = nmass or r.choice([1, 1, 1, 2, 2, 3])
        size = 10 ** (r.uniform(1.5, 3.5) if g else r.uniform(-0.5, 1.5))
        place = [round(r.choice([r.uniform(-179, 179), 179.999, -0.001]), 5), round(r.choice([r.uniform(-85, 85), 0.001]), 5), round(r.uniform(-100, 2000), 1)]
        masses = []
        for _ in range(n):
            m, P = gen_mass(r, g, place, heights, size)
            masses.append(dict(m, points=P, file_path=None))
            if len(masses) > 1 and r.random() < 0.15:  # the same shape again
                d = copy.deepcopy(r.choice(masses[:-1]))
                d["density"] = gen.density(r)
                if r.random() < 0.3 and g and d["crs"]["ref"] == "ellps":  # taken for something else
                    d["crs"]["vdatum"] = r.choice(["ellps", "egm84", "egm96"])
                elif r.random() < 0.3:
                    r.shuffle(d["points"])
                masses[-1] = d
        obs = {"points": [], "file_path": None, "grid": {"xstart_xend_xstep": [0.0, 1.0, 1.0], "ystart_yend_ystep": [0.0, 1.0, 1.0],
                                                          "zstart_zend_zstep": [0.0, 1.0, 1.0]},
               "crs": {"ref": "cart" if not g else "ecef", "name": "wgs84", "semimajor_axis": None, "semiminor_axis": None, "longitude_origin": None,
                       "latitude_origin": None, "altitude_origin": None}}
        try:
            bodies, *_ = model.interpret([{"masses": masses, "observers": dict(obs, points=[[0.0, 0.0, 0.0]])}], None, heights)
        except (model.Invalid, model.Unsure):
            continue
        B = [b[0] for b in bodies]
        if any(b.volume < 1e-4 * b.size**3 for b in B):
            continue
        k = r.choice([1, 1, 2, 3, r.randint(1, max_obs)])
        if many:
            k = many
        try:
            S = []
            for _ in range(k):
                b = r.choice(B)
                S.append(gen.station(r, b, [x for x in B if x is not b], margin=5e-3))
        except ValueError:
            continue
        if r.random() < 0.2:  # at one point more than once
            for _ in range(r.choice([1, 1, 2, 4])):
                S.insert(r.randrange(len(S) + 1), list(r.choice(S)))
        c = obs["crs"]
        if not g:
            if r.random() < 0.12:
                S = [[round(x) for x in p] if size > 3 and r.random() < 0.8 else p for p in S]
            obs["points"] = S
            if grids and r.random() < 0.3:  # a grid instead
                obs["points"] = [] if r.random() < 0.7 else None
                o = S[0]
                ax = []
                for i in range(3):
                    m = r.choice([1, 1, 2, 3])
                    d = rnd(r.uniform(0.5, 2) * size, 3)
                    s = rnd(o[i], 5)
                    ax.append([s, rnd(s + (m - 0.5) * d, 6), d])
                obs["grid"] = dict(zip(("xstart_xend_xstep", "ystart_yend_ystep", "zstart_zend_zstep"), ax))
        else:
            ref = r.choice(["ellps", "ellps", "enu", "ecef"])
            c["ref"] = ref if ref != "ellps" or r.random() < 0.6 else None
            ab = model.WGS84
            if ref != "ecef" and r.random() < 0.5:
                if r.random() < 0.3:
                    c["name"] = r.choice([None, None, ""])
                    ab = axes(r)
                    c["semimajor_axis"], c["semiminor_axis"] = ab
                else:
                    c["name"] = r.choice(["airy", "grs80", "bessel", "wgs84"])
                    ab = model.ellipsoids()[c["name"]]
            if ref == "enu":
                o = [round(place[0], 3), round(place[1], 3), round(place[2])]
                c["longitude_origin"], c["latitude_origin"], c["altitude_origin"] = o
                obs["points"] = [[round(float(x), 4) for x in p] for p in model.ecef_to_enu(S, o, ab)]
            elif ref == "ellps":
                obs["points"] = [[round(float(p[0]), 9), round(float(p[1]), 9), round(float(p[2]), 4)] for p in model.ecef_to_geodetic(S, ab)]
                if r.random() < 0.2:  # longitudes from 0 to 360
                    obs["points"] = [[round(p[0] + 360, 9) if p[0] < 0 else p[0], p[1], p[2]] for p in obs["points"]]
            else:
                obs["points"] = [[round(float(x), 4) for x in p] for p in S]
        cfg = {"masses": masses, "observers": obs}
        try:
            bodies, pos, S, _ = model.interpret([cfg], None, heights)
        except (model.Invalid, model.Unsure):
            continue
        if g and not all(-20e3 < h < 60e3 for h in model.ecef_to_geodetic(S)[:, 2]):
            continue  # the geodetic coordinates of pymap3d are approximate far from the Earth
        if len(S) > max(30, 2 * many) or any(geom.dist(b[0], s) < 3e-3 * b[0].size for b in bodies for s in S):
            continue
        return cfg
    raise rt.HarnessError("no configuration")


OUTPUTS = [  # as given, where the csv file is
    ("@W/out/res.csv", "out/res.csv"), ("@W/out/res.csv", "out/res.csv"), ("@W/out/res", "out/res.csv"), ("@W/out/new/dir/res.csv", "out/new/dir/res.csv"),
    ("../out/res.csv", "out/res.csv"), ("res.csv", "work/res.csv"), ("./sub/res", "work/sub/res.csv"), ("@W/out/res.txt", "out/res.csv"),
    ("@W/out/./x/../res.csv", "out/res.csv"), ("~/res.csv", "home/res.csv"), ("@W/out/a b/r\u00e9s.csv", "out/a b/r\u00e9s.csv"),
]


def to_files(r, cfg, files, p, tag=""):
    """move inline points to csv files"""
    cfg = copy.deepcopy(cfg)
    for i, m in enumerate(cfg["masses"]):
        if r.random() < p:
            name = f"in/mass{tag}{i}.csv"
            files[name] = csv(m["points"], r.choice(CSV_STYLES))
            m["points"] = r.choice([None, []])
            m["file_path"] = r.choice(["@W/" + name, "@W/" + name, "../" + name])
        elif r.random() < 0.06:  # the points come first
            m["file_path"] = r.choice(["@W/in/nothere.csv", "@W/in/spare.csv"])
            files["in/spare.csv"] = csv([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
    o = cfg["observers"]
    if o["points"] and r.random() < p:
        name = f"in/obs{tag}.csv"
        files[name] = csv(o["points"], r.choice(CSV_STYLES))
        o["points"] = r.choice([None, []])
        o["file_path"] = r.choice(["@W/" + name, "../" + name])
    M = [m for m in cfg["masses"] if m["file_path"] and not m["points"]]
    for a in M:  # the same points: from the same file
        for b in M:
            if a is not b and files.get(b["file_path"][3:]) == files.get(a["file_path"][3:]) and b["file_path"] != a["file_path"] and b["file_path"].startswith("@W"):
                a["file_path"] = b["file_path"]
    return cfg


def gen_setup(r, heights, tag="", out=None, files_p=None, links=0.0, **k):
    """a valid setup: everything in the configuration given on the command line"""
    cfg = gen_full(r, heights, **k)
    files = {}
    cfg = to_files(r, cfg, files, r.choice([0, 0.6, 1]) if files_p is None else files_p, tag)
    given, target = out or r.choice(OUTPUTS)
    s = {"files": files, "cfg": cfg, "user": None, "gradient": r.random() < 0.5, "output": given, "target": target, "cwd": "work", "old": None,
         "cfgname": f"cfg/run{tag}.yaml", "order": r.choice([0, 0, 1, 2])}
    if r.random() < 0.25:  # what the user has is overridden
        s["user"] = {"observers": {"points": [[9e6, 9e6, 9e6]], "crs": {"name": "airy"}}}
    if r.random() < 0.6:
        s["old"] = old_content(r)
        if r.random() < 0.25:
            s["old"] = {"like": r.choice(["digit", "digit", "short", "long", "same"]), "seed": r.randrange(1 << 30)}
    if r.random() < links and given.endswith(".csv"):
        s["link"] = r.choice(["out/elsewhere/data.csv", "home/data.csv"])
    return s


def old_content(r):
    return r.choice(["x_mes,y_mes,z_mes,Gx,Gy,Gz,txx,txy,txz,tyy,tyz,tzz\n(m),(m),(m),(mGal),(mGal),(mGal),(E),(E),(E),(E),(E),(E)\n1.0,2.0,3.0,4.0,5.0,6.0,0.0,0.0,0.0,0.0,0.0,0.0\n",
                     "precious\n" * r.choice([1, 5, 400]), "", "no end of line"])


# ---------------------------------------------------------------- on the machine
def subst(world, x):
    if isinstance(x, str):
        return x.replace("@W", world.root)
    if isinstance(x, dict):
        return {k: subst(world, v) for k, v in x.items()}
    if isinstance(x, list):
        return [subst(world, v) for v in x]
    return x


def dump(world, layer):
    if isinstance(layer, str):  # as it is
        return layer.replace("@W", world.root)
    return yaml.safe_dump(subst(world, layer), default_flow_style=None, sort_keys=False)


def stamp(path, t=STAMP):
    os.utime(path, (t, t), follow_symlinks=False)


def put(world, s, old=True):
    """write the files of a setup"""
    for f, text in s["files"].items():
        stamp(world.write(f, text.encode("latin-1") if isinstance(text, str) and any(ord(c) > 127 for c in text) else text))
    if s.get("cfg") is not None:
        stamp(world.write(s["cfgname"], dump(world, s["cfg"])))
    if s.get("user") is not None:
        stamp(world.write("home/.config/geec/config.yaml", dump(world, s["user"])))
    if s.get("link"):  # the output is a link to a file elsewhere
        if old and s.get("old") is not None:
            stamp(world.write(s["link"], s["old"], s.get("mode")))
        else:
            os.makedirs(os.path.dirname(world.p(s["link"])), exist_ok=True)
        t = world.p(s["target"])
        os.makedirs(os.path.dirname(t), exist_ok=True)
        if os.path.lexists(t):
            os.unlink(t)
        os.symlink(os.path.relpath(world.p(s["link"]), os.path.dirname(t)), t)
    elif old and s.get("old") is not None:
        stamp(world.write(s["target"], s["old"], s.get("mode")))


def argv(world, s):
    out, opts = [subst(world, s["output"])], []
    if s.get("cfg") is not None or s.get("nocfg"):
        opts += ["--config", world.p(s["cfgname"])]
    k = s.get("order", 0)
    g = ["--gradient"] if s["gradient"] else []
    return ["run"] + [out + opts + g, g + opts + out, opts + out + g][k]


def spec(world, s, **k):
    return dict({"argv": argv(world, s), "cwd": s["cwd"]}, **k)


_default = None


def default_layer():
    global _default
    if _default is None:
        with open(DEFAULT_YAML, "rb") as f:
            _default = f.read()
    return model.parse_yaml(_default)


def layers(world, s):
    """the configuration files as they are, highest first"""
    layers = []
    if s.get("cfg") is not None or s.get("nocfg"):
        data = world.read(s["cfgname"])
        if data is None:
            raise model.Invalid("no configuration file")
        layers.append(model.parse_yaml(data))
    u = world.read("home/.config/geec/config.yaml")
    if u is not None:
        layers.append(model.parse_yaml(u))
    layers.append(default_layer())
    return layers


def expected(world, s, heights, grid=None):
    """what the run must write, from the files as they are"""

    def files(p):
        q = os.path.normpath(os.path.join(world.p(s["cwd"]), p))
        if not q.startswith(world.root + "/"):
            raise model.Unsure("file out of the world")
        try:
            with open(q, "rb") as f:
                return f.read()
        except OSError:
            return None

    return model.Expected(layers(world, s), files, grid or heights, s["gradient"])
