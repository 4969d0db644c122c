"""Seeded generation of bodies, stations and numbers (plain lists, so that scenarios are JSON)."""
import math
import random

import numpy as np

from geecsim import geom, model


def rnd(x, n=6):
    return float(f"{x:.{n}g}")


BODY_KINDS = ("tetra", "box", "slab", "octa", "random", "pyramid", "prism", "dem", "dup")


def body(r: random.Random, kind=None, size=None, center=None):
    """points of a body of the given size around the centre"""
    kind = kind or r.choice(BODY_KINDS)
    u = r.uniform
    if kind == "tetra":
        P = [[0, 0, 0], [u(0.5, 2), u(-0.3, 0.3), 0], [u(-0.3, 0.3), u(0.5, 2), u(-0.2, 0.2)], [u(-0.3, 0.8), u(-0.3, 0.8), u(0.5, 2)]]
    elif kind in ("box", "dup"):
        a, b, c = u(0.5, 2), u(0.5, 2), u(0.3, 2)
        P = [[x, y, z] for x in (0, a) for y in (0, b) for z in (0, c)]
        if kind == "dup":  # interior points and points within faces are no corners
            P += [[a / 2, b / 2, c / 2], [a / 4, b / 2, c / 4]]
    elif kind == "slab":
        a, b, c = u(2, 5), u(2, 5), u(0.1, 0.4)
        P = [[x, y, z] for x in (0, a) for y in (0, b) for z in (0, c)]
    elif kind == "octa":
        a, b, c = u(0.5, 1.5), u(0.5, 1.5), u(0.5, 1.5)
        P = [[a, 0, 0], [-a, 0, 0], [0, b, 0], [0, -b, 0], [0, 0, c], [0, 0, -c]]
    elif kind == "random":
        P = [[r.gauss(0, 1), r.gauss(0, 1), r.gauss(0, 1)] for _ in range(r.randint(5, 9))]
    elif kind == "pyramid":
        P = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [u(0.2, 0.8), u(0.2, 0.8), u(0.4, 2)]]
    elif kind == "prism":
        h = u(0.4, 2)
        n = r.randint(3, 6)
        ph = u(0, 1)
        P = [[math.cos(ph + 2 * math.pi * i / n), math.sin(ph + 2 * math.pi * i / n), z] for i in range(n) for z in (0, h)]
    elif kind == "dem":
        # a convex topography over a flat base
        P = [[x, y, 1 + 0.5 * (2 - (x - 1) ** 2 - (y - 1) ** 2) + u(0, 0.02)] for x in (0, 1, 2) for y in (0, 1, 2)]
        P += [[0, 0, 0], [2, 0, 0], [2, 2, 0], [0, 2, 0]]
    elif kind == "sphere":  # many faces
        n = r.choice([25, 40, 60, 90, 140])
        P = []
        for i in range(n):
            z = 1 - 2 * (i + 0.5) / n
            a = i * 2.399963 + u(0, 0.05)
            P.append([math.sqrt(1 - z * z) * math.cos(a), math.sqrt(1 - z * z) * math.sin(a), z * 0.8])
    size = size if size is not None else 10 ** u(-0.5, 1.5)
    center = center if center is not None else [0.0, 0.0, 0.0]
    digits = 6 if max(map(abs, center)) < 1e5 else 10
    r.shuffle(P)
    return [[rnd(center[i] + size * p[i], digits) for i in range(3)] for p in P]


def solid(points):
    """a well-shaped body?"""
    try:
        b = model.Body(points)
    except Exception:
        return None
    if b.volume < 1e-4 * b.size**3:
        return None
    return b


def any_body(r, **k):
    while True:
        P = body(r, **k)
        b = solid(P)
        if b is not None:
            return P, b


def station(r: random.Random, b: model.Body, others=(), margin=2e-3):
    """a point not on the surface of the bodies"""
    P = b.points
    c = P.mean(axis=0)
    s = b.size
    for k in range(600):
        m = r.random() if k < 200 else 0.4
        if m < 0.35:
            o = c + np.array([r.gauss(0, 1) for _ in range(3)]) * s
        elif m < 0.45:
            o = c + np.array([r.gauss(0, 1) for _ in range(3)]) * s * 10 ** r.uniform(0, 2)
        elif m < 0.6:  # in the plane of a face
            i = r.randrange(len(b.A))
            u, v = r.choice([-2, -1, -0.5, 0.5, 1, 2, 3]), r.choice([-2, -1, -0.5, 0.5, 1, 2, 3])
            o = b.A[i] + u * (b.B[i] - b.A[i]) + v * (b.C[i] - b.A[i])
        elif m < 0.7:  # in line with an edge
            i = r.randrange(len(b.A))
            o = b.A[i] + r.choice([-3.0, -1, -0.5, 1.5, 2, 5]) * (b.B[i] - b.A[i])
        elif m < 0.8:  # inside
            w = np.array([r.random() ** 2 for _ in range(len(P))])
            o = (w / w.sum()) @ P
        elif m < 0.9:  # near a corner
            p = P[r.randrange(len(P))]
            o = p + (p - c) * r.uniform(0.02, 1)
        else:  # plain numbers
            o = np.round(c + np.array([r.gauss(0, 1) for _ in range(3)]) * s, 1)
        o = np.array([float(x) for x in o])
        if all(geom.dist(x, o) > margin * x.size for x in (b, *others)):
            return [float(x) for x in o]
    raise ValueError("no station")


def density(r):
    return r.choice([1000.0, 2670.0, 1.0, -400.0, rnd(r.uniform(100, 5000)), rnd(r.uniform(-800, 800)), 0.0, 3300])


def constant(r):
    return r.choice([6.67408e-11, 6.67408e-11, 6.6743e-11, 1e-11, 1.0])
