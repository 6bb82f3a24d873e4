"""Generators of inputs: labels, staircase triangles, loss records."""
import pandas as pd
import numpy as np

NAN = float("nan")
NAMES = [("origin", "dev", "value")] * 3 + [
    ("AccYear", "Lag", "Paid"), ("ay", "dev", "value"), ("origin", "age", "value"), ("origin", "dev", "loss"),
    ("value", "origin", "dev"), ("dev", "origin", "amt"), ("o", "d", "latest"), ("index", "dev", "value")]


def labels(rng, n, which):
    if which == "o":
        start, step = rng.choice([(1, 1), (1981, 1), (2001, 1), (100, 10), (2000, 2), (7, 5), (1, 10), (2, 18), (0, 1), (0, 3), (202101, 1), (32766, 1), (198012, 100)])
    else:
        start, step = rng.choice([(1, 1), (1, 1), (12, 12), (3, 3), (0, 1), (2, 1), (6, 12), (5, 2), (10, 10), (1, 10), (32760, 12), (127, 1)])
    return [start + step * i for i in range(n)]


def amount(rng, style, lo=1, hi=1000):
    if style == "int":
        return float(rng.randint(lo, hi))
    if style == "cents":
        return rng.randint(lo * 100, hi * 100) / 100.0
    if style == "big":
        return float(rng.randint(lo, hi) * 100000 + rng.randint(0, 99999))
    if style == "wild":                     # many orders of magnitude
        return float("%.4g" % 10 ** rng.uniform(-5, 8))
    return rng.randint(lo * 1000, hi * 1000) / 64.0


UNITS = (1e-8, 1e-6, 1e-3, .01, 1e3, 1e6, 1e9)


def rescaled(rng, rows, p=.12):
    """The amounts in another unit, now and then."""
    if rng.random() < p:
        u = rng.choice(UNITS)
        rows = [[x * u for x in r] for r in rows]
    return rows


def cum_matrix(rng, n, style=None, neg=0.1, lo=1.0, units=None):
    """n x n staircase of positive cumulative amounts, as rows of lists.

    neg: share of development steps that decrease; units: share of matrices
    in an unusual unit (not when a style is asked for).
    """
    units = (.12 if style is None else 0) if units is None else units
    style = style or rng.choice(["int", "int", "cents", "big", "dyadic"])
    pat = [rng.uniform(1.02, 2.5) if j == 0 else rng.uniform(1.01, 1.6) for j in range(n - 1)]
    rows = []
    for i in range(n):
        x = amount(rng, style, 200, 5000)
        row = [x]
        for j in range(n - 1 - i):
            f = pat[j] * rng.uniform(0.75, 1.3)
            if f < 1.0 and rng.random() > neg:
                f = 1.0 + (1.0 - f)
            if rng.random() < neg:
                f = rng.uniform(0.8, 0.99)
            y = row[-1] * f
            y = float(round(y)) if style in ("int", "big") else round(y, 2) if style == "cents" else round(y * 64) / 64.0
            row.append(max(y, 1.0))
        rows.append(row + [NAN] * i)
    return rescaled(rng, rows, units) if units else rows


def incr_of(cum):
    out = []
    for r in cum:
        q, prev = [], 0.0
        for x in r:
            q.append(NAN if x != x else x - prev)
            prev = x if x == x else prev
        out.append(q)
    return out


def recs_of(o, d, m):
    return [(o[i], d[j], m[i][j]) for i in range(len(o)) for j in range(len(d)) if m[i][j] == m[i][j]]


def df_of(recs, names=("origin", "dev", "value")):
    return pd.DataFrame(recs, columns=list(names))


def cumtri(o, d, cum, names=("origin", "dev", "value")):
    """The real cumulative triangle of staircase amounts (as incremental records)."""
    from trikit import totri
    df = df_of(recs_of(o, d, incr_of(cum)), names)
    return totri(df, tri_type="cum", origin=names[0], dev=names[1], value=names[2])


def bigger(rng, n, p=.03):
    """Now and then a triangle larger than ten periods."""
    return rng.choice([11, 12, 13]) if rng.random() < p else n


def pick_n(rng, lo, hi, big=.03):
    if rng.random() < big:
        return rng.choice([11, 12, 13, 14])
    return rng.choice([x for x in range(lo, hi + 1)] + [lo, lo + 1])
