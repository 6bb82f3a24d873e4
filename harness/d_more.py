"""Drivers: printed forms (C25), agreement of methods (C26), successive
valuations (C27)."""
import re
import numpy as np
import pandas as pd
from rec import *
from gen import *
from d_tri import start_tri, convert
from d_dev import mktri, exclude, setind, avg_names, calm, est_matrix, avgs_out, cum_matrix, tie_matrix, test_matrix
from d_boot import fit_ok

NUM = re.compile(r"^-?(\d+)(\.\d+)?$")
SEP = re.compile(r"^-?\d{1,3}(,\d{3})*(\.\d+)?$")


# ------------------------------------------------------------------ C25
def cell(x):
    x = x.strip()
    v = x.replace(",", "")
    m = NUM.match(v)
    return {"t": x, "v": v if m or v in ("inf", "-inf") else "nan", "dec": len(m.group(2)) - 1 if m and m.group(2) else 0,
            "sep": bool(SEP.match(x))}


def printed(obj):
    """The printed table: headings, and per line the label and its cells (the
    only blank one is a total's maturity)."""
    s = str(obj)
    lines = s.split("\n")
    names = lines[0].split()
    rows = []
    for ln in lines[1:]:
        x = ln.split()
        cells = x[1:]
        if len(cells) == len(names) - 1 and "maturity" in names:
            cells.insert(names.index("maturity"), "")
        rows.append({"lab": x[0] if x else "", "cells": [cell(c) for c in cells]})
    return {"head": names, "rows": rows, "same": bool(repr(obj) == s)}


def print_tri(w, h, t):
    w.ev("printtri", h=h, out=safe(lambda: printed(t)))


def print_sum(w, method, get):
    def go():
        r = get()
        s = r.summary
        o = printed(r)
        cols = [str(c) for c in s.columns]
        o.update(cols=cols, idx=[str(i) for i in s.index],
                 fig=[[str(v) for v in s[c]] if c == "maturity" else nums(s[c].values) for c in s.columns])
        return o
    w.ev("printsum", method=method, out=safe(go))


PQ = [[.75, .95], [.5], [.05, .5, .995], [.125], [1 / 3], [.9, .1], [.99, .999, .9999], .8]


def C25(w, rng, k, tier):
    r = rng.random()
    if r < .08:                     # more origins and periods than a screen has
        n = rng.choice([22, 25] if tier == "quick" else [22, 30, 61])
        t, o, d = mktri(w, 1, rng, n, cum_matrix(rng, n))
        if t is None:
            return
        print_tri(w, 1, t)
        print_sum(w, "base", lambda: t.base_cl())
        return
    n = rng.choice([3, 4, 4, 5, 6, 8, 10])
    m = est_matrix(rng, n)
    s = rng.random()
    if s < .15:
        m = [[x / 1000.0 for x in q] for q in m]
    elif s < .3:
        m = [[x * rng.choice([1e4, 1e6]) for x in q] for q in m]
    t, o, d = mktri(w, 1, rng, n, m)
    if t is None:
        return
    print_tri(w, 1, t)
    if rng.random() < .5:
        i = safe(lambda: t.to_incr())
        if not isexc(i):
            start_tri(w, 2, i)
            print_tri(w, 2, i)
    if not calm(t):
        return
    for method in rng.sample(["base", "mack", "boot"], 2):
        if method == "base":
            tail = rng.choice([1.0, 1.05, 1.5])
            print_sum(w, "base", lambda: t.base_cl(sel=rng.choice(["all-weighted", "all-simple", "simple-1"]), tail=tail))
        elif method == "mack" and n >= 4:
            q, two = rng.choice(PQ), rng.random() < .4
            print_sum(w, "mack", lambda: t.mack_cl(dist=rng.choice(["norm", "lognorm"]), q=q, two_sided=two))
        elif method == "boot" and fit_ok(t):
            q, two = rng.choice(PQ), rng.random() < .4
            print_sum(w, "boot", lambda: t.boot_cl(sims=rng.choice([2, 7]), q=q, two_sided=two, random_state=rng.randint(0, 99)))
    w.ev("same", h=1, why="print", src=safe(lambda: tri(t, True)))


# ------------------------------------------------------------------ C26
def estimate(name, method, r, n, sel="", a2=-1):
    sq = pd.DataFrame(r.trisqrd).to_numpy(dtype=float)
    s = r.summary
    return {"name": name, "method": method, "sel": sel, "a2": a2, "tail": num(r.tail) if method == "base" else "1.0",
            "ldfs": nums(r.ldfs.values), "cldf": nums(s["cldf"].values), "latest": nums(s["latest"].values),
            "ultimate": nums(s["ultimate"].values), "maturity": [str(x) for x in s["maturity"]],
            "errors": nums(s["std_error"].values) if "std_error" in s.columns else [], "sq": [nums(x[:n]) for x in sq]}


def agree(w, rng, h, t, n, boot):
    d = list(t.columns)

    def go():
        E = []
        tail = rng.choice([1.0, 1.05, 1.25])
        E.append(estimate("weighted", "base", t.base_cl(), n, "all-weighted"))
        E.append(estimate("weighted_tail", "base", t.base_cl(sel="all-weighted", tail=tail), n, "all-weighted"))
        E.append(estimate("simple", "base", t.base_cl(sel="all-simple"), n, "all-simple"))
        if n >= 4:
            dist = rng.choice(["norm", "lognorm"])
            E.append(estimate("mack1", "mack", t.mack_cl(alpha=1, dist=dist), n, a2=2))
            E.append(estimate("mack0", "mack", t.mack_cl(alpha=0), n, a2=0))
            E.append(estimate("mack2", "mack", t.mack_cl(alpha=2), n, a2=4))
        if boot:
            E.append(estimate("boot", "boot", t.boot_cl(sims=2, random_state=rng.randint(0, 99)), n))
        nm = rng.choice(avg_names(n))
        b = t.base_cl(sel=nm)
        if not b.ldfs.isnull().any():
            v = [float(x) for x in b.ldfs.values[:n - 1]]
            E.append(estimate("named", "base", b, n, nm))
            E.append(estimate("as_list", "base", t.base_cl(sel=list(v), tail=rng.choice([1.0, tail])), n, nm))
            idx = list(range(n - 1))
            rng.shuffle(idx)
            E.append(estimate("as_series", "base", t.base_cl(sel=pd.Series([v[i] for i in idx], index=[d[i] for i in idx])), n, nm))
            w2 = t.a2a_avgs().loc[nm]
            E.append(estimate("as_row", "base", t.base_cl(sel=w2), n, nm))
        return {"est": E}
    w.ev("agree", h=h, out=safe(go))


def routes(w, rng, h, t, o, d, m, n):
    """The same triangle reached another way (triangle 2)."""
    from trikit import totri
    r = rng.choice(["incr", "tbl", "grid", "cumtbl"])

    def go():
        if r == "incr":
            return t.to_incr().to_cum()
        if r == "tbl":
            return totri(t.to_incr().to_tbl(), tri_type="cum", origin=t.origin, dev=t.dev, value=t.value)
        if r == "grid":
            return totri(pd.DataFrame(m, index=o, columns=d), tri_type="cum", data_format="cum", data_shape="triangle")
        return totri(t.to_tbl(), tri_type="cum", data_format="cum", origin=t.origin, dev=t.dev, value=t.value)
    x = safe(go)
    if isexc(x):
        w.ev("unreadable", what="route %s raised %s" % (r, x["exc"]))
        return None
    start_tri(w, 2, x)
    return x


def uniform_matrix(rng, n):
    f = [rng.choice([1.0, 1.125, 1.25, 1.5, 1.75, 2.0, .75]) for _ in range(n - 1)]
    rows = []
    for i in range(n):
        r = [float(rng.choice([64, 96, 128, 320, 1024]) * 8 ** n)]
        for j in range(n - 1 - i):
            r.append(r[-1] * f[j])
        rows.append(r + [NAN] * i)
    return rows


def uniform(t):
    n = t.shape[0]
    v = t.to_numpy(dtype=float)
    return all(len({v[i][j + 1] / v[i][j] for i in range(n - 1 - j)}) == 1 for j in range(n - 1))


def C26(w, rng, k, tier):
    n = bigger(rng, rng.choice([3, 4, 4, 5, 6, 7]))
    m = uniform_matrix(rng, n) if rng.random() < .3 else est_matrix(rng, n)
    t, o, d = mktri(w, 1, rng, n, m)
    if t is None or (not calm(t)):
        return
    two = routes(w, rng, 1, t, o, d, m, n) if rng.random() < .4 else None
    if rng.random() < .5:
        st = rng.getstate()
        exclude(w, rng, 1, t, o, d, n, rng.choice([1, 2]), keep_one=True)
        if not calm(t):
            return
    agree(w, rng, 1, t, n, fit_ok(t) and not uniform(t))
    if two is not None and calm(two):
        agree(w, rng, 2, two, n, False)
    w.ev("same", h=1, why="agree", src=safe(lambda: tri(t, True)))


# ------------------------------------------------------------------ C27
def build_of(rng, o, d, m, names, how):
    from trikit import totri
    kw = dict(tri_type="cum", origin=names[0], dev=names[1], value=names[2])
    if how == "incr":
        recs = recs_of(o, d, incr_of(m))
        rng.shuffle(recs)
        return totri(df_of(recs, names), **kw)
    if how == "cum":
        recs = recs_of(o, d, m)
        rng.shuffle(recs)
        return totri(df_of(recs, names), data_format="cum", **kw)
    return totri(pd.DataFrame(m, index=o, columns=d), tri_type="cum", data_format="cum", data_shape="triangle")


def cut(m, n):
    """The first n valuations of a staircase."""
    return [[m[i][j] if i + j < n else NAN for j in range(n)] for i in range(n)]


def extends(w, h, h2, t, u):
    def tb(x):
        x = table(x)["rows"]
        return {"o": [r[0] for r in x], "d": [r[1] for r in x], "v": [r[2] for r in x]}

    def go():
        return {"a2a1": frame(t.a2a), "a2a2": frame(u.a2a), "back": tb(u.diagonal(-1)), "latest1": tb(t.latest),
                "latest2": tb(u.latest), "maturity1": labs(t.maturity.values), "maturity2": labs(u.maturity.values),
                "nbr1": int(t.nbr_cells), "nbr2": int(u.nbr_cells), "incr2": frame(u.to_incr())}
    w.ev("extends", h=h, h2=h2, out=safe(go))


def foreseen(w, rng, h, t, o, d, n, names, o1, d1):
    """The next valuation turns out exactly as projected."""
    sel = rng.choice(["all-weighted", "all-simple", "all-geometric"])

    def project():
        r = t.base_cl(sel=sel)
        sq = pd.DataFrame(r.trisqrd).to_numpy(dtype=float)
        m = [[float(t.iat[i, j]) if i + j < n else NAN for j in range(n)] for i in range(n)]
        m = [m[i] + [NAN] for i in range(n)] + [[NAN] * (n + 1)]
        for i in range(n):
            m[i][n - i] = float(sq[i][n - i])
        m[n][0] = float(rng.randint(100, 900))
        return r, m
    x = safe(project)
    if isexc(x):
        w.ev("foreseen", h=h, h2=h, sel=sel, out=x)
        return
    r, m = x
    u = safe(lambda: build_of(rng, o1, d1, m, names, rng.choice(["cum", "grid"])))
    if isexc(u):
        w.ev("foreseen", h=h, h2=h, sel=sel, out=u)
        return
    g = 20
    start_tri(w, g, u)

    def go():
        q = u.base_cl(sel=sel)
        return {"ldfs1": nums(r.ldfs.values), "ldfs2": nums(q.ldfs.values), "ult1": nums(r.ultimate.values), "ult2": nums(q.ultimate.values)}
    # amounts read back from cumulative records may differ in the last place
    v, z = t.to_numpy(dtype=float), u.to_numpy(dtype=float)
    if all(v[i][j] == z[i][j] for i in range(n) for j in range(n - i)):
        w.ev("foreseen", h=h, h2=g, sel=sel, out=safe(go))


def line(o):
    return list(o) + [o[-1] + (o[-1] - o[-2])]


def C27(w, rng, k, tier):
    n = bigger(rng, rng.choice([3, 4, 5, 6, 7]))
    N = n + rng.choice([1, 1, 2])
    o, d = labels(rng, N, "o"), labels(rng, N, "d")
    m = cum_matrix(rng, N, style=rng.choice(["int", "dyadic", "int"]), neg=rng.choice([0, .1, .3]))
    names = rng.choice(NAMES)
    ts = {}
    for h, c in enumerate(range(n, N + 1)):
        how = rng.choice(["incr", "cum", "grid"])
        t = safe(lambda: build_of(rng, o[:c], d[:c], cut(m, c), names, how))
        if isexc(t):
            w.ev("unreadable", what="construction raised " + t["exc"])
            return
        start_tri(w, h + 1, t)
        ts[h + 1] = t
        if rng.random() < .3:
            exclude(w, rng, h + 1, t, o[:c], d[:c], c, 1, keep_one=True)
    for h in range(1, N - n + 1):
        extends(w, h, h + 1, ts[h], ts[h + 1])
    t = ts[1]
    if (np.asarray(t.a2aind, dtype=float).sum() == n * (n - 1) / 2) and (t.a2a.stack() > 0).all():
        foreseen(w, rng, 1, t, o[:n], d[:n], n, names, o[:n + 1], d[:n + 1])
    for h, t in ts.items():
        w.ev("same", h=h, why="valuations", src=safe(lambda: tri(t, True)))


# ------------------------------------------------- histories of MCGrow, replayed
FIRSTS = [64, 192, 128, 320, 64, 256]


def C27_model(w, rng, item, tier):
    vals = item["vals"]
    N = len(vals) + 1
    o, d = labels(rng, N, "o"), labels(rng, N, "d")
    names = rng.choice(NAMES)
    rows = [[float(FIRSTS[0]) * 1024]]
    ts = {}
    for v in vals:
        c = len(rows)
        if v["kind"] == "free":
            new = [rows[i][-1] * v["r"][i][0] / v["r"][i][1] for i in range(c)]
        else:
            t = ts[c]
            x = safe(lambda: pd.DataFrame(t.base_cl(sel="all-" + v["kind"]).trisqrd).to_numpy(dtype=float))
            if isexc(x):
                w.ev("unreadable", what="projection raised " + x["exc"])
                return
            new = [float(x[i][c - i]) for i in range(c)]
        rows = [r + [z] for r, z in zip(rows, new)] + [[float(FIRSTS[c]) * 1024]]
        c += 1
        m = [r + [NAN] * (c - len(r)) for r in rows]
        t = safe(lambda: build_of(rng, o[:c], d[:c], m, names, "cum" if v["kind"] != "free" else rng.choice(["incr", "cum", "grid"])))
        if isexc(t):
            w.ev("unreadable", what="construction raised " + t["exc"])
            return
        ts[c] = t
        start_tri(w, c, t)
        if c - 1 in ts:
            a = ts[c - 1].to_numpy(dtype=float)
            z = t.to_numpy(dtype=float)
            exact = all(a[i][j] == z[i][j] for i in range(c - 1) for j in range(c - 1 - i))
            if exact:
                if c > 3:
                    extends(w, c - 1, c, ts[c - 1], t)
                if v["kind"] != "free":
                    s = "all-" + v["kind"]

                    def go():
                        r, q = ts[c - 1].base_cl(sel=s), t.base_cl(sel=s)
                        return {"ldfs1": nums(r.ldfs.values), "ldfs2": nums(q.ldfs.values), "ult1": nums(r.ultimate.values), "ult2": nums(q.ultimate.values)}
                    w.ev("foreseen", h=c - 1, h2=c, sel=s, out=safe(go))


def C26_model(w, rng, item, tier):
    vals = item["vals"]
    if any(v["kind"] != "free" for v in vals):
        return
    N = len(vals) + 1
    rows = [[float(FIRSTS[0]) * 1024]]
    for v in vals:
        c = len(rows)
        rows = [r + [r[-1] * v["r"][i][0] / v["r"][i][1]] for i, r in enumerate(rows)] + [[float(FIRSTS[c]) * 1024]]
    m = [r + [NAN] * (N - len(r)) for r in rows]
    t, o, d = mktri(w, 1, rng, N, m)
    if t is None or not calm(t):
        return
    agree(w, rng, 1, t, N, fit_ok(t) and not uniform(t))


def C25_model(w, rng, item, tier):
    from d_model import grown
    t, o, d, n = grown(w, rng, item)
    if t is None:
        return
    print_tri(w, 1, t)
    for i, j in item["ex"]:
        setind(w, 1, t, o[i - 1], d[j - 1], 0)
    print_sum(w, "base", lambda: t.base_cl(tail=rng.choice([1.0, 1.1])))
    if calm(t):
        print_sum(w, "mack", lambda: t.mack_cl(q=rng.choice(PQ)))
