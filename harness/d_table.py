"""Drivers: a triangle is an ordinary table (C28)."""
import pandas as pd
from rec import *
from gen import *
from d_tri import start_tri
from d_dev import mktri, est_matrix, cum_matrix, calm


def spell(df):
    """A table, column or figure as a frame with textual labels."""
    istab = isinstance(df, (pd.DataFrame, pd.Series)) or np.isscalar(df)
    if np.isscalar(df):
        df = pd.DataFrame([[df]], index=[""], columns=[""])
    elif isinstance(df, pd.Series):
        df = pd.DataFrame({"": df})
    return {"o": [str(i) for i in df.index], "d": [str(c) for c in df.columns], "v": mat(df),
            "table": bool(istab), "numeric": bool(all(t.kind in "fiub" for t in df.dtypes))}


def joined(a, b):
    return list(a) + [x for x in b if x not in list(a)]


def perform(t, q, g):
    """The table operation q on table t (g: the other table)."""
    k = q["k"]
    if k == "copy":
        return t.copy()
    if k == "iloc":
        return t.iloc[q["r0"]:q["r1"], q["c0"]:q["c1"]]
    if k == "loc":
        return t.loc[q["_o"], q["_d"]]
    if k == "locrange":
        return t.loc[q["_o"][0]:q["_o"][1], q["_d"][0]:q["_d"][1]]
    if k == "column":
        return t[q["_d"][0]]
    if k == "row":
        return t.loc[q["_o"][0]]
    if k == "T":
        return t.T
    if k == "fillna":
        return t.fillna(float(q["x"]))
    if k == "mul":
        return t * float(q["x"])
    if k == "div":
        return t / float(q["x"])
    if k == "add":
        return t + float(q["x"])
    if k == "where":
        return t.where(t > float(q["x"]))
    if k == "isna":
        return t.isna().astype(int)
    if k == "ffill":
        return t.ffill(axis=1)
    if k == "diff":
        return t.diff(axis=1)
    if k == "cumsum":
        return t.cumsum(axis=1)
    if k == "shift":
        return t.shift(1, axis=1)
    if k == "latest_first":
        return t.iloc[::-1]
    if k == "dropna":
        return t.dropna(axis=1)
    if k in ("minus", "ratio"):
        r = t - g if k == "minus" else t / g
        return r.reindex(index=joined(t.index, g.index), columns=joined(t.columns, g.columns))
    if k == "sumrows":
        return t.sum(axis=1)
    if k == "sumcols":
        return t.sum()
    if k == "maxrows":
        return t.max(axis=1)
    if k == "countcols":
        return t.count()
    if k == "total":
        return t.sum().sum()


def public(prog):
    return [{k: v for k, v in q.items() if not k.startswith("_")} for q in prog]


def program(w, h, t, prog, what="triangle", src=None, g=None, h2=0):
    """Run a program on the triangle t (or the table src) and record it."""
    base = {}
    if src is not None:
        base = {"base": spell(src)}

    def go():
        x = t if src is None else src
        for q in prog:
            x = perform(x, q, g)
        r = spell(x)
        if isinstance(x, (pd.DataFrame, pd.Series)) and x.size and src is None and prog:
            y = x.copy()                       # scribble on the answer
            if isinstance(y, pd.DataFrame):
                y.iloc[0, 0] = -77
                y.iloc[-1, :] = -78
            else:
                y.iloc[0] = -77
        return r
    w.ev("tableop", h=h, what=what, prog=public(prog), h2=h2, out=safe(go), src=safe(lambda: tri(t, True)), **base)


def random_prog(rng, t, partner, depth):
    n, m = t.shape
    L, prog, o, d = list, [], list(t.index), list(t.columns)
    top = float(t.max().max())
    for q in range(depth):
        if not o or not d:
            break
        ks = ["copy", "iloc", "loc", "locrange", "T", "fillna", "mul", "div", "add", "isna", "ffill", "diff", "cumsum",
              "shift", "latest_first"]
        if q == 0:
            ks += ["where", "where", "dropna"]
        if partner and not any(p["k"] in ("T", "minus") for p in prog):
            ks += ["minus"] * 4
        k = rng.choice(ks)
        op = {"k": k}
        if k == "iloc":
            r0, c0 = rng.randrange(len(o)), rng.randrange(len(d))
            op.update(r0=r0, r1=rng.randint(r0 + 1, len(o) + 1), c0=c0, c1=rng.randint(c0 + 1, len(d) + 1))
            o, d = o[r0:op["r1"]], d[c0:op["c1"]]
        elif k == "loc":
            o, d = rng.sample(o, rng.randint(1, len(o))), rng.sample(d, rng.randint(1, len(d)))
            op.update(_o=L(o), _d=L(d))
        elif k == "locrange":
            i, j = sorted([rng.randrange(len(o)), rng.randrange(len(o))])
            a, b = sorted([rng.randrange(len(d)), rng.randrange(len(d))])
            op.update(_o=[o[i], o[j]], _d=[d[a], d[b]])
            o, d = o[i:j + 1], d[a:b + 1]
        elif k == "T":
            o, d = d, o
        elif k == "latest_first":
            o = o[::-1]
        elif k == "dropna":
            d = [c for c in d if t.loc[o, c].notna().all()]
        elif k in ("fillna", "add"):
            op["x"] = num(rng.choice([0.0, 1.0, round(top / 3), -5.0]))
        elif k in ("mul", "div"):
            op["x"] = num(rng.choice([2.0, 1000.0, .5, 1.07, -1.0]))
        elif k == "where":
            op["x"] = num(round(top * rng.random(), 3) + .000123)
        elif k == "minus":
            o, d = joined(o, partner.index), joined(d, partner.columns)
        if "_o" in op:
            op.update(o=[str(x) for x in op["_o"]], d=[str(x) for x in op["_d"]])
        prog.append(op)
    if o and d and rng.random() < .75:
        k = rng.choice(["sumrows", "sumcols", "maxrows", "countcols", "total", "column", "row"] +
                       (["ratio"] * 2 if partner is not None and not any(p["k"] == "T" for p in prog) else []))
        op = {"k": k}
        if k == "column":
            op.update(_d=[rng.choice(d)])
            op.update(d=[str(op["_d"][0])])
        if k == "row":
            op.update(_o=[rng.choice(o)])
            op.update(o=[str(op["_o"][0])])
        prog.append(op)
    return prog


class Labelled:
    """Labels of the partner triangle, for the generator."""
    def __init__(self, t):
        self.index, self.columns = list(t.index), list(t.columns)


def corner(w, rng, h, t, n):
    from trikit import totri
    k = rng.randint(2, n)
    kd = kind(t)

    def go():
        x = t.iloc[n - k:, :k]
        return tri(totri(x, tri_type=kd, data_format=kd, data_shape="triangle"))
    w.ev("corner", h=h, k=k, out=safe(go))


def C28(w, rng, i, tier):
    n = bigger(rng, rng.choice([3, 4, 4, 5, 6, 8]), .02)
    full = est_matrix(rng, n)
    t, o, d = mktri(w, 1, rng, n, full)
    if t is None:
        return
    hs = {1: t}
    k = rng.randint(2, n)
    early = [[x if j < k - r else NAN for j, x in enumerate(full[r][:k])] for r in range(k)]
    e, _, _ = mktri(w, 2, rng, k, early, o=o[:k], d=d[:k])
    if e is not None:
        hs[2] = e
    c = safe(lambda: t.to_incr())
    if not isexc(c):
        start_tri(w, 3, c)
        hs[3] = c
    used = []
    for q in range(4 if tier == "quick" else 7):
        r = rng.random()
        h = rng.choice(list(hs))
        x = hs[h]
        if r < .6:
            h2 = rng.choice([0, 0] + [z for z in hs if z != h])
            g = hs.get(h2)
            program(w, h, x, random_prog(rng, x, Labelled(g) if g is not None else None, rng.randint(0, 3)), g=g, h2=h2)
        elif r < .7 and h != 3:
            corner(w, rng, h, x, len(x.index))
        else:                                   # the tables of estimates
            if h == 3 or not calm(x) or len(x.index) < 4:
                continue
            tables(w, rng, h, x)
    for h, x in hs.items():
        w.ev("same", h=h, why="table", src=safe(lambda: tri(x, True)))


def tables(w, rng, h, x):
    which = rng.choice(["a2a", "a2a", "base_square", "base_summary", "mack_square", "mack_summary", "boot_square", "boot_summary"])

    def get():
        if which == "a2a":
            return x.a2a
        m, part = which.split("_")
        r = {"base": lambda: x.base_cl(sel=rng.choice(["all-weighted", "simple-2"]) if len(x.index) > 3 else "all-weighted"),
             "mack": lambda: x.mack_cl(),
             "boot": lambda: x.boot_cl(sims=3, random_state=rng.randint(0, 9))}[m]()
        return r.trisqrd if part == "square" else r.summary.drop(columns="maturity")
    src = safe(get)
    if isexc(src):
        w.ev("tableop", h=h, what=which, prog=[], h2=0, out=src, src=safe(lambda: tri(x, True)))
        return
    o, d = list(src.index), list(src.columns)
    a, b = rng.choice(o), rng.choice(d)
    prog = rng.choice([
        [{"k": "sumcols"}], [{"k": "sumrows"}], [{"k": "total"}], [{"k": "maxrows"}], [{"k": "T"}, {"k": "sumcols"}],
        [{"k": "column", "_d": [b], "d": [str(b)]}], [{"k": "row", "_o": [a], "o": [str(a)]}],
        [{"k": "loc", "_o": [a], "_d": [b], "o": [str(a)], "d": [str(b)]}],
        [{"k": "mul", "x": "2.0"}, {"k": "total"}], [{"k": "cumsum"}], [{"k": "countcols"}]])
    program(w, h, x, prog, what=which, src=src)
    if which == "a2a":                          # scribble on the answer, and ask again
        was = spell(src)

        def again():
            src.iloc[0, 0] = -77.0
            src.iloc[:, -1] = 5.0
            return spell(x.a2a)
        w.ev("tableop", h=h, what="a2a_again", prog=[], h2=0, out=safe(again), src=safe(lambda: tri(x, True)), base=was)


def C28_model(w, rng, item, tier):
    def table_of(R):
        n = len(R)
        m = [[float(R[i][j]) if j < len(R[i]) else NAN for j in range(n)] for i in range(n)]
        return [2001 + i for i in range(n)], [1 + j for j in range(n)], m
    ts = {}
    for h, R in ((1, item["f"]), (2, item["g"])):
        o, d, m = table_of(R)
        t, _, _ = mktri(w, h, rng, len(R), m, o=o, d=d)
        if t is None:
            return
        ts[h] = t
    program(w, 1, ts[1], item["prog"], g=ts[2], h2=2)
