"""Drivers: averages, base chain ladder, Mack, tests (C07-C14)."""
import numpy as np
import pandas as pd
from rec import *
from gen import *
from d_tri import start_tri, ranks_out, same_df

METHODS = ("simple", "geometric", "medial", "weighted")


def avg_names(n):
    m = n - 1
    return [("all-" + t) if k == m else "%s-%d" % (t, k) for t in METHODS for k in range(1, m + 1)]


def tie_matrix(rng, n):
    """Staircase with many identical link ratios (medial and test ties)."""
    fs = rng.choice([[2.0, 1.5], [1.5, 1.25, 2.0], [1.0, 2.0], [1.5]])
    rows = []
    for i in range(n):
        row = [float(rng.choice([64, 128, 256, 512, 1024]) * 4 ** n)]
        for j in range(n - 1 - i):
            row.append(row[-1] * rng.choice(fs))
        rows.append(row + [NAN] * i)
    return rows


def mktri(w, h, rng, n, matrix=None, names=None, o=None, d=None):
    o = o or labels(rng, n, "o")
    d = d or labels(rng, n, "d")
    m = matrix or (tie_matrix(rng, n) if rng.random() < .25 else est_matrix(rng, n) if n > 2 else cum_matrix(rng, n))
    t = safe(lambda: cumtri(o, d, m, names or rng.choice(NAMES)))
    if isexc(t):
        w.ev("tri", h=h, out=t)
        w.ev("unreadable", what="construction raised %s" % t["exc"])
        return None, o, d
    start_tri(w, h, t)
    return t, o, d


def setind(w, h, t, o, d, x, how="tuple"):
    def go():
        t.a2aind
        if how == "tuple":
            t.a2aind = (o, d, x)
        else:
            t.a2aind.at[o, d] = x
        return {}
    r = safe(go)
    if isexc(r):
        w.ev("unreadable", what="setting a2aind raised " + r["exc"])
        return False
    w.ev("setind", h=h, o=lab(o), d=lab(d), x=x)
    return True


def exclude(w, rng, h, t, o, d, n, k, keep_one=False):
    """Switch k ratios; with keep_one each period keeps an included ratio."""
    for _ in range(k):
        i = rng.randrange(n - 1)
        j = rng.randrange(n - 1 - i)
        x = rng.choice([0, 0, 0, 1])
        if keep_one and x == 0:
            inc = [q for q in range(n - 1 - j) if t.a2aind.iat[q, j] == 1 and q != i]
            if not inc:
                continue
        setind(w, h, t, o[i], d[j], x, rng.choice(["tuple", "at"]))


def avgs_out(t):
    a = t.a2a_avgs()
    return {"idx": [str(x) for x in a.index], "d": labs(a.columns), "v": mat(a)}


def C07(w, rng, k, tier):
    n = pick_n(rng, 2, 8, .015)
    t, o, d = mktri(w, 1, rng, n)
    if t is None:
        return
    if rng.random() < .7:
        w.ev("avgs", h=1, out=safe(lambda: avgs_out(t)))
    for _ in range(rng.randint(1, 3)):
        exclude(w, rng, 1, t, o, d, n, rng.choice([1, 1, 2, 4, n]))
        w.ev("avgs", h=1, out=safe(lambda: avgs_out(t)))


# ------------------------------------------------------------------ base
def base_sel(rng, t, n, d):
    by = rng.choice(["name", "name", "list", "tuple", "array", "series", "ints"])
    if by == "name":
        s = rng.choice(avg_names(n))
        return s, {"by": "name", "name": s}
    v = [round(rng.uniform(.9, 2.5), rng.choice([2, 3, 5])) for _ in range(n - 1)]
    if by == "ints":
        v = [rng.randint(1, 3) for _ in v]
        return list(v), {"by": "values", "v": nums(v)}
    if by == "list":
        return list(v), {"by": "values", "v": nums(v)}
    if by == "tuple":
        return tuple(v), {"by": "values", "v": nums(v)}
    if by == "array":
        return np.array(v), {"by": "values", "v": nums(v)}
    idx = list(range(n - 1))
    if rng.random() < .6:
        rng.shuffle(idx)
    s = pd.Series([v[i] for i in idx], index=[d[i] for i in idx])
    if rng.random() < .2:
        s = s.round(0).astype(int)
    return s, {"by": "labels", "idx": labs(s.index), "v": nums(s.values)}


SATTR = (("latest", "latest"), ("ultimate", "ultimate"), ("reserve", "reserve"), ("cldfs", "cldf"),
         ("emergence", "emergence"), ("maturity", "maturity"))


def attr(s, name):
    return [str(v) for v in s] if name == "maturity" else nums(s.values)


def base_out(r, square=False):
    sel = r.sel if isinstance(r.sel, str) else nums(np.asarray(r.sel, dtype=float))
    out = {"ldfs": series(r.ldfs), "tail": num(r.tail), "sel": sel, "summary": summary(r.summary),
           "attrs": {a: attr(getattr(r, a), a) for a, _ in SATTR}, "tri": tri(r.tri, True)}
    if square:
        out["trisqrd"] = frame(r.trisqrd, True)
    return out


def TAILS(rng):
    return rng.choice([1.0, 1.0, 1.05, 1.1, 1.25, .95, 1, 2])


def base_call(w, rng, h, t, n, d, square):
    sel, es = base_sel(rng, t, n, d)
    tail = TAILS(rng)
    kw = {}
    if not (es["by"] == "name" and es["name"] == "all-weighted" and rng.random() < .5):
        kw["sel"] = sel
    if tail != 1.0 or rng.random() < .5:
        kw["tail"] = tail
    w.ev("base", h=h, sel=es, tail=num(tail), out=safe(lambda: base_out(t.base_cl(**kw), square)), src=safe(lambda: tri(t, True)))


def C08(w, rng, k, tier):
    n = pick_n(rng, 3, 9)
    t, o, d = mktri(w, 1, rng, n)
    if t is None:
        return
    if rng.random() < .5:
        exclude(w, rng, 1, t, o, d, n, rng.choice([1, 2, 3]), keep_one=True)
    for _ in range(rng.randint(1, 4)):
        base_call(w, rng, 1, t, n, d, False)
        if rng.random() < .4:
            exclude(w, rng, 1, t, o, d, n, 1, keep_one=True)


def C09(w, rng, k, tier):
    n = pick_n(rng, 3, 9)
    t, o, d = mktri(w, 1, rng, n)
    if t is None:
        return
    if rng.random() < .5:
        exclude(w, rng, 1, t, o, d, n, rng.choice([1, 2, 3]), keep_one=True)
    for _ in range(rng.randint(1, 3)):
        for _ in range(20):
            sel, es = base_sel(rng, t, n, d)
            if es["by"] != "name" or not es["name"].startswith(("medial",)) :
                break
        if es["by"] == "name":
            try:
                bad = t.a2a_avgs().loc[sel].isna().any()
            except Exception:
                bad = False
            if bad:                    # an average over no ratio: no square
                continue
        tail = TAILS(rng)
        w.ev("base", h=1, sel=es, tail=num(tail),
             out=safe(lambda: base_out(t.base_cl(sel=sel, tail=tail), True)), src=safe(lambda: tri(t, True)))
    # a triangle without residuals cannot be resampled
    if rng.random() < .5 and any(t.a2a.iloc[:, j].nunique() > 1 for j in range(n - 2)):
        def go():
            r = t.boot_cl(sims=rng.randint(2, 4), random_state=rng.randint(0, 10 ** 6))
            return {"ldfs": series(r.ldfs), "trisqrd": frame(r.trisqrd, True)}
        w.ev("bootsq", h=1, out=safe(go), src=safe(lambda: tri(t, True)))
        w.ev("same", h=1, why="bootstrap", src=safe(lambda: tri(t, True)))


# ------------------------------------------------------------------ Mack
MATTR = ("ultimate", "reserve", "latest", "std_error", "cv")


def alpha_of(rng, a2s=(2, 2, 2, 0, 1, 3, 4)):
    a2 = rng.choice(a2s)
    a = {0: rng.choice([0, 0.0]), 2: rng.choice([1, 1.0]), 4: rng.choice([2, 2.0])}.get(a2, a2 / 2)
    return a2, a


QSETS = [.75, .95, [.75, .95], [.5], [.9, .75, .995], [.05, .95], [.75, .75], [.11, .12, .13], [.01, .02, .03, .21, .22],
         [.1, .5, .9, .99], [0.005, .9999], [.999], [1 / 3], [.8125, .33333], (.6, .4), [.3], .5, [.925], [0, 1], [0.0, .5], [1]]


def qlist(q):
    return nums(list(q) if isinstance(q, (list, tuple, np.ndarray)) else [q])


def rvs_out(r):
    idx = [str(x) for x in r.rvs.index]
    return {"idx": idx, "mean": [num(x.mean()) for x in r.rvs], "std": [num(x.std()) for x in r.rvs]}


def mack_out(r, rvs=True):
    out = {"ldfs": series(r.ldfs), "devpvar": series(r.devpvar), "ldfvar": series(r.ldfvar), "alpha": num(r.alpha),
           "process_error": series(r.process_error), "parameter_error": series(r.parameter_error),
           "mse": {"v": nums(r.mse.values)}, "trisqrd": None, "summary": summary(r.summary, [c for c in r.summary.columns if c in
                                                                          SUMM]),
           "attrs": {a: attr(getattr(r, a), a) for a in MATTR}, "dist": r.dist}
    sq = r.trisqrd
    out["trisqrd"] = frame(sq.drop("ultimate", axis=1) if "ultimate" in sq.columns else sq, True)
    if rvs:
        out["rvs"] = rvs_out(r)
        out["qtl"] = qtable(r.summary)
    return out


def mack_call(w, rng, h, t, prop, a2s=(2, 2, 2, 0, 1, 3, 4)):
    a2, a = alpha_of(rng, a2s)
    dist = rng.choice(["lognorm", "norm"])
    q = rng.choice(QSETS)
    two = rng.random() < .4
    kw = {"alpha": a, "dist": dist, "q": q, "two_sided": two}
    if prop != "C12":
        if a2 == 2 and rng.random() < .5:
            del kw["alpha"]
        if rng.random() < .5:
            kw = {k_: v for k_, v in kw.items() if k_ == "alpha"}
            dist, q, two = "lognorm", [.75, .95], False
    elif dist == "lognorm" and rng.random() < .3:
        del kw["dist"]
    if q == [.75, .95] and "q" in kw and rng.random() < .5:
        del kw["q"]
    if not two and "two_sided" in kw and rng.random() < .5:
        del kw["two_sided"]
    box = {}

    def go():
        r = t.mack_cl(**kw)
        box["r"] = r
        return mack_out(r, prop == "C12")
    w.ev("mack", h=h, a2=a2, dist=dist, q=qlist(q), two=two, out=safe(go))
    return box.get("r"), dist


def calm(t, alphas=(0, .5, 1, 1.5, 2)):
    """Inside the domain where exact and floating point results can be
    compared: per period the included ratios are equal or clearly spread, and
    for every alpha each reserve is exactly zero or clearly not."""
    try:
        v, w = t.to_numpy(dtype=float), t.a2aind.to_numpy(dtype=float)
        n = v.shape[0]
        R = [[(v[i][j + 1] / v[i][j], v[i][j]) for i in range(n - 1 - j) if w[i][j] == 1] for j in range(n - 1)]
        for c in R[:-1]:
            r = sorted({x for x, _ in c})
            if len(r) > 1 and r[-1] - r[0] < 1e-4 * abs(r[-1]):
                return False
        for a in alphas:
            if any(cancels([y ** a for _, y in c]) or cancels([x * y ** a for x, y in c]) for c in R):
                return False
            f = [sum(x * y ** a for x, y in c) / sum(y ** a for _, y in c) for c in R]
            c, tot, utot = 1.0, 0.0, 0.0
            for j in range(n - 2, -1, -1):
                c *= f[j]
                y = v[n - 1 - j][j]
                same = all(x == 1.0 for q in R[j:] for x, _ in q)
                if not same and abs(c - 1) <= 1e-6 or abs(c) <= 1e-6:
                    return False
                tot += y * (c - 1)
                utot += abs(y * c)
            if tot != 0 and abs(tot) <= 1e-6 * utot:
                return False
        return True
    except ZeroDivisionError:
        return False


def cancels(x):
    """The sum is far smaller than its terms."""
    return abs(sum(x)) <= .02 * sum(map(abs, x))


def signed_matrix(rng, n):
    """Some amounts are negative: a whole origin, one cell, or the latest."""
    m = cum_matrix(rng, n, neg=rng.choice([0, .1, .3]), units=0)
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(n)
        how = rng.choice(["row", "cell", "latest", "from"])
        j = rng.randrange(n - i)
        cells = {"row": range(n), "cell": [j], "latest": [n - 1 - i], "from": range(j, n - i)}[how]
        for c in cells:
            m[i][c] = -m[i][c] if m[i][c] == m[i][c] else m[i][c]
    return m


def settled(rng, n, m):
    """Development ends early: from some period on amounts repeat."""
    c = rng.randint(1, n - 2)
    for r in m:
        for j in range(c + 1, n):
            if r[j] == r[j]:
                r[j] = r[j - 1]
    return m


def est_matrix(rng, n):
    m = cum_matrix(rng, n, neg=rng.choice([0, .1, .3]))
    return settled(rng, n, m) if rng.random() < .15 else m


def signs_of(rng, n, some):
    """A matrix and the exponents to use it with: with negative amounts only
    those for which a power of the amount exists."""
    if rng.random() < .3:
        return signed_matrix(rng, n), some
    return est_matrix(rng, n), (2, 2, 2, 0, 1, 3, 4)


def C10(w, rng, k, tier):
    n = pick_n(rng, 4, 9)
    m, a2s = signs_of(rng, n, (0, 2, 4))
    t, o, d = mktri(w, 1, rng, n, m)
    if t is None:
        return
    if rng.random() < .6:
        exclude(w, rng, 1, t, o, d, n, rng.choice([1, 2, 4]), keep_one=True)
    for _ in range(rng.randint(1, 3)):
        if calm(t, [x / 2 if x % 2 else x // 2 for x in set(a2s)]):
            mack_call(w, rng, 1, t, "C10", a2s)
        if rng.random() < .5:
            exclude(w, rng, 1, t, o, d, n, 1, keep_one=True)


def C11(w, rng, k, tier):
    n = pick_n(rng, 4, 9)
    m, a2s = signs_of(rng, n, (0, 4))
    t, o, d = mktri(w, 1, rng, n, m)
    if t is None:
        return
    if rng.random() < .5:
        exclude(w, rng, 1, t, o, d, n, rng.choice([1, 2]), keep_one=True)
    for _ in range(rng.randint(1, 3)):
        if calm(t, [x / 2 if x % 2 else x // 2 for x in set(a2s)]):
            mack_call(w, rng, 1, t, "C11", a2s)
        if rng.random() < .3:
            exclude(w, rng, 1, t, o, d, n, 1, keep_one=True)


def C12(w, rng, k, tier):
    n = pick_n(rng, 4, 7)
    t, o, d = mktri(w, 1, rng, n, cum_matrix(rng, n, neg=rng.choice([0, .1, .5])))
    if t is None:
        return
    if not calm(t):
        return
    for _ in range(rng.randint(1, 2)):
        r, dist = mack_call(w, rng, 1, t, "C12")
        if r is None:
            continue
        for _ in range(rng.randint(1, 3)):
            q = rng.choice(QSETS)

            def go():
                x = r.get_quantiles(q if rng.random() < .7 or not isinstance(q, list) else np.array(q))
                d_ = qtable(x)
                d_ = {"qtl": d_, "idx": [str(i) for i in x.index], "reserve": nums(r.summary["reserve"].values),
                      "std_error": nums(r.summary["std_error"].values)}
                return d_
            w.ev("mackget", h=1, q=qlist(q), dist=dist, out=safe(go))
        if rng.random() < .3:
            q = rng.choice([1.5, [-.1], [.5, 1.0001], [2, .5], -1])
            where = rng.choice(["get", "mack", "mack2"])
            x = safe(lambda: r.get_quantiles(q) if where == "get" else t.mack_cl(q=q, two_sided=where == "mack2"))
            w.ev("request", h=1, req={"what": "levels", "q": qlist(q)}, call=where, raised=isexc(x))


# ------------------------------------------------------------------ tests
def test_matrix(rng, n):
    r = rng.random()
    if r < .4:
        return tie_matrix(rng, n)
    return cum_matrix(rng, n, neg=rng.choice([0, .1, .3]))


def median_ok(t):
    """No ratio is nearly, but not exactly, its period's median."""
    try:
        from fractions import Fraction as F
        n = t.shape[0]
        v = t.values
        for j in range(n - 1):
            c = sorted(F(v[i][j + 1]) / F(v[i][j]) for i in range(n - 1 - j))
            m = c[len(c) // 2] if len(c) % 2 else (c[len(c) // 2 - 1] + c[len(c) // 2]) / 2
            for x in c:
                if x != m and abs(x - m) < F(1, 10 ** 4) * abs(m):
                    return False
        return True
    except Exception:
        return True


LEVELS = [.5, .5, .05, .1, .25, .75, .9, .95, .99, .01, .8, .6827, .3]


def C13(w, rng, k, tier):
    n = pick_n(rng, 4, 10)
    t, o, d = mktri(w, 1, rng, n, test_matrix(rng, n))
    if t is None:
        return
    r = safe(lambda: t.mack_cl(alpha=rng.choice([1, 0, 2])))
    for _ in range(rng.randint(1, 2)):
        if rng.random() < .5:
            exclude(w, rng, 1, t, o, d, n, 1, keep_one=True)   # must not matter
            if rng.random() < .5:
                r = safe(lambda: t.mack_cl())
        if isexc(r):
            w.ev("devpcorr", h=1, level="0.5", out=r)
            return
        w.ev("ranks", h=1, out=safe(lambda: ranks_out(t)))
        p = rng.choice(LEVELS)

        def go():
            x = r.devp_corr_test() if p == .5 and rng.random() < .5 else r.devp_corr_test(p=p)
            return {"lb": num(x[0][0]), "ub": num(x[0][1]), "stat": num(x[1])}
        w.ev("devpcorr", h=1, level=num(p), out=safe(go))


def class_out(t):
    x = t.a2a_assignment
    return frame(x)


def C14(w, rng, k, tier):
    n = pick_n(rng, 4, 10)
    t, o, d = mktri(w, 1, rng, n, test_matrix(rng, n))
    if t is None or not median_ok(t):
        return
    r = safe(lambda: t.mack_cl(alpha=rng.choice([1, 0, 2])))
    for _ in range(rng.randint(1, 2)):
        if rng.random() < .4:
            exclude(w, rng, 1, t, o, d, n, 1, keep_one=True)
        if isexc(r):
            w.ev("cy", h=1, level="0.05", out=r)
            return
        if rng.random() < .7:
            w.ev("class", h=1, out=safe(lambda: class_out(t)))
        p = rng.choice(LEVELS)

        def go():
            x = r.cy_effects_test() if p == .05 and rng.random() < .5 else r.cy_effects_test(p=p)
            return {"lb": num(x[0][0]), "ub": num(x[0][1]), "stat": num(x[1])}
        w.ev("cy", h=1, level=num(p), out=safe(go))
        if rng.random() < .4:
            w.ev("class", h=1, out=safe(lambda: class_out(t)))
