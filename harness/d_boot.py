"""Drivers: bootstrap chain ladder (C15, C16, C17, C24)."""
import numpy as np
import pandas as pd
from numpy.random import RandomState
from rec import *
from gen import *
from d_dev import mktri, exclude, est_matrix, attr, qlist, QSETS, MATTR

INTERP = ("linear", "lower", "higher", "midpoint", "nearest")
SIMCOLS = ("incr", "incr_sqrt", "resid", "samp_incr", "samp_cum", "ldf", "var", "sign", "param1", "param2",
           "final_incr", "ultimate", "latest", "reserve")


def fit_ok(t):
    """Residuals worth resampling: several non-zero ones, fitted increments
    clearly non-zero or exactly zero, and no forecast near zero."""
    try:
        v, w = t.to_numpy(dtype=float), t.a2aind.to_numpy(dtype=float)
        n = v.shape[0]
        f = [sum(v[i][j + 1] * w[i][j] for i in range(n - 1 - j)) / sum(v[i][j] * w[i][j] for i in range(n - 1 - j)) for j in range(n - 1)]
        k = 0
        for i in range(n):
            m = n - 1 - i
            row = [0.0] * (m + 1)
            row[m] = v[i][m]
            for j in range(m - 1, -1, -1):
                row[j] = row[j + 1] / f[j]
            for j in range(m + 1):
                inc = row[j] - (row[j - 1] if j else 0.0)
                obs = v[i][j] - (v[i][j - 1] if j else 0.0)
                if abs(inc) < 1e-5 * abs(row[m]):
                    return False
                r = (obs - inc) / abs(inc) ** .5
                if i < n - 1 and j < n - 1 and abs(r) > 1e-7 * abs(row[m]) ** .5:
                    k += 1
        return k >= 4
    except (ZeroDivisionError, TypeError, ValueError):
        return False


def slowed(rng, n, m):
    """From some period on the amounts hardly develop."""
    c, u = rng.randint(1, n - 1), rng.choice([.05, .01, .001])
    return [r[:c] + [r[c - 1] + u * (x - r[c - 1]) for x in r[c:]] for r in m]


def boot_tri(w, h, rng, lo=3, hi=7, excl=.3, neg=None, slow=0, big=.03):
    n = bigger(rng, rng.choice(list(range(lo, hi + 1))), big)
    m = cum_matrix(rng, n, neg=rng.choice([0, .05, .25]) if neg is None else neg)
    if rng.random() < slow:
        m = slowed(rng, n, m)
    t, o, d = mktri(w, h, rng, n, m)
    if t is None:
        return None, n
    if rng.random() < excl:
        exclude(w, rng, h, t, o, d, n, rng.choice([1, 2]), keep_one=True)
    return t, n


def fit_out(r):
    return {"ldfs": series(r.ldfs), "fit_cum": frame(r.fitted_tri_cum), "fit_incr": frame(r.fitted_tri_incr),
            "unscaled": frame(r.unscaled_residuals), "adjusted": frame(r.adjusted_residuals),
            "sampling_dist": [] if r.sampling_dist is None else nums(r.sampling_dist),
            "has_dist": r.sampling_dist is not None, "scale_param": num(r.scale_param), "dof": num(r.dof),
            "summary": summary(r.summary, [c for c in r.summary.columns if c in SUMM])}


def detail_out(r):
    x = r.residuals_detail
    return {"detail": {c: {str(i): num(x.loc[i, c]) for i in x.index} for c in x.columns},
            "unscaled": frame(r.unscaled_residuals), "adjusted": frame(r.adjusted_residuals)}


def seed_of(rng):
    return rng.choice([rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 6), 0, None])


def C15(w, rng, k, tier):
    t, n = boot_tri(w, 1, rng, 3, 8)
    if t is None or not fit_ok(t):
        return
    for _ in range(rng.randint(1, 2)):
        par = rng.random() < .4
        r = safe(lambda: t.boot_cl(sims=rng.randint(2, 4), parametric=par, random_state=seed_of(rng)))
        if isexc(r):
            w.ev("fit", h=1, parametric=par, out=r)
            return
        w.ev("fit", h=1, parametric=par, out=safe(lambda: fit_out(r)))
        if not par:
            w.ev("detail", h=1, out=safe(lambda: detail_out(r)))
        if rng.random() < .3:
            t_i = rng.randrange(n - 1)
            exclude(w, rng, 1, t, list(t.index), list(t.columns), n, 1, keep_one=True)


# ------------------------------------------------------------------ simulations
def sims_out(r, n, sims):
    df = r.sims_data
    o = {lab(x): i for i, x in enumerate(r.tri.index)}
    d = {lab(x): j for j, x in enumerate(r.tri.columns)}
    out = []
    for s in range(sims):
        q = {c: [["nan"] * n for _ in range(n)] for c in SIMCOLS if c in df.columns}
        q["rectype"] = [[""] * n for _ in range(n)]
        seen = set()
        sub = df[df["sim"] == s]
        for rec in sub.to_dict("records"):
            i, j = o.get(lab(rec["origin"])), d.get(lab(rec["dev"]))
            if i is None or j is None:
                seen.add(None)
                continue
            seen.add((i, j))
            for c in q:
                q[c][i][j] = str(rec[c]) if c == "rectype" else num(rec[c])
        q["ok"] = len(sub) == n * n and len(seen) == n * n and None not in seen
        out.append(q)
    complete = sorted(df["sim"].unique().tolist()) == list(range(sims))
    return out, complete, len(df)


def dist_out(df, idx, sims, total=True):
    out = {c: [] for c in ("ultimate", "reserve", "latest")}
    for i in idx:
        sub = df[df["origin"] == i]
        ok = sorted(sub["sim"].tolist()) == list(range(sims))
        sub = sub.sort_values("sim")
        for c in out:
            out[c].append(nums(sub[c].values) if ok else [])
    return out


def C16(w, rng, k, tier):
    t, n = boot_tri(w, 1, rng, 3, 6, neg=rng.choice([0, .1, .3]))
    if t is None or not fit_ok(t):
        return
    for _ in range(rng.randint(1, 2)):
        par = rng.random() < .3
        sims = 120 if n <= 4 and rng.random() < .03 else rng.choice([1, 1, 2, 3])
        seed = rng.choice([rng.randint(0, 10 ** 6), RandomState(rng.randint(0, 10 ** 6)), None])

        def go():
            r = t.boot_cl(sims=sims, parametric=par, random_state=seed)
            s, complete, nrows = sims_out(r, n, sims)
            return {"fit_incr": frame(r.fitted_tri_incr)["v"] and {"v": mat(r.fitted_tri_incr)},
                    "sampling_dist": [] if par else nums(r.sampling_dist),
                    "scale_param": num(r.scale_param), "nrows": nrows, "complete": complete, "sims": s,
                    "reserve_dist": dist_out(r.reserve_dist, list(t.index), sims)}
        w.ev("sims", h=1, sims=sims, parametric=par, out=safe(go))


# ------------------------------------------------------------------ summary
BQ = [.75, .95, [.75, .95], [.5], [.9, .75, .995], [.05, .95], [.75, .75], [.11, .12, .13], [.25, .5, .75], [0, 1], [1], [0.0],
      [.1, .2, .3, .4], [.999], [.333], (.6, .4), [.01, .02, .03], .5, 0, 1, [.925], [.8125]]


def C17(w, rng, k, tier):
    t, n = boot_tri(w, 1, rng, 3, 6)
    if t is None or not fit_ok(t):
        return
    par, two = rng.random() < .25, rng.random() < .4
    sims = rng.choice([1, 2, 3, 4, 5, 9, 11, 20, 21]) if rng.random() < .97 else 1050
    q, ip = rng.choice(BQ), rng.choice(INTERP)
    kw = {"sims": sims, "parametric": par, "two_sided": two, "q": q, "interpolation": ip, "random_state": seed_of(rng)}
    if ip == "linear" and rng.random() < .5:
        del kw["interpolation"]
    if q == [.75, .95] and rng.random() < .5:
        del kw["q"]
    box = {}
    idx = list(t.index) + ["total"]

    def go():
        r = box["r"] = t.boot_cl(**kw)
        return {"summary": summary(r.summary, [c for c in r.summary.columns if c in SUMM]),
                "reserve_dist": dist_out(r.reserve_dist, idx, sims), "origin_dist": dist_out(r.origin_dist, idx, sims),
                "ldfs": series(r.ldfs), "mse": nums(r.mse.values), "qtl": qtable(r.summary),
                "args": {"sims": r.sims, "parametric": r.parametric, "interpolation": r.interpolation, "procdist": r.procdist},
                "attrs": {a: attr(getattr(r, a), a) for a in MATTR}}
    w.ev("bootsumm", h=1, q=qlist(q), two=two, interp=ip, procdist="gamma", sims=sims, parametric=par, out=safe(go))
    r = box.get("r")
    if r is None:
        return
    for _ in range(rng.randint(1, 3)):
        q, ip = rng.choice(BQ), rng.choice(INTERP)
        lb = rng.choice([None, None, 0, 0.0, 100.0, float(np.median(r.reserve_dist["reserve"].values)), -50.0])
        kw = {"interpolation": ip}
        if ip == "linear" and rng.random() < .5:
            kw = {}
        if lb is not None:
            kw["lb"] = lb

        def get():
            x = r.get_quantiles(np.array(q) if isinstance(q, list) and rng.random() < .3 else q, **kw)
            return {"qtl": qtable(x), "idx": [str(i) for i in x.index], "reserve": dist_out(r.reserve_dist, idx, sims)["reserve"]}
        w.ev("bootget", h=1, q=qlist(q), interp=ip, lb="nan" if lb is None else num(lb), out=safe(get))
    if rng.random() < .2:
        q = rng.choice([1.5, [-.1], [.5, 1.0001], [2, .5], -1])
        where = rng.choice(["bootget", "boot", "boot2"])
        x = safe(lambda: r.get_quantiles(q) if where == "bootget" else t.boot_cl(sims=3, q=q, two_sided=where == "boot2"))
        w.ev("request", h=1, req={"what": "levels", "q": qlist(q)}, call=where, raised=isexc(x))


# ------------------------------------------------------------------ laws
def worst_product(x, least):
    """The largest standardised sum of products of x with itself shifted by
    every lag, forwards and mirrored; x is centred and bounded, nan where
    there is no draw.  Lags with fewer than `least` products are left out."""
    m = np.isfinite(x)
    c = np.where(m, x, 0.0)
    N = len(x)
    K = 1 << (2 * N - 1).bit_length()
    f, g = np.fft.rfft(c, K), np.fft.rfft(m.astype(float), K)
    out = [0.0]
    for shift in (True, False):
        a = np.fft.irfft(f * (f.conj() if shift else f), K)
        k = np.rint(np.fft.irfft(g * (g.conj() if shift else g), K))
        if shift:
            a, k = a[1:N], k[1:N]
        else:                                   # every pair counted twice, and the middle with itself
            a, k = a[:2 * N - 1].copy(), k[:2 * N - 1].copy()
            a[::2] -= c ** 2
            k[::2] -= m
            a, k = a / 2, k / 2
        ok = k >= least
        if ok.any():
            out.append(float(np.max(np.abs(a[ok]) / np.sqrt(k[ok]))))
    return max(out)


def bounded(x, mu, sd, pool=None):
    """x standardised and cut at two standard deviations, centred and scaled
    by the law it should follow (pool: its values; None: normal)."""
    cut = lambda y: np.clip((y - mu) / sd, -2, 2)
    if pool is not None:
        z = cut(pool)
        return (cut(x) - z.mean()) / z.std()
    return cut(x) / 0.95944616                  # E[clip(Z, -2, 2)^2] ** .5


def C24(w, rng, k, tier):
    t, n = boot_tri(w, 1, rng, 3, 6, excl=0, neg=0, slow=.3, big=0)
    if t is None or not fit_ok(t):
        return
    par = k % 3 == 2
    cells = n * (n + 1) // 2
    sims = max(60, (6000 if tier == "quick" else 60000) // cells)
    if k % 6 in (1, 2) and n < 5:
        sims = max(sims, 1200)
    seed = rng.choice([rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 6), RandomState(rng.randint(0, 10 ** 6)), None])
    r = safe(lambda: t.boot_cl(sims=sims, parametric=par, random_state=seed))
    ref = r if not par else safe(lambda: t.boot_cl(sims=1, random_state=0))
    if isexc(r) or isexc(ref):
        w.ev("law", what="flag", ok=False, why="raised")
        return
    df = r.sims_data
    act = df[df["rectype"] == "actual"]
    x = act["resid"].to_numpy(dtype=float)
    dist = np.asarray(ref.sampling_dist, dtype=float)
    N = len(x)
    w.ev("law", what="flag", why="every_cell_drawn", ok=bool(N == sims * cells and np.all(np.isfinite(x))))

    def moment(why, got, want, se):
        w.ev("law", what="moment", why=why, got=num(got), want=num(want), se=num(se))

    # residuals in the order of simulation, origin, period
    if not par:
        vals, wt = np.unique(dist, return_counts=True)
        w.ev("law", what="counts", why="resample.frequency", counts=nums([float(np.sum(x == v)) for v in vals]), weights=nums(wt))
        # by cell: frequencies conditional on the cell stay the same
        for (i, j) in rng.sample([(i, j) for i in range(n) for j in range(n - i)], 2):
            z = act[(act["origin"] == t.index[i]) & (act["dev"] == t.columns[j])]["resid"].to_numpy(dtype=float)
            if len(z) >= 20 * len(vals):
                w.ev("law", what="counts", why="resample.cell", counts=nums([float(np.sum(z == v)) for v in vals]), weights=nums(wt))
        mu, s2 = dist.mean(), dist.var()
        m4 = ((dist - mu) ** 4).mean()
    else:
        mu, s2 = 0.0, dist.var(ddof=1)
        m4 = 3 * s2 ** 2
        from math import erf, sqrt
        sd = sqrt(s2)
        edges = [-1.5, -.75, 0, .75, 1.5]
        ph = [0.0] + [.5 * (1 + erf(e / sqrt(2))) for e in edges] + [1.0]
        wts = [round((b - a) * 10 ** 9) for a, b in zip(ph, ph[1:])]
        cnt = np.histogram(x / sd, bins=[-np.inf] + edges + [np.inf])[0]
        w.ev("law", what="counts", why="parametric.law", counts=nums(cnt), weights=nums(wts))
        w.ev("law", what="flag", why="parametric.continuous", ok=bool(len(np.unique(x)) == N))
    moment("residual.mean", x.mean(), mu, (s2 / N) ** .5)
    moment("residual.variance", ((x - mu) ** 2).mean(), s2, max((m4 - s2 ** 2) / N, 1e-18 * s2 ** 2) ** .5)
    # independence: products of residuals of different cells and simulations
    q = act.sort_values(["sim", "origin", "dev"])["resid"].to_numpy(dtype=float).reshape(sims, -1) if N == sims * cells else None
    if q is not None:
        c = q - mu
        for why, a, b in (("cells", c[:, :-1], c[:, 1:]), ("sims", c[:-1], c[1:]), ("cells2", c[:, :-2], c[:, 2:]),
                          ("ends", c[:, :1], c[:, -1:])):
            p = (a * b).ravel()
            moment("residual.independent." + why, p.mean(), 0.0, s2 / len(p) ** .5)
        # every pair of draws the same distance apart, in either order of the cells
        for by in (["sim", "origin", "dev"], ["sim", "dev", "origin"]):
            z = df.sort_values(by)
            z = np.where(z["rectype"].values == "actual", z["resid"].to_numpy(dtype=float), np.nan)
            z = bounded(z, mu, s2 ** .5, None if par else dist)
            w.ev("law", what="worst", why="residual.apart." + by[1], got=num(worst_product(z, max(2500, N // 8))))
        if par or len(np.unique(dist)) ** cells > 1e8 * sims ** 2:     # a coincidence is out of the question
            w.ev("law", what="flag", why="sims_differ", ok=bool(len(np.unique(q, axis=0)) == sims))
    # process draws: z = (draw - mean) / sd has mean 0, variance 1
    fc = df[df["rectype"] == "forecast"]
    m = np.abs(fc["samp_incr"].to_numpy(dtype=float))
    g = np.abs(fc["final_incr"].to_numpy(dtype=float))
    phi = float(r.scale_param)
    from scipy.stats import gamma
    ok = m > phi
    few = ~ok & (m > 0)                       # small means: seldom anything but next to nothing
    for c in (.01, .3, 1.5):
        p = gamma.sf(c, m[few] / phi)
        if p.sum() >= 150:
            moment("process.small.exceed", np.mean(g[few] > c * phi), p.mean(), (p * (1 - p)).sum() ** .5 / len(p))
    if few.sum() >= 1000 and m[few].sum() >= 400 * phi:
        moment("process.small.mean", g[few].mean() / phi, m[few].mean() / phi, (m[few].sum() / phi) ** .5 / few.sum())
    m, g = m[ok], g[ok]
    if len(m) >= 1000:
        z = (g - m) / np.sqrt(m * phi)
        ex = 6 * phi / m                      # excess kurtosis of the gamma law
        moment("process.mean", z.mean(), 0.0, 1 / len(z) ** .5)
        moment("process.variance", (z ** 2).mean(), 1.0, ((2 + ex).mean() / len(z)) ** .5)
        u = gamma.cdf(g, m / phi, scale=phi)
        w.ev("law", what="counts", why="process.law", counts=nums(np.histogram(u, bins=np.linspace(0, 1, 11))[0]), weights=["1"] * 10)
        for by in (["sim", "origin", "dev"], ["sim", "dev", "origin"]):
            zz = df.sort_values(by)
            mm, gg = np.abs(zz["samp_incr"].to_numpy(dtype=float)), np.abs(zz["final_incr"].to_numpy(dtype=float))
            uu = np.where((zz["rectype"].values == "forecast") & (mm > phi), gamma.cdf(gg, mm / phi, scale=phi), np.nan)
            w.ev("law", what="worst", why="process.apart." + by[1], got=num(worst_product((uu - .5) * 12 ** .5, max(2500, len(m) // 8))))
        # by cell: process draws are independent between forecast cells
        q = z.reshape(sims, -1) if len(z) == sims * (n * n - cells) else None
        if q is not None and q.shape[1] >= 2:
            p = (q[:, :-1] * q[:, 1:]).ravel()
            moment("process.independent", p.mean(), 0.0, 1 / len(p) ** .5)
            p = (q[:-1] * q[1:]).ravel()
            moment("process.independent.sims", p.mean(), 0.0, 1 / len(p) ** .5)
