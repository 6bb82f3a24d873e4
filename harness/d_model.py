"""Replay of MCRatio's states (triangles grown ratio by ratio, with ratios
excluded one by one) into the real library: C06-C11, C13-C16."""
from rec import *
from gen import *
from d_tri import start_tri, ranks_out, indframe, C06_model as c06_recs
from d_dev import *
from d_boot import *


def grown(w, rng, item, plain=True):
    """The state's triangle (amounts are exact in binary)."""
    base, ch = item["base"], [tuple(c) for c in item["ch"]]
    n = len(base)
    rows, k = [], 0
    for i in range(n):
        r = [float(base[i])]
        for j in range(n - 1 - i):
            p, q = ch[k]
            k += 1
            r.append(r[-1] * p / q)
        rows.append(r + [NAN] * i)
    o, d = labels(rng, n, "o"), labels(rng, n, "d")
    t, o, d = mktri(w, 1, rng, n, rows, o=o, d=d)
    return t, o, d, n


def shut(w, rng, t, o, d, item):
    for i, j in item["ex"]:
        setind(w, 1, t, o[i - 1], d[j - 1], 0, rng.choice(["tuple", "at"]))


def C06_model(w, rng, item, tier):
    if "ch" not in item:
        return c06_recs(w, rng, item, tier)
    t, o, d, n = grown(w, rng, item)
    if t is None:
        return
    see = lambda: w.ev("a2aind", h=1, out=safe(lambda: indframe(t)))
    if rng.random() < .5:
        see()
    shut(w, rng, t, o, d, item)
    see()
    w.ev("a2a", h=1, out=safe(lambda: frame(t.a2a)))
    for i, j in item["ex"]:
        setind(w, 1, t, o[i - 1], d[j - 1], 1, "tuple")
        see()
    w.ev("same", h=1, why="end", src=safe(lambda: tri(t, True)))


def C07_model(w, rng, item, tier):
    t, o, d, n = grown(w, rng, item)
    if t is None:
        return
    shut(w, rng, t, o, d, item)
    w.ev("avgs", h=1, out=safe(lambda: avgs_out(t)))


def C08_model(w, rng, item, tier):
    t, o, d, n = grown(w, rng, item)
    if t is None:
        return
    shut(w, rng, t, o, d, item)
    base_call(w, rng, 1, t, n, d, False)


def C09_model(w, rng, item, tier):
    t, o, d, n = grown(w, rng, item)
    if t is None:
        return
    shut(w, rng, t, o, d, item)
    tail = TAILS(rng)
    while True:
        sel, es = base_sel(rng, t, n, d)
        if es["by"] != "name" or not es["name"].startswith("medial"):
            break
    if es["by"] == "name":        # a window that exclusions empty gives no square
        x = safe(lambda: bool(t.a2a_avgs().loc[sel].isna().any()))
        if x is True:
            return
    w.ev("base", h=1, sel=es, tail=num(tail), out=safe(lambda: base_out(t.base_cl(sel=sel, tail=tail), True)),
         src=safe(lambda: tri(t, True)))


def mack_model(prop):
    def go(w, rng, item, tier):
        t, o, d, n = grown(w, rng, item)
        if t is None:
            return
        shut(w, rng, t, o, d, item)
        if calm(t):
            mack_call(w, rng, 1, t, prop)
    return go


C10_model = mack_model("C10")
C11_model = mack_model("C11")


def C13_model(w, rng, item, tier):
    t, o, d, n = grown(w, rng, item)
    if t is None:
        return
    w.ev("ranks", h=1, out=safe(lambda: ranks_out(t)))
    p = rng.choice(LEVELS)

    def go():
        x = t.mack_cl().devp_corr_test(p=p)
        return {"lb": num(x[0][0]), "ub": num(x[0][1]), "stat": num(x[1])}
    w.ev("devpcorr", h=1, level=num(p), out=safe(go))


def C14_model(w, rng, item, tier):
    t, o, d, n = grown(w, rng, item)
    if t is None or not median_ok(t):
        return
    w.ev("class", h=1, out=safe(lambda: class_out(t)))
    p = rng.choice(LEVELS)

    def go():
        x = t.mack_cl().cy_effects_test(p=p)
        return {"lb": num(x[0][0]), "ub": num(x[0][1]), "stat": num(x[1])}
    w.ev("cy", h=1, level=num(p), out=safe(go))


def C15_model(w, rng, item, tier):
    t, o, d, n = grown(w, rng, item)
    if t is None:
        return
    shut(w, rng, t, o, d, item)
    if not fit_ok(t):
        return
    par = rng.random() < .3
    r = safe(lambda: t.boot_cl(sims=2, parametric=par, random_state=rng.randint(0, 99)))
    if isexc(r):
        w.ev("fit", h=1, parametric=par, out=r)
        return
    w.ev("fit", h=1, parametric=par, out=safe(lambda: fit_out(r)))


# ------------------------------------------------------------------ sessions
from d_misc import Sess, sess_tri
from numpy.random import RandomState


def C18_model(w, rng, item, tier):
    s = sess_tri(w, rng, 4, twin=False)
    if s is None:
        return
    t = s.tris[1]
    par = rng.random() < .3
    g = [RandomState(11), RandomState(11)]
    streams, states = {}, []
    run = lambda rs: cdigest(t.boot_cl(sims=3, parametric=par, random_state=rs))
    ind = 1
    for what, x in item["hist"]:
        if what == "draw":
            np.random.rand(3)
        elif what == "reseed":
            np.random.seed(x)
        elif what == "switch":
            setind(w, 1, t, t.index[0], t.columns[0], x)
            ind = x
        elif what == "seed":
            r = s.call(1, "boot_cl", [x, str(par)], lambda: t.boot_cl(sims=3, parametric=par, random_state=x))
            if r is not None:
                streams["seed", x, ind] = cdigest(r.reserve_dist)
        elif what == "none":
            r = s.call(1, "boot_cl", ["none"], lambda: t.boot_cl(sims=3, parametric=par), random=True)
            if r is not None:
                streams["none", len(streams)] = cdigest(r.reserve_dist)
        elif what == "gen":
            z = []
            for q in (0, 1):
                r = s.call(1, "boot_cl", ["generator"], lambda: t.boot_cl(sims=3, parametric=par, random_state=g[q]), random=True)
                z.append(cdigest(r) if r is not None else "raised%d" % q)
            w.ev("equal", why="generators", ans=z)
            states.append(digest([canon(g[0].get_state()[1]), str(g[0].get_state()[2])]))
            streams["gen", len(streams)] = z[0]
    w.ev("differ", why="streams", ans=[v for _, v in sorted(streams.items(), key=str)])
    w.ev("differ", why="advanced", ans=states)
    s.call(1, "nbr_cells", [], lambda: t.nbr_cells, last=True)


# ------------------------------------------------------------------ scripted draws
class Scripted(RandomState):
    """A generator whose draws are chosen by the model: residual `picks` for
    the observed cells (in origin, period order) and process draws as
    multiples `gams` of their mean for the forecast ones."""
    MULT = (.1, 1.0, 3.0, 0.0)

    def __new__(cls, *a):
        return RandomState.__new__(cls)

    def __init__(self, n, picks, gams):
        RandomState.__init__(self, 1)
        self.n, self.picks, self.gams = n, picks, gams
        self.seen = [(i, j) for i in range(n) for j in range(n) if i + j < n]
        self.fore = [(i, j) for i in range(n) for j in range(n) if i + j >= n]

    def _at(self, k, cells, script, m):
        sim, c = divmod(k, self.n * self.n)
        if m % (self.n * self.n) == 0:
            c = (c // self.n, c % self.n)
            p = cells.index(c) if c in cells else None
        else:
            sim, p = divmod(k, len(cells))
        if p is None:
            return script[0]
        s = script if sim % 2 == 0 else script[::-1]
        return s[p % len(s)]

    def choice(self, a, size=None, replace=True, p=None):
        a = np.asarray(a)
        m = int(np.prod(size)) if size is not None else 1
        x = np.array([a[(self._at(k, self.seen, self.picks, m) - 1) % len(a)] for k in range(m)])
        return x.reshape(size) if size is not None else x[0]

    def normal(self, loc=0.0, scale=1.0, size=None):
        m = int(np.prod(size)) if size is not None else 1
        z = np.array([(-1.0, -.25, 0.0, .5, 2.0)[self._at(k, self.seen, self.picks, m) % 5] for k in range(m)])
        return loc + scale * (z.reshape(size) if size is not None else z[0])

    def gamma(self, shape, scale=1.0, size=None):
        mean = np.asarray(shape, dtype=float) * scale
        mean = np.broadcast_to(mean, size).copy() if size is not None else np.array(mean)
        m = mean.size
        f = np.array([self.MULT[self._at(k, self.fore, self.gams, m) - 1] for k in range(m)])
        return mean * f.reshape(mean.shape)


def C16_model(w, rng, item, tier):
    n = len(item["rows"])
    o, d = labels(rng, n, "o"), labels(rng, n, "d")
    rows = [[float(x) for x in r] + [NAN] * (n - len(r)) for r in item["rows"]]
    t, o, d = mktri(w, 1, rng, n, rows, o=o, d=d)
    if t is None:
        return
    sims = rng.choice([1, 1, 2, 3])
    par = rng.random() < .25
    gams = [rng.choice([1, 2, 3, 4]) for _ in item["gams"]] if rng.random() < .6 else item["gams"]
    g = Scripted(n, item["picks"], gams)

    def go():
        r = t.boot_cl(sims=sims, parametric=par, random_state=g)
        s, complete, nrows = sims_out(r, n, sims)
        return {"fit_incr": {"v": mat(r.fitted_tri_incr)}, "sampling_dist": [] if par else nums(r.sampling_dist),
                "scale_param": num(r.scale_param), "nrows": nrows, "complete": complete, "sims": s,
                "reserve_dist": dist_out(r.reserve_dist, list(t.index), sims)}
    w.ev("sims", h=1, sims=sims, parametric=par, out=safe(go))


# ------------------------------------------------------------------ levels
LEVROWS = [[1024.0, 1536.0, 1792.0, 1856.0], [1280.0, 1728.0, 2016.0], [960.0, 1536.0], [1408.0]]


def level_of(rng, q):
    x = [a / b for a, b in q]
    if len(x) == 1 and rng.random() < .4:
        return int(x[0]) if x[0] in (0.0, 1.0) and rng.random() < .5 else x[0]
    return tuple(x) if rng.random() < .2 else x


def lev_tri(w, rng):
    n = 4
    o, d = labels(rng, n, "o"), labels(rng, n, "d")
    return mktri(w, 1, rng, n, [r + [NAN] * (n - len(r)) for r in LEVROWS], o=o, d=d)[0]


def C12_model(w, rng, item, tier):
    t = lev_tri(w, rng)
    if t is None:
        return
    dist, q = rng.choice(["lognorm", "norm"]), level_of(rng, item["q"])
    box = {}

    def go():
        box["r"] = t.mack_cl(dist=dist, q=q, two_sided=item["two"])
        return mack_out(box["r"], True)
    w.ev("mack", h=1, a2=2, dist=dist, q=qlist(q), two=item["two"], out=safe(go))
    r = box.get("r")
    if r is None:
        return
    q = level_of(rng, item["q"])

    def get():
        x = r.get_quantiles(np.array(q) if isinstance(q, list) and rng.random() < .4 else q)
        return {"qtl": qtable(x), "idx": [str(i) for i in x.index], "reserve": nums(r.summary["reserve"].values),
                "std_error": nums(r.summary["std_error"].values)}
    w.ev("mackget", h=1, q=qlist(q), dist=dist, out=safe(get))


def C17_model(w, rng, item, tier):
    t = lev_tri(w, rng)
    if t is None:
        return
    idx = list(t.index) + ["total"]
    sims, par, ip = rng.choice([1, 2, 3, 5, 11]), rng.random() < .2, rng.choice(INTERP)
    q, box = level_of(rng, item["q"]), {}

    def go():
        r = box["r"] = t.boot_cl(sims=sims, parametric=par, q=q, two_sided=item["two"], interpolation=ip, random_state=seed_of(rng))
        return {"summary": summary(r.summary, [c for c in r.summary.columns if c in SUMM]),
                "reserve_dist": dist_out(r.reserve_dist, idx, sims), "origin_dist": dist_out(r.origin_dist, idx, sims),
                "ldfs": series(r.ldfs), "mse": nums(r.mse.values), "qtl": qtable(r.summary),
                "args": {"sims": r.sims, "parametric": r.parametric, "interpolation": r.interpolation, "procdist": r.procdist},
                "attrs": {a: attr(getattr(r, a), a) for a in MATTR}}
    w.ev("bootsumm", h=1, q=qlist(q), two=item["two"], interp=ip, procdist="gamma", sims=sims, parametric=par, out=safe(go))
    r = box.get("r")
    if r is None:
        return
    q, ip, lb = level_of(rng, item["q"]), rng.choice(INTERP), rng.choice([None, None, 0, 250.0])
    kw = {"interpolation": ip}
    if lb is not None:
        kw["lb"] = lb

    def get():
        x = r.get_quantiles(np.array(q) if isinstance(q, list) and rng.random() < .3 else q, **kw)
        return {"qtl": qtable(x), "idx": [str(i) for i in x.index], "reserve": dist_out(r.reserve_dist, idx, sims)["reserve"]}
    w.ev("bootget", h=1, q=qlist(q), interp=ip, lb="nan" if lb is None else num(lb), out=safe(get))
