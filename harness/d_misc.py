"""Drivers: reproducibility, purity, loading, invariance, requests (C18-C22)."""
import csv, json, os, tempfile, shutil
import numpy as np
import pandas as pd
from numpy.random import RandomState
from rec import *
from gen import *
from d_tri import start_tri
from d_dev import mktri, exclude, setind, avg_names, calm, settled, qlist
from d_boot import fit_ok
import gen

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ sessions
class Sess:
    """Triangles, kept answers, and the recording of calls on them."""

    def __init__(self, w, rng):
        self.w, self.rng = w, rng
        self.tris, self.kept, self.nid = {}, {}, 0
        self.snap = rng.choice([.1, .5, 1.0])
        self.results = {}                       # (h, method) -> results to ask again
        self.made, self.log = {}, {}            # how h was built; what it was asked since its indicator last changed

    def add(self, h, t):
        self.tris[h] = t
        start_tri(self.w, h, t)

    def call(self, h, fn, args, go, given=(), random=False, keep=True, last=False):
        """One public call.  args: canonical description; given: the argument
        objects themselves, whose contents must survive the call."""
        box = {}

        def run():
            box["x"] = go()
            return {}
        a0, r0 = digest(list(given)), rngstate()
        z = safe(run)
        raised = isexc(z)
        a1, r1 = digest(list(given)), rngstate()
        x = box.get("x")
        ans = cdigest(x) if not raised else ""
        keep = keep and not random and not raised and x is not None
        kid = 0
        if keep:
            self.nid += 1
            kid = self.nid
            self.kept[kid] = x
        snaps = []
        if last or self.rng.random() < self.snap:
            ind = last or self.rng.random() < .6
            for g, t in self.tris.items():
                s = tri(t, ind)
                s["h"] = g
                snaps.append(s)
        ks = list(self.kept.items())
        if not last and len(ks) > 6:
            ks = self.rng.sample(ks, 6)
        kept = [[i, cdigest(y)] for i, y in ks if i != kid]
        self.w.ev("call", h=h, call={"fn": fn, "args": json.dumps(args, default=str)}, raised=raised, exc=z["exc"] if raised else "", rng0=r0, rng1=r1, args0=a0, args1=a1,
                  random=random, ans=ans, id=kid, snaps=snaps, kept=kept)
        return x


def small(rng, n, neg=.05):
    return cum_matrix(rng, n, neg=neg)


def sess_tri(w, rng, n, twin=True):
    """A session with one triangle, usually its twin, and often another."""
    s = Sess(w, rng)
    for _ in range(50):
        m = small(rng, n)
        o, d = labels(rng, n, "o"), labels(rng, n, "d")
        names = rng.choice(NAMES)
        t = safe(lambda: cumtri(o, d, m, names))
        if isexc(t):
            w.ev("unreadable", what="construction raised " + t["exc"])
            return None
        if not fit_ok(t):
            continue
        s.add(1, t)
        s.made[1] = s.made[2] = lambda: cumtri(o, d, m, names)
        if twin:
            s.add(2, cumtri(o, d, m, names))
        return s
    return None


CHEAP = ("a2a", "a2a_avgs", "ranked_a2a", "a2a_assignment", "a2a_lvi", "latest", "latest_by_origin", "latest_by_devp",
         "rlvi", "clvi", "triind", "maturity", "origins", "devp", "nbr_cells")


def selections(rng, n, d):
    r = rng.random()
    if r < .55:
        return rng.choice(avg_names(n))
    v = [round(rng.uniform(1, 2), 2) for _ in range(n - 1)]
    if r < .65:
        return v
    if r < .75:
        return tuple(v)
    if r < .85:
        return np.array(v)
    idx = list(d[:n - 1])
    if rng.random() < .5:
        rng.shuffle(idx)
    return pd.Series(v, index=idx)


def witness(s, h, rng, most=6):
    """A newly built triangle with h's data and indicator, which has no
    history, asked what h was asked since its indicator last changed."""
    log = s.log.get(h, [])[-most:]
    if not log or h not in s.made:
        return
    keep = rng.getstate()
    g = 10 + len(s.tris)
    s.add(g, s.made[h]())
    t, u = s.tris[h], s.tris[g]
    a = t.a2aind
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if a.iat[i, j] == 0:
                setind(s.w, g, u, u.index[i], u.columns[j], 0)
    for st, fn in log:
        if callable(fn):
            fn(g)
        else:
            rng.setstate(st)
            one_call(s, g, rng, fn)
    del s.tris[g]
    for k in [k for k in s.results if k[0] == g]:
        del s.results[k]
    rng.setstate(keep)
    rng.random()


def one_call(s, h, rng, fn=None):
    t = s.tris[h]
    n = t.shape[0]
    if fn is None:
        fn = pick(rng)
    if fn not in ("quant", "detail"):
        s.log.setdefault(h, []).append((rng.getstate(), fn))
    return put(s, h, rng, t, n, fn)


def pick(rng):
    return rng.choice(["prop"] * 5 + ["base"] * 3 + ["mack"] * 3 + ["boot", "boot", "diag", "to_tbl", "to_incr", "str", "tests",
                                                               "quant", "quant", "detail", "copy"])


def put(s, h, rng, t, n, fn):
    if fn == "prop":
        c = rng.choice(CHEAP)
        return s.call(h, c, [], lambda: t.a2a_avgs() if c == "a2a_avgs" else getattr(t, c))
    if fn == "diag":
        k = -rng.randrange(n)
        return s.call(h, "diagonal", [k], lambda: t.diagonal(k))
    if fn == "to_tbl":
        k = rng.random() < .5
        return s.call(h, "to_tbl", [str(k)], lambda: t.to_tbl(dropna=k))
    if fn == "to_incr":
        return s.call(h, "to_incr", [], lambda: t.to_incr())
    if fn == "copy":
        return s.call(h, "rebuild", [], lambda: __import__("trikit").totri(t.to_tbl(), tri_type="cum", data_format="cum",
                                                                       origin=t.origin, dev=t.dev, value=t.value))
    if fn == "str":
        return s.call(h, "str", [], lambda: [str(t), repr(t)])
    if fn == "base":
        sel, tail = selections(rng, n, list(t.columns)), rng.choice([1.0, 1.0, 1.05])
        x = s.call(h, "base_cl", [canon(sel), type(sel).__name__, tail if False else num(tail)], lambda: t.base_cl(sel=sel, tail=tail),
                   given=[sel])
        if x is not None:
            s.results[h, "base"] = x
            if rng.random() < .3:
                s.call(0, "result_str", [cdigest(x)], lambda: [str(x), repr(x)])
        return x
    if fn == "mack":
        a, dist = rng.choice([1, 1, 0, 2, .5]), rng.choice(["lognorm", "norm"])
        q, two = rng.choice([[.75, .95], np.array([.9, .5]), .8, [.25, .5], [.9, .1, .5], [.6, .6]]), rng.random() < .3
        x = s.call(h, "mack_cl", [num(a), dist, canon(q), str(two)], lambda: t.mack_cl(alpha=a, dist=dist, q=q, two_sided=two), given=[q])
        if x is not None:
            s.results[h, "mack"] = x
        return x
    if fn == "boot":
        seed, sims, par = rng.choice([1, 7, 516]), rng.choice([2, 5]), rng.random() < .3
        q = rng.choice([[.75, .95], np.array([.9, .5]), [.9, .25]])
        x = s.call(h, "boot_cl", [seed, sims, str(par), canon(q)],
                   lambda: t.boot_cl(sims=sims, parametric=par, random_state=seed, q=q), given=[q])
        if x is not None:
            s.results[h, "boot"] = x
        return x
    if fn == "tests":
        x = s.results.get((h, "mack"))
        if x is None:
            return
        p = rng.choice([.5, .05, .9])
        if rng.random() < .5:
            return s.call(h, "devp_corr_test", [num(p)], lambda: list(x.devp_corr_test(p=p)))
        return s.call(h, "cy_effects_test", [num(p)], lambda: list(x.cy_effects_test(p=p)))
    if fn == "quant":
        k = [x for x in s.results if x[1] in ("mack", "boot")]
        if not k:
            return
        k = rng.choice(k)
        x = s.results[k]
        q = rng.choice([[.5, .9], np.array([.9, .1]), .99, [.8, .3, .8]])
        return s.call(0, "get_quantiles", [cdigest(x), canon(q)], lambda: x.get_quantiles(q), given=[q])
    if fn == "detail":
        x = s.results.get((h, "boot"))
        if x is None or x.parametric:
            return
        return s.call(0, rng.choice(["origin_dist", "residuals_detail"]), [cdigest(x)],
                      lambda: [canon(x.origin_dist), canon(x.residuals_detail)])


def reset_ind(s, h):
    """Back to the full indicator."""
    t = s.tris[h]
    a = t.a2aind
    n = t.shape[0]
    for i in range(n - 1):
        for j in range(n - 1 - i):
            if a.iat[i, j] == 0:
                setind(s.w, h, t, t.index[i], t.columns[j], 1)


def C19(w, rng, k, tier):
    n = rng.choice([4, 4, 5])
    s = sess_tri(w, rng, n)
    if s is None:
        return
    if rng.random() < .3:
        t = s.tris[1]
        i = s.call(1, "to_incr", [], lambda: t.to_incr(), keep=False)
        if i is not None:
            s.add(3, i)
    steps = rng.randint(6, 14)
    menu = None
    if rng.random() < .5:           # few distinct calls, so that answers recur
        menu = [rng.choice(["prop", "base", "mack", "boot", "diag", "to_tbl"]) for _ in range(2)]
    for q in range(steps):
        h = rng.choice([1, 1, 2])
        r = rng.random()
        if r < .25:
            t = s.tris[h]
            if rng.random() < .5:
                witness(s, h, rng)
            s.log[h] = []
            exclude(w, rng, h, t, list(t.index), list(t.columns), n, 1, keep_one=True)
        elif r < .33:
            if rng.random() < .5:
                witness(s, h, rng)
            s.log[h] = []
            reset_ind(s, h)
        elif 3 in s.tris and r < .41:
            t = s.tris[3]
            c = rng.choice(["latest", "triind", "to_tbl", "to_cum", "maturity", "rlvi", "clvi", "nbr_cells"])
            s.call(3, c, [], (lambda: t.to_tbl()) if c == "to_tbl" else (lambda: t.to_cum()) if c == "to_cum" else lambda: getattr(t, c))
        elif r < .45:
            import trikit
            kd, nm = rng.choice(["cum", "incr", None]), rng.choice(["raa", "ta83", "amw09"])
            s.call(0, "load", [nm, str(kd)], lambda: trikit.load(nm, tri_type=kd))
        elif r < .5:
            import trikit
            m = small(rng, 3)
            df = df_of(recs_of([1, 2, 3], [1, 2, 3], incr_of(m)))
            kd = rng.choice(["cum", "incr"])
            s.call(0, "totri", [canon(df), kd], lambda: trikit.totri(df, tri_type=kd), given=[df])
        else:
            one_call(s, h, rng, None if menu is None or rng.random() < .4 else rng.choice(menu))
    for h in (1, 2):
        if rng.random() < .7:
            witness(s, h, rng)
    # the twins asked alike at the end
    if rng.random() < .6:
        for h in (1, 2):
            reset_ind(s, h)
        st = rng.getstate()
        fn = rng.choice(["base", "mack", "boot", "prop"])
        for h in (1, 2):
            rng.setstate(st)
            rng.random()
            one_call(s, h, rng, fn)
    s.call(1, "nbr_cells", [], lambda: s.tris[1].nbr_cells, last=True)


def C19_model(w, rng, item, tier):
    """A history of the session model: [["ask", h, call] | ["set", h, i, j, x]]."""
    n = 4
    s = sess_tri(w, rng, n)
    if s is None:
        return
    for a in item["hist"]:
        h = a[1]
        t = s.tris[h]
        if a[0] == "set":
            s.log[h] = []
            setind(w, h, t, t.index[a[2] - 1], t.columns[a[3] - 1], a[4])
        elif a[0] == "swap":
            s.log[h] = []
            setind(w, h, t, t.index[a[2] - 1], t.columns[a[3] - 1], 1)
            setind(w, h, t, t.index[a[4] - 1], t.columns[a[5] - 1], 0)
        else:
            s.log.setdefault(h, []).append((None, lambda g, c=a[2]: model_call(s, g, c)))
            model_call(s, h, a[2])
    for h in (1, 2):
        witness(s, h, rng)
    s.call(1, "nbr_cells", [], lambda: s.tris[1].nbr_cells, last=True)


def model_call(s, h, c):
    t = s.tris[h]
    if c == "base":
        s.call(h, "base_cl", ["all-simple"], lambda: t.base_cl(sel="all-simple"))
    elif c == "series":
        sel = pd.Series([1.5, 1.25, 1.125], index=list(t.columns[:3]))
        s.call(h, "base_cl", ["series"], lambda: t.base_cl(sel=sel, tail=1.1), given=[sel])
    elif c == "mack":
        s.call(h, "mack_cl", [], lambda: t.mack_cl(alpha=1))
    elif c == "boot":
        s.call(h, "boot_cl", [7], lambda: t.boot_cl(sims=3, random_state=7))
    elif c == "avgs":
        s.call(h, "a2a_avgs", [], lambda: t.a2a_avgs())
    elif c == "geom":
        s.call(h, "geometry", [], lambda: [canon(t.latest), canon(t.triind), canon(t.maturity), canon(t.rlvi), canon(t.clvi)])
    elif c == "ranks":
        s.call(h, "ranks", [], lambda: [canon(t.ranked_a2a), canon(t.a2a_assignment)])
    elif c == "incr":
        s.call(h, "to_incr", [], lambda: t.to_incr())


# ------------------------------------------------------------------ seeds
class Tally(RandomState):
    """A generator that counts the values it hands out."""
    WORKING = 0

    def __new__(cls, seed):
        return RandomState.__new__(cls)

    def __init__(self, seed):
        RandomState.__init__(self, seed)
        self.count = {"gamma": 0, "other": 0}


def _counted(name):
    real = getattr(RandomState, name)

    def draw(self, *a, **k):
        self.WORKING += 1
        try:
            x = real(self, *a, **k)
        finally:
            self.WORKING -= 1
        if not self.WORKING:
            z = a[0] if name == "shuffle" else x
            self.count["gamma" if "gamma" in name else "other"] += len(z) if name in ("bytes", "shuffle") else int(np.size(z))
        return x
    return draw


for _n in dir(RandomState):
    if not _n.startswith("_") and _n not in ("get_state", "set_state", "seed"):
        setattr(Tally, _n, _counted(_n))


def C18(w, rng, k, tier):
    n = rng.choice([3, 4, 4, 5])
    s = sess_tri(w, rng, n, twin=rng.random() < .5)
    if s is None:
        return
    seeds = [rng.randint(0, 10 ** 6), 0, rng.randint(1, 50)]
    par = rng.random() < .4
    sims = rng.choice([2, 3, 5])
    for _ in range(rng.randint(4, 8)):
        h = rng.choice(list(s.tris))
        t = s.tris[h]
        r = rng.random()
        if r < .15:
            np.random.seed(rng.randint(0, 9))
        elif r < .25:
            np.random.rand(3)
        elif r < .65:
            sd, p, sm = rng.choice(seeds), rng.random() < .4 if rng.random() < .3 else par, sims if rng.random() < .8 else 4
            s.call(h, "boot_cl", [sd, sm, str(p)], lambda: t.boot_cl(sims=sm, parametric=p, random_state=sd))
        elif r < .75:
            s.call(h, "boot_cl", ["none"], lambda: t.boot_cl(sims=sims, parametric=par), random=True)
        elif r < .9:
            one_call(s, h, rng, "base" if n == 3 else None)     # Mack's last variance needs four periods
        else:
            exclude(w, rng, h, t, list(t.index), list(t.columns), n, 1, keep_one=True)
    t = s.tris[1]

    def sims_of(rs, reps=1, p=par):
        return [cdigest(t.boot_cl(sims=6, parametric=p, random_state=rs()).reserve_dist) for _ in range(reps)]

    def resids_of(rs):                          # what was drawn for the residuals alone
        return [cdigest(t.boot_cl(sims=3, parametric=p, random_state=rs).sims_data[["resid"]]) for p in (True, False)]

    def safe_list(why, op, fn):
        x = safe(fn)
        w.ev(op, why=why, ans=["raised", "raised"] if isexc(x) and op == "differ" else ["raised", ""] if isexc(x) else x)
    a, b = seeds[0], seeds[0] + 1
    many = {a, b, b + 1, *(a + x for x in rng.sample((100, 256, 1000, 2 ** 16, 10 ** 6, 2 ** 24, 10 ** 9, 2 ** 31), 3))}
    safe_list("seeds", "differ", lambda: [sims_of(lambda: x)[0] for x in sorted(many)])

    def unseeded():
        out = []
        for _ in range(3):
            np.random.seed(5)
            out += sims_of(lambda: None)
        return out + sims_of(lambda: a)
    safe_list("unseeded", "differ", unseeded)
    if rng.random() < .3:
        safe_list("unseeded.residuals", "differ", lambda: sum((resids_of(None) for _ in range(4)), []))

    def equal_gen():
        out = []
        for q in range(3):
            if q == 1:
                np.random.seed(rng.randint(0, 99))
            if q == 2:
                t.boot_cl(sims=2)
            g = RandomState(a)
            out.append(digest([cdigest(t.boot_cl(sims=3, parametric=par, random_state=g)),
                               cdigest(t.boot_cl(sims=3, parametric=par, random_state=g)), canon(g.get_state()[1]), str(g.get_state()[2])]))
        return out
    safe_list("generators", "equal", equal_gen)

    def advanced():
        g = RandomState(a)
        s0 = digest([canon(g.get_state()[1]), str(g.get_state()[2])])
        x = sims_of(lambda: g, 2)
        return x + [s0, digest([canon(g.get_state()[1]), str(g.get_state()[2])])]
    safe_list("advanced", "differ", advanced)
    g = Tally(a)

    def drawn():
        t.boot_cl(sims=sims, parametric=par, random_state=g)
        return dict(g.count)
    w.ev("drawn", h=1, sims=sims, out=safe(drawn))
    if rng.random() < .3:
        def global_gen():              # the global generator, passed explicitly, equals its twin
            g = np.random.mtrand._rand
            st = RandomState(a)
            g.set_state(st.get_state())
            x = cdigest(t.boot_cl(sims=3, random_state=g))
            return [x, cdigest(t.boot_cl(sims=3, random_state=st))]
        safe_list("global_passed", "equal", global_gen)


# ------------------------------------------------------------------ loading
FILES = {"raa": "RAA.csv", "ta83": "TaylorAshe83.csv", "amw09": "amw09.csv", "autoliab": "AutoLiabMedical.csv",
         "glre": "GLReinsurance2004.csv", "singinjury": "SingaporeInjury.csv", "singproperty": "SingaporeProperty.csv"}


def golden(name):
    rows = list(csv.DictReader(open(os.path.join(HERE, "datasets", FILES[name]))))
    return [[int(r["origin"]), int(r["dev"]), num(float(r["value"])) if r["value"].strip() else "nan"] for r in rows]


def loaded(x, kind):
    return table(x) if kind == "none" else tri(x)


def database(rng):
    lobs = rng.sample(["comauto", "wkcomp", "othliab", "ppauto", "medmal", "prodliab"], rng.randint(1, 4))
    if rng.random() < .7 and "comauto" not in lobs:
        lobs.append("comauto")
    names = ["Alpha Ins", "Beta Mut", "Gamma Co", "Zeta Grp", "alpha ins", "Alpha Ins Co", "Beta", "Ins", "Beta Mut "]
    rows = []
    for lob in lobs:
        for code in rng.sample([1767, 86, 353, 1066, 43], rng.randint(1, 3)) if rng.random() < .8 else [1767]:
            nm = rng.choice(names)
            for i in range(rng.choice([2, 3])):
                for j in range(3):
                    if rng.random() < .93:
                        rows.append({"lob": lob, "code": code, "name": nm, "origin": 1988 + i, "dev": 1 + j,
                                     "inc": num(float(rng.randint(-30, 900))), "paid": num(rng.randint(0, 1800) / 2.0),
                                     "train": 1 if i + j < 3 and rng.random() < .97 else 0})
    if rng.random() < .6:
        rng.shuffle(rows)
    return rows


def C20(w, rng, k, tier):
    import trikit
    if k % 3 == 0:
        for nm in rng.sample(sorted(FILES), 3):
            kd = rng.choice(["none", "cum", "incr"])
            kw = {} if kd == "none" else {"tri_type": kd}
            w.ev("load", file=golden(nm), kind=kd, out=safe(lambda: loaded(trikit.load(nm, **kw), kd)))
            if rng.random() < .3:
                w.ev("list", what="datasets", want=sorted(FILES), out=safe(lambda: {"v": [str(x) for x in trikit.get_datasets()]}))
        bad = rng.choice(["RAA", "raa.csv", "nope", "", "ta", "lrd"])
        w.ev("request", h=0, req={"what": "dataset", "name": bad, "known": sorted(FILES)}, call="load", raised=isexc(safe(lambda: trikit.load(bad))))
        kd = rng.choice(["xyz", "triangle", "", "x"])
        w.ev("request", h=0, req={"what": "tri_type", "name": kd}, call="load", raised=isexc(safe(lambda: trikit.load("raa", tri_type=kd))))
        return
    db = database(rng)
    lrdb_case(w, rng, db, [None] * rng.randint(4, 7))


def lrdb_case(w, rng, db, queries):
    import trikit
    tmp = tempfile.mkdtemp(prefix="lrdb")
    try:
        path = os.path.join(tmp, "lrdb.csv")
        with open(path, "w", newline="") as f:
            c = csv.writer(f)
            extra = rng.random() < .5
            c.writerow((["id"] if extra else []) + ["loss_key", "grcode", "grname", "origin", "dev", "incrd_loss", "paid_loss", "train_ind"])
            for i, r in enumerate(db):
                c.writerow(([i] if extra else []) + [r["lob"], r["code"], r["name"], r["origin"], r["dev"], r["inc"], r["paid"], r["train"]])
        ref = {"lrdb": path}
        for q in queries:
            if q is None:
                q = random_query(rng, db)
            kw = {}
            dflt = {"lob": "comauto", "code": 1767, "name": "*", "loss": "incurred", "train": True, "kind": "none"}
            for a, b in (("lob", "lob"), ("code", "grcode"), ("name", "grname"), ("loss", "loss_type"), ("train", "train_only"),
                         ("kind", "tri_type")):
                if q[a] == dflt[a] and rng.random() < .6:
                    continue
                kw[b] = None if q[a] in ("*", -1, "none") and a != "loss" else q[a]
            sel = [r for r in db if (q["lob"] in ("*", r["lob"])) and q["code"] in (-1, r["code"]) and q["name"] in ("*", r["name"])
                   and (r["train"] == 1 or not q["train"])]
            if q["kind"] in ("cum", "incr") and (not sel or len({r["dev"] for r in sel}) < 2):
                continue
            w.ev("lrdb", db=db, q=q, out=safe(lambda: loaded(trikit.load_lrdb(dataref=ref, **kw), q["kind"] if q["kind"] in ("cum", "incr") else "none")))
        if rng.random() < .5:
            def lobs():
                x = [str(v) for v in trikit.get_lrdb_lobs(lrdb_path=path)]
                return {"v": x, "sorted": x == sorted(x)}
            w.ev("list", what="lobs", db=db, out=safe(lobs))
        if rng.random() < .5:
            def specs():
                x = trikit.get_lrdb_specs(lrdb_path=path)
                v = [[str(r[0]), lab(r[1]), str(r[2])] for r in x.to_numpy(dtype=object)]
                return {"v": v, "cols": [str(c) for c in x.columns], "sorted": [r[0] for r in v] == sorted(r[0] for r in v)}
            w.ev("list", what="specs", db=db, out=safe(specs))
    finally:
        shutil.rmtree(tmp)


def near(rng, x):
    """A name which is not quite x."""
    return rng.choice(["Nobody", "", x.upper(), x.title(), x.swapcase(), x + " ", " " + x, x[:-1], x[1:], x + "x", x.split()[0], x + "." , x * 2])


def random_query(rng, db):
    r0 = rng.choice(db)
    q = {"lob": rng.choice([r0["lob"], r0["lob"], "*", "comauto", rng.choice(db)["lob"]]),
         "code": rng.choice([r0["code"], r0["code"], -1, 1767, rng.choice(db)["code"]]),
         "name": rng.choice(["*", "*", r0["name"], rng.choice(db)["name"]]),
         "loss": rng.choice(["incurred", "paid", "paid", "incurred", "i", "p"]), "train": rng.random() < .6,
         "kind": rng.choice(["none", "none", "cum", "incr"])}
    r = rng.random()
    if r < .06:
        q["lob"] = near(rng, r0["lob"])
    elif r < .12:
        q["code"] = rng.choice([99999, 0, r0["code"] + 1, -r0["code"], int(str(r0["code"])[:2]), r0["code"] * 10])
    elif r < .18:
        q["name"] = near(rng, r0["name"])
    elif r < .24:
        q["loss"] = rng.choice(["x", "loss", "case", "", "reported"])
    elif r < .3:
        q["kind"] = rng.choice(["xyz", "triangle", "x"])
    return q


def C20_model(w, rng, item, tier):
    lrdb_case(w, rng, [dict(r) for r in item["db"]], item["qs"])


# ------------------------------------------------------------------ related runs
def figures(t, rng_spec):
    """Named figures of the estimates of a triangle under one set of calls."""
    out = []

    def add(name, cls, v):
        out.append({"name": name, "class": cls, "v": v})
    kind = rng_spec["kind"]
    if kind == "tri":
        add("cells", "money", [num(x) for r in pd.DataFrame(t).to_numpy(dtype=float) for x in r])
        add("origins", "text", [str(x) for x in t.index])
        add("periods", "text", [str(x) for x in t.columns])
        add("latest", "money", nums(t.latest_by_origin.values))
        add("maturity", "text", [str(x) for x in t.maturity])
        add("ratios", "pure", [num(x) for r in t.a2a.to_numpy(dtype=float) for x in r])
        add("averages", "pure", [num(x) for r in t.a2a_avgs().to_numpy(dtype=float) for x in r])
        add("ranks", "pure", [num(x) for r in t.ranked_a2a.to_numpy(dtype=float) for x in r])
        return out
    if kind == "base":
        r = t.base_cl(sel=rng_spec["sel"], tail=rng_spec["tail"])
    elif kind == "mack":
        r = t.mack_cl(alpha=rng_spec["alpha"], dist=rng_spec["dist"], q=rng_spec["q"], two_sided=rng_spec["two"])
    else:
        r = t.boot_cl(sims=rng_spec["sims"], parametric=rng_spec["par"], q=rng_spec["q"], two_sided=rng_spec["two"],
                      random_state=rng_spec["seed"])
    s = r.summary
    add("index", "text", [str(x) for x in s.index])
    add("maturity", "text", [str(x) for x in s["maturity"]])
    for c in ("cldf", "emergence"):
        add(c, "pure", nums(s[c].values))
    for c in ("latest", "ultimate", "reserve"):
        add(c, "money", nums(s[c].values))
    add("ldfs", "pure", nums(r.ldfs.values))
    add("ldf_labels", "text", [str(x) for x in r.ldfs.index])
    add("square", "money", [num(x) for q in r.trisqrd.to_numpy(dtype=float) for x in q])
    if kind != "base":
        add("std_error", "money", nums(s["std_error"].values))
        add("cv", "pure", nums(s["cv"].values))
        q = qtable(s)
        add("headings", "text", ["".join(x) for x in q["h"]])
        for h, v in zip(q["h"], q["v"]):
            add("q" + h[0], "money", v)
        g = qtable(r.get_quantiles([.1, .6]))
        for h, v in zip(g["h"], g["v"]):
            add("get" + h[0], "money", v)
    if kind == "mack":
        a = r.devp_corr_test()
        b = r.cy_effects_test()
        add("devp_corr", "pure", nums([a[0][0], a[0][1], a[1]]))
        add("cy_effects", "pure", nums([b[0][0], b[0][1], b[1]]))
    if kind == "boot":
        add("dist", "money", nums(r.reserve_dist["reserve"].values))
        add("scale_param", "money", [num(r.scale_param)])
        add("dof", "pure", [num(r.dof)])
    return out


def clean_resid(t):
    """No interior residual is nearly, but not exactly, zero (C21)."""
    v = t.to_numpy(dtype=float)
    n = v.shape[0]
    a = t.a2aind.to_numpy(dtype=float)
    f = [sum(v[i][j + 1] * a[i][j] for i in range(n - 1 - j)) / sum(v[i][j] * a[i][j] for i in range(n - 1 - j)) for j in range(n - 1)]
    for i in range(n - 1):
        m = n - 1 - i
        row = [0.0] * (m + 1)
        row[m] = v[i][m]
        for j in range(m - 1, -1, -1):
            row[j] = row[j + 1] / f[j]
        for j in range(min(m + 1, n - 1)):
            inc = row[j] - (row[j - 1] if j else 0.0)
            obs = v[i][j] - (v[i][j - 1] if j else 0.0)
            if abs(inc) < 1e-4 * row[m] or abs(obs - inc) < 1e-6 * abs(inc):
                return False
    return True


def relate(w, rng, n, m, unit, o1, d1, o2, d2, mode, spec, why, names2=None):
    from trikit import totri
    inc = incr_of(m)

    def recs(o, d, u):
        return [(a, b, x * u) for a, b, x in recs_of(o, d, inc)]
    r1, r2 = recs(o1, d1, 1.0), recs(o2, d2, unit)
    if mode in ("permute", "both"):
        rng.shuffle(r2)
    if mode in ("split", "both"):
        q = []
        for a, b, x in r2:
            if rng.random() < .4:
                z = float(rng.randint(-50, 50))
                q += [(a, b, x - z), (a, b, z)]
            else:
                q.append((a, b, x))
        rng.shuffle(q)
        r2 = q
    relab = [[str(x), str(y)] for x, y in zip(o1, o2)] + [[str(x), str(y)] for x, y in zip(d1, d2)]
    step1, step2 = d1[1] - d1[0], d2[1] - d2[0]
    excl = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        i = rng.randrange(n - 2)
        excl.append((i, rng.randrange(n - 2 - i)))
    nm = names2 or ("origin", "dev", "value")

    def go():
        out = []
        for o, d, rr, names in ((o1, d1, r1, ("origin", "dev", "value")), (o2, d2, r2, nm)):
            t = totri(df_of(rr, names), tri_type="cum", origin=names[0], dev=names[1], value=names[2])
            for i, j in excl:
                if t.a2aind.iloc[:, j].sum() > 1:
                    t.a2aind = (o[i], d[j], 0)
            out.append(t)
        if not (calm(out[0]) and fit_ok(out[0]) and clean_resid(out[0])):
            return None
        return {"one": figures(out[0], spec), "two": figures(out[1], spec)}
    x = safe(go)
    if x is not None:
        w.ev("relate", why=why, unit=num(unit), relabel=relab, out=x)


def rel_spec(rng, n, kind=None):
    kind = kind or rng.choice(["tri", "base", "mack", "mack", "boot", "boot"])
    return {"kind": kind, "sel": rng.choice(avg_names(n)[:n - 1] + avg_names(n)[-(n - 1):] + ["all-geometric"]), "tail": rng.choice([1.0, 1.05]),
            "alpha": rng.choice([1, 0, 2, .5, 1.5]), "dist": rng.choice(["norm", "lognorm"]), "q": rng.choice([[.75, .95], [.1, .5], .9]),
            "two": rng.random() < .3, "sims": rng.choice([5, 8]), "par": rng.random() < .4, "seed": rng.randint(0, 9999)}


def C21(w, rng, k, tier):
    n = bigger(rng, rng.choice([4, 5, 6, 4]))
    m = cum_matrix(rng, n, neg=rng.choice([0, 0, .1]))
    why = rng.choice(["unit", "unit", "origins", "periods", "records", "names", "all"])
    o1, d1 = labels(rng, n, "o"), labels(rng, n, "d")
    o2, d2, unit, mode, names = o1, d1, 1.0, "same", None
    if why not in ("unit", "all") and rng.random() < .35:          # an origin that comes to less than nothing
        i = rng.randrange(1, n)
        m[i][n - 1 - i] *= -round(rng.uniform(.2, 2), 2)
    if why in ("unit", "all"):
        unit = rng.choice([2.0, 10.0, 1000.0, .5, .01, .001, 7.0, 1e6, 1e-6, 1e-9, 1e10])
    if why in ("origins", "all"):
        k0 = rng.choice([1, -1, 100, 1980, 7, -o1[0], -o1[n // 2]])
        o2 = [x + k0 for x in o1]
    if why in ("periods", "all"):
        a, b = rng.choice([(1, 1), (0, 1), (12, 12), (3, 3), (2, 1), (6, 12), (100, 5)])
        d2 = [a + b * j for j in range(n)]
    if why in ("records", "all"):
        mode = rng.choice(["permute", "split", "both"])
        if unit != 1.0:
            mode = "permute"
    if why in ("names", "all"):
        names = rng.choice(NAMES)
    if set(map(str, o1)) & set(map(str, d1)) and (o1 != o2 or d1 != d2):
        o1 = [1980 + i for i in range(n)]
        if why in ("origins", "all"):
            o2 = [2000 + i for i in range(n)]
        else:
            o2 = o1
    if set(map(str, o1)) & set(map(str, d1)):
        return
    relate(w, rng, n, m, unit, o1, d1, o2, d2, mode, rel_spec(rng, n), why, names)


def C21_model(w, rng, item, tier):
    """item: unit index, origin shift, period relabelling, record order, method."""
    rows = [[[100, 150, 180, 190], [110, 165, 190], [90, 150], [120]], [[100, 90, 120, 130], [50, 100, 140], [70, 95], [60]],
            [[8, 18, 20, 21], [8, 12, 16], [4, 7], [16]], [[1000, 1100, 1050, 1300], [900, 950, 1200], [1200, 1150], [800]]][item["shape"] - 1]
    n = 4
    m = [[float(x) for x in r] + [float("nan")] * (n - len(r)) for r in rows]
    unit = [1.0, 10.0, .01, 1000.0][item["unit"]]
    o1, d1 = [1991 + i for i in range(n)], [1 + j for j in range(n)]
    o2 = [x + [0, -1, 20][item["origin"]] for x in o1]
    a, b = [(1, 1), (12, 12), (0, 1), (3, 2)][item["period"]]
    relate(w, rng, n, m, unit, o1, d1, o2, [a + b * j for j in range(n)], ["same", "permute"][item["order"]],
           rel_spec(rng, n, item["method"]), "model")


# ------------------------------------------------------------------ requests
def ask(w, h, req, call, fn, t=None, check=None):
    box = {}

    def go():
        box["x"] = fn()
        return {}
    x = safe(go)
    e = {"h": h, "req": req, "call": call, "raised": isexc(x)}
    if not isexc(x) and check is not None:
        e["answered"] = bool(safe(lambda: check(box["x"])) is True)
    if t is not None:
        e["after"] = tri(t, True)
    w.ev("request", **e)


OKLEVELS = [[0], [1], [0, 1], [0.0, .5, 1.0], .5, 0, 1, [.999], 1.0]
BADLEVELS = [1.5, [-.1], [.5, 1.0001], [2, .5], -1, [1.0000001], -1e-9, [0, .5, -.5], 75, [75, 95], float("nan")]


def request(w, rng, h, t, what, case=None):
    import trikit
    from trikit.triangle import CumTriangle, IncrTriangle
    n = t.shape[0]
    pick = (lambda good, bad: rng.choice(good if case == "good" else bad)) if case else (lambda good, bad: rng.choice(rng.choice([good, bad])))
    if what == "levels":
        q = pick(OKLEVELS, BADLEVELS)
        q = np.array(q) if isinstance(q, list) and rng.random() < .3 else q
        call = rng.choice(["mack", "mack2", "boot", "boot2", "mackget", "bootget", "macknorm"])
        f = {"mack": lambda: t.mack_cl(q=q), "mack2": lambda: t.mack_cl(q=q, two_sided=True), "macknorm": lambda: t.mack_cl(q=q, dist="norm"),
             "boot": lambda: t.boot_cl(sims=3, q=q), "boot2": lambda: t.boot_cl(sims=3, q=q, two_sided=True),
             "mackget": lambda: t.mack_cl().get_quantiles(q), "bootget": lambda: t.boot_cl(sims=3).get_quantiles(q)}[call]
        ask(w, h, {"what": "levels", "q": qlist(q)}, call, f, t)
    elif what == "offset":
        k = pick(list(range(-(n - 1), 1)) + [0, -(n - 1)], [-n, -n, -n - 1, n, n + 1, 10 * n, 1, n - 1])
        ask(w, h, {"what": "offset", "offset": k}, "diagonal", lambda: t.diagonal(k), t, lambda x: len(x) == n + k)
    elif what == "factors":
        m = pick([n - 1], [n - 2, n, n + 1, 1, 2 * n] if n > 3 else [n, n + 1, 1, 2 * n])
        v = [1.1 + i / 10 for i in range(m)]
        kd = rng.choice(["list", "array", "tuple", "series"])
        dd = list(t.columns[:n - 1]) + [t.columns[n - 1] + (t.columns[1] - t.columns[0]) * (i) for i in range(2 * n)]
        sel = {"list": v, "tuple": tuple(v), "array": np.array(v), "series": pd.Series(v, index=dd[:m])}[kd]
        ask(w, h, {"what": "factors", "len": m}, kd, lambda: t.base_cl(sel=sel), t, lambda x: len(x.ldfs) == n)
    elif what == "selection":
        nm = pick(avg_names(n), ["simple-%d" % (n - 1), "simple-99", "all-mean", "", "weighted-0", "ALL-WEIGHTED", "all_simple", "medial",
                                 "all-", "simple--1", "all-weighted "])
        ask(w, h, {"what": "selection", "name": nm}, "base_cl", lambda: t.base_cl(sel=nm), t)
    elif what == "dist":
        nm = pick(["norm", "lognorm"], ["gamma", "normal", "", "LOGNORM", "lognormal", "t", "none"])
        ask(w, h, {"what": "dist", "name": nm}, "mack_cl", lambda: t.mack_cl(dist=nm), t, lambda x: x.dist == nm)
    elif what == "procdist":
        nm = pick(["gamma", "Gamma", " gamma "], ["norm", "poisson", "", "gam", "odp", "gamma2"])
        ask(w, h, {"what": "procdist", "name": nm}, "boot_cl", lambda: t.boot_cl(sims=3, procdist=nm), t, lambda x: len(x.reserve_dist) > 0)
    elif what == "interpolation":
        nm = pick(["linear", "lower", "higher", "midpoint", "nearest"], ["cubic", "", "mid", "LOWER"])
        call = rng.choice(["boot_cl", "get_quantiles"])
        ask(w, h, {"what": "interpolation", "name": nm}, call,
            (lambda: t.boot_cl(sims=3, interpolation=nm)) if call == "boot_cl" else (lambda: t.boot_cl(sims=3).get_quantiles(.5, interpolation=nm)), t)
    elif what == "glm":
        kw = rng.choice([{}, {"var_power": 2}, {"var_power": 1.5}])
        ask(w, h, {"what": "glm"}, "glm", lambda: t.glm(**kw), t)
    elif what in ("data_format", "data_shape", "totri_kind"):
        fm = pick(["incr", "cum", "INCR", "Cum", " incr ", "incremental", "cumulative"], ["xyz", "", "tabular", "triangle", "value", "1"]) if what == "data_format" else "incr"
        sh = pick(["tabular", "triangle"], ["table", "", "Triangle", "tri", "wide", "tab", "Tabular", "tabular ", "triangles", "records"]) if what == "data_shape" else rng.choice(["tabular", "triangle"])
        kd = pick(["cum", "incr"], ["xyz", "", "triangle", "both"]) if what == "totri_kind" else rng.choice(["cum", "incr"])
        data = t.to_tbl().set_axis(["origin", "dev", "value"], axis=1) if sh == "tabular" or sh != "triangle" and rng.random() < .5 else pd.DataFrame(t)
        ask(w, h, {"what": "tri_type" if what == "totri_kind" else what, "name": {"data_format": fm, "data_shape": sh, "totri_kind": kd}[what]}, "totri",
            lambda: trikit.totri(data, tri_type=kd, data_format=fm, data_shape=sh), t,
            lambda x: type(x).__name__ == {"cum": "CumTriangle", "incr": "IncrTriangle"}[kd])
    elif what == "columns":
        names = rng.choice(NAMES[3:] + [("origin", "dev", "value")])
        df = t.to_tbl().set_axis(list(names), axis=1)
        miss = pick([0], [1, 2, 3])
        have = list(df.columns)
        if miss:
            df = df.rename({names[miss - 1]: "zzz"}, axis=1) if rng.random() < .5 else df.drop(names[miss - 1], axis=1)
            have = list(df.columns)
        fm, kd = rng.choice(["incr", "cum"]), rng.choice(["incr", "cum"])
        call = rng.choice(["totri", "class"])
        if call == "totri":
            f = lambda: trikit.totri(df, tri_type=kd, data_format=fm, origin=names[0], dev=names[1], value=names[2])
        else:
            f = lambda: (CumTriangle if kd == "cum" else IncrTriangle)(df, origin=names[0], dev=names[1], value=names[2])
        ask(w, h, {"what": "columns", "need": list(names), "have": have}, call, f, t, lambda x: x.shape == t.shape)
    elif what == "frame":
        df = t.to_tbl().set_axis(["origin", "dev", "value"], axis=1)
        good = case == "good" or (case is None and rng.random() < .3)
        x = df if good else rng.choice([df.values, df.to_dict(), df.to_dict("list"), df["value"], None, "raa", 5, df.values.tolist(), (1, 2)])
        call, kd = rng.choice(["totri", "class", "triangle", "cumfmt"]), rng.choice(["incr", "cum"])
        if good and call == "triangle":
            call = "totri"
        f = {"totri": lambda: trikit.totri(x, tri_type=kd), "class": lambda: (CumTriangle if kd == "cum" else IncrTriangle)(x),
             "triangle": lambda: trikit.totri(x, tri_type=kd, data_shape="triangle"),
             "cumfmt": lambda: trikit.totri(x, tri_type=kd, data_format="cum")}[call]
        ask(w, h, {"what": "frame", "isframe": good}, call, f, t)
    elif what == "dataset":
        nm = pick(sorted(FILES), ["RAA", "nope", "", "raa ", "ta", "mack"])
        ask(w, 0, {"what": "dataset", "name": nm, "known": sorted(FILES)}, "load", lambda: trikit.load(nm))
    elif what == "tri_type":
        nm = pick(["cum", "incr"], ["xyz", "triangle", "", "x"])
        ask(w, 0, {"what": "tri_type", "name": nm}, "load", lambda: trikit.load("raa", tri_type=nm))


WHAT = ("levels", "offset", "factors", "selection", "dist", "procdist", "interpolation", "glm", "data_format", "data_shape",
        "totri_kind", "columns", "frame", "dataset", "tri_type")


def req_tri(w, rng, n):
    for _ in range(30):
        o, d = labels(rng, n, "o"), labels(rng, n, "d")
        t = safe(lambda: cumtri(o, d, cum_matrix(rng, n, neg=.05)))
        if isexc(t):
            w.ev("unreadable", what="construction raised " + t["exc"])
            return None
        if fit_ok(t):
            start_tri(w, 1, t)
            return t


def C22(w, rng, k, tier):
    n = rng.choice([4, 5, 6])
    t = req_tri(w, rng, n)
    if t is None:
        return
    for _ in range(rng.randint(3, 6)):
        request(w, rng, 1, t, rng.choice(WHAT))
        if rng.random() < .15:
            exclude(w, rng, 1, t, list(t.index), list(t.columns), n, 1, keep_one=True)


def C22_model(w, rng, item, tier):
    t = req_tri(w, rng, item["n"])
    if t is None:
        return
    for what, case in item["reqs"]:
        request(w, rng, 1, t, what, case)
