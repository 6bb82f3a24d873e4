"""Driver: exhibits (C23)."""
import math
import os, shutil, tempfile
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, PolyCollection
from rec import *
from gen import *
from d_tri import start_tri
from d_dev import mktri, exclude, setind, avg_names, calm, settled, base_sel, est_matrix
from d_boot import fit_ok


def texts(ax):
    return [x.get_text() for x in ax.texts]


def panel(ax, thin=False):
    lines, vl = [], []
    for ln in ax.get_lines():
        x, y = list(np.asarray(ln.get_xdata(orig=False), dtype=float)), list(np.asarray(ln.get_ydata(orig=False), dtype=float))
        if not x:
            continue
        bx, by = ln.get_transform().contains_branch_seperately(ax.transData)
        if bx and by:
            if thin and len(x) > 16:
                k = sorted({round(i * (len(x) - 1) / 13.0) for i in range(14)})
                x, y = [x[i] for i in k], [y[i] for i in k]
            lines.append({"x": nums(x), "y": nums(y), "label": str(ln.get_label())})
        elif bx:
            vl.append(x[0])
    leg = ax.get_legend()
    bands = [c for c in ax.collections if isinstance(c, PolyCollection)]
    pts = [c for c in ax.collections if isinstance(c, PathCollection)]
    rects = [r for r in ax.patches if hasattr(r, "get_height")]
    t = texts(ax)
    ok = False
    if len(bands) == 1 and len(lines) == 4 and bands[0].get_paths():
        lo, up = lines[-2], lines[-1]
        want = {(float(a), float(b)) for q in (lo, up) for a, b in zip(q["x"], q["y"])}
        got = [tuple(map(float, p)) for p in bands[0].get_paths()[0].vertices]
        s = max(abs(b) for _, b in want) or 1.0

        def near(p, q):
            return abs(p[0] - q[0]) < 1e-6 * (1 + abs(q[0])) and abs(p[1] - q[1]) < 1e-9 * s
        ok = all(any(near(p, q) for q in want) for p in got) and all(any(near(p, q) for p in got) for q in want)
    xy = np.asarray(pts[0].get_offsets(), dtype=float) if pts else np.zeros((0, 2))
    return {"title": ax.get_title() or ax.get_title(loc="left"), "note": t[0] if t else "", "lines": lines,
            "notes": t, "legend": [x.get_text() for x in leg.get_texts()] if leg is not None else [],
            "xticks": nums(ax.get_xticks()), "xlabels": [x.get_text() for x in ax.get_xticklabels()],
            "vlines": nums(vl), "band": len(bands), "bandok": bool(ok),
            "heights": nums([r.get_height() for r in rects]),
            "edges": nums([r.get_x() for r in rects] + ([rects[-1].get_x() + rects[-1].get_width()] if rects else [])),
            "px": nums(xy[:, 0]), "py": nums(xy[:, 1])}


def draw(fn, thin=False):
    """Run an exhibit; what it drew, and how often it asked to show it."""
    plt.close("all")
    count = [0]
    old = plt.show
    plt.show = lambda *a, **k: count.__setitem__(0, count[0] + 1)
    try:
        def go():
            fn()
            figs = plt.get_fignums()
            axes = [a for f in figs for a in plt.figure(f).axes]
            return {"panels": [panel(a, thin) for a in axes]}
        out = safe(go)
    finally:
        plt.show = old
        plt.close("all")
    return out, count[0]


def tidy(p):
    """hist and Mack panels carry several notes; the origin is the one that
    is not a '<name> = <value>' note."""
    q = [x for x in p["notes"] if " = " not in x]
    p["marks"] = []
    for x in p["notes"]:
        if " = " in x:
            a, b = x.split(" = ", 1)
            lv, nm = heading(a)
            p["marks"].append({"level": lv, "name": nm, "value": num(b.replace(",", ""))})
    p["note"] = q[0] if q and len(set(q)) == 1 else "|".join(q)
    return p


def exhibit(w, h, t, op, r, fn, extra=None, thin=False, **kw):
    d0 = cdigest(r) if r is not None else ""
    out, shown = draw(fn, thin)
    d1 = cdigest(r) if r is not None else ""
    if not isexc(out):
        for p in out["panels"]:
            tidy(p)
            del p["notes"]
        if extra is not None:
            out.update(extra(out["panels"]))
    w.ev(op, h=h, out=out, shown=shown, after=tri(t, True), dig0=d0, dig1=d1, **kw)


def saved(w, what, fn):
    tmp = tempfile.mkdtemp(prefix="exh")
    try:
        path = os.path.join(tmp, "x.png")
        out, shown = draw(lambda: fn(path))
        ok = os.path.exists(path) and os.path.getsize(path) > 0
        w.ev("saved", what=what, raised=isexc(out), file=bool(ok), shown=shown)
    finally:
        shutil.rmtree(tmp)


def result_figs(r):
    return {"trisqrd": frame(r.trisqrd, True), "ldfs": series(r.ldfs), "reserve": nums(r.reserve.values)}


def mack_figs(r):
    d = result_figs(r)
    d["std_error"] = nums(r.summary["std_error"].values)
    return d


def boot_figs(r, panels):
    s = r.sims_data
    n = len(r.tri.columns)
    piv = {}
    for o, d, u in zip(s["origin"].values, s["dev"].values, s["ultimate"].values):
        piv.setdefault((lab(o), lab(d)), []).append(num(u))
    os_, ds = labs(r.tri.index), labs(r.tri.columns)
    hd = [[heading(x)[0] for x in p["legend"][2:4]] for p in panels]
    return {"trisqrd": frame(r.trisqrd, True), "hdrs": hd, "sims": [[piv.get((o, d), []) for d in ds] for o in os_]}


def hist_figs(r):
    x = r.reserve_dist
    return {"reserve": [nums(x[x.origin == o]["reserve"].values) for o in list(r.tri.index) + ["total"]]}


def plot_matrix(rng, n):
    m = est_matrix(rng, n)
    r = rng.random()
    if r < .12:        # an origin whose largest amount is a power of ten
        i = rng.randrange(n)
        row = [x for x in m[i] if x == x]
        top = float(rng.choice([1000, 10000, 100]))
        if not 1e-2 < top / row[-1] < 1e2:      # stay on the scale of the other origins
            top = 10.0 ** round(math.log10(row[-1])) if row[-1] > 0 else 1.0
        k = top / row[-1]
        m[i] = [round(x * k, 2) if x == x else x for x in m[i]]
        m[i][len(row) - 1] = top
    elif r < .2:       # small units
        m = [[x / 1e4 if x == x else x for x in q] for q in m]
    elif r < .26 and max(x for q in m for x in q if x == x) < 1e10:      # large ones (axes are laid out for amounts below 1e20)
        m = [[x * 1e7 if x == x else x for x in q] for q in m]
    return m


def C23(w, rng, k, tier):
    n = bigger(rng, rng.choice([4, 4, 5, 6]), .2 if k % 6 == 0 else .02)
    t, o, d = mktri(w, 1, rng, n, plot_matrix(rng, n))
    if t is None or not calm(t):
        return
    if rng.random() < .3:
        exclude(w, rng, 1, t, o, d, n, 1, keep_one=True)
        if not calm(t):
            return
    kinds = {0: "tri", 1: "base", 2: "boot", 3: "hist", 4: "mack", 5: "diag"}
    k1 = kinds[k % 6]
    one_exhibit(w, rng, t, n, d, k1)
    if rng.random() < .3:
        one_exhibit(w, rng, t, n, d, rng.choice(list(kinds.values())))


STYLE = {
    "faceted": [{}, {}, {"color": "#aa3311"}, {"marker": "s", "linewidth": 2}, {"linestyle": "-", "alpha": .5}],
    "combined": [{}, {"marker": "o"}, {"linewidth": 2.0}, {"cmap": "viridis", "figsize": (6, 4)}, {"linestyle": "--", "markersize": 3}],
    "base": [{}, {}, {"marker": "s", "markersize": 4}, {"actuals_color": "#ff0000", "forecasts_color": "#00ff00"},
             {"hue_kws": {"linewidth": [1, 2, 1, 2]}}, {"hue_kws": {"linewidth": [1, 2]}}],
    "boot": [{}, {}, {"fill_color": "#ccddee", "fill_alpha": .3}, {"actuals_color": "#ff0000", "forecasts_color": "#00ff00"},
             {"hue_kws": {"linewidth": [1, 2, 1, 2]}}, {"hue_kws": {"linewidth": [1]}}],
    "hist": [{}, {"color": "#112233"}],
    "mack": [{}, {"dist_color": "#112233"}, {"q_color": "#00aa00"}],
    "diag": [{}, {}, {"cmap": "viridis"}, {"marker": "o", "figsize": (7, 7)}, {"linewidth": 3.0}],
}


def spice(rng, what="hist"):
    """Options that must not change what is drawn."""
    kw = dict(rng.choice(STYLE[what]))
    if rng.random() < .3:
        kw["context"] = rng.choice(["paper", "notebook", "talk"])
    if rng.random() < .3:
        kw["axes_style"] = rng.choice(["whitegrid", "dark", "ticks"])
    if rng.random() < .4:
        kw["col_wrap"] = rng.choice([1, 2, 3, 5])
    return kw


def one_exhibit(w, rng, t, n, d, what, opt=None):
    """opt: choices made by the model, otherwise random."""
    opt = opt or {}
    pick = lambda k, xs: opt[k] if k in opt else rng.choice(xs)
    if what == "tri":
        disp = pick("display", ["combined", "faceted"])
        kw = spice(rng, disp) if disp == "faceted" else rng.choice(STYLE[disp])
        exhibit(w, 1, t, "triplot", None, (lambda: t.plot(display=disp, **kw)) if disp != "combined" or rng.random() < .5 else lambda: t.plot(**kw),
                display=disp)
        return
    if what == "base":
        sel = opt["sel"] if "sel" in opt else base_sel(rng, t, n, d)[0]
        r = safe(lambda: t.base_cl(sel=sel, tail=pick("tail", [1.0, 1.0, 1.1])))
        if isexc(r) or r.trisqrd.isnull().values.any():   # an average over no ratio projects nothing
            return
        exhibit(w, 1, t, "baseplot", r, lambda: r.plot(**spice(rng, "base")), lambda p: result_figs(r))
        if rng.random() < .4:
            saved(w, "base", lambda p: r.plot(exhibit_path=p))
        return
    if what in ("boot", "hist"):
        if not fit_ok(t):
            return
        par = pick("parametric", [True, False, False])
        r = safe(lambda: t.boot_cl(sims=rng.choice([6, 12, 25]), random_state=rng.randint(0, 999), parametric=par))
        if isexc(r):
            return
        if what == "boot":
            q = pick("q", [.9, .9, .5, .8, .95])
            exhibit(w, 1, t, "bootplot", r, lambda: r.plot(**spice(rng, "boot")) if q == .9 and rng.random() < .5 else
                    r.plot(q=q, **spice(rng, "boot")),
                    lambda p: boot_figs(r, p), q=num(q))
            if rng.random() < .4:
                saved(w, "boot", lambda p: r.plot(exhibit_path=p))
        else:
            bins = pick("bins", [20, 20, 5, 8])
            exhibit(w, 1, t, "hist", r, lambda: r.hist(**spice(rng)) if bins == 20 else r.hist(bins=bins, **spice(rng)),
                    lambda p: hist_figs(r), bins=bins)
            if rng.random() < .4:
                saved(w, "hist", lambda p: r.hist(exhibit_path=p))
        return
    dist = pick("dist", ["lognorm", "norm"])
    r = safe(lambda: t.mack_cl(alpha=pick("alpha", [1, 1, 0, 2]), dist=dist))
    if isexc(r):
        return
    if any(0 < x < 1e-9 * abs(u) for x, u in zip(r.summary["std_error"], r.summary["ultimate"])):
        return      # an error that is rounding noise: a spike no grid of points shows
    if not any(x > 0 and (dist == "norm" or v > 0) for x, v in zip(r.summary["std_error"], r.summary["reserve"])):
        return      # no reserve has a distribution: nothing to draw
    if what == "mack":
        q = pick("q", [.95, .95, [.75, .95], [.5], [.1, .9], [.9, .5], [.995, .05, .6], [.8, .8]])
        exhibit(w, 1, t, "mackplot", r, lambda: r.plot(**spice(rng, "mack")) if q == .95 else
                r.plot(q=q, **spice(rng, "mack")), lambda p: mack_figs(r), thin=True,
                q=nums(q if isinstance(q, list) else [q]), dist=dist)
        if rng.random() < .4:
            saved(w, "mack", lambda p: r.plot(exhibit_path=p))
    else:
        exhibit(w, 1, t, "diagnostics", r, lambda: r.diagnostics(**rng.choice(STYLE["diag"])), lambda p: mack_figs(r), thin=True, dist=dist)


# MCPlot's options, in the order they are numbered there.
OPTS = {
    "combined": [{"display": "combined"}], "faceted": [{"display": "faceted"}],
    "base": [{"sel": s, "tail": x} for s in ("all-weighted", "simple-2", "all-geometric") for x in (1.0, 1.1)],
    "boot": [{"q": q, "parametric": p} for q in (.9, .5, .8) for p in (False, True)],
    "hist": [{"bins": b, "parametric": False} for b in (20, 5, 8)],
    "mack": [{"q": q, "dist": s} for q in (.95, [.95, .75], [.5], [.1, .9]) for s in ("lognorm", "norm")],
    "diag": [{"dist": "lognorm"}, {"dist": "norm"}],
}


def C23_model(w, rng, item, tier):
    m = [[float(x) for x in r] + [NAN] * i for i, r in enumerate(item["rows"])]
    n = len(m)
    t, o, d = mktri(w, 1, rng, n, m)
    if t is None or not calm(t):
        return
    i, j = item["cut"]
    if i:
        setind(w, 1, t, o[i - 1], d[j - 1], 0)
        if not calm(t):
            return
    what = item["what"]
    one_exhibit(w, rng, t, n, d, "tri" if what in ("combined", "faceted") else what, OPTS[what][item["opt"] - 1])
