"""Drivers: construction, conversion, geometry, link ratios (C01-C06)."""
import numpy as np
import pandas as pd
from rec import *
from gen import *


def same_df(a, b):
    try:
        pd.testing.assert_frame_equal(a, b, check_exact=True)
        return a.index.equals(b.index)
    except AssertionError:
        return False


def build(w, h, kind, fmt, shape, df, names, recs=None, grid=None, use_names=True, tri_type=None, op="build", **extra):
    """One real construction, recorded."""
    from trikit import totri
    before = df.copy(deep=True)
    kw = {}
    if use_names:
        kw = dict(origin=names[0], dev=names[1], value=names[2])
    box = {}

    def go():
        t = totri(df, tri_type=tri_type or kind, data_format=extra.get("spell", fmt), data_shape=shape, **kw)
        box["t"] = t
        return tri(t)
    out = safe(go)
    inp = {"shape": shape, "fmt": fmt, "kind": kind, "names": list(names)}
    if recs is not None:
        inp["recs"] = [[lab(r[0]), lab(r[1]), num(r[2])] for r in recs]
    if grid is not None:
        inp["grid"] = grid
    w.ev(op, h=h, **{"in": inp}, out=out, unaltered=same_df(df, before))
    return box.get("t")


def table_input(rng, recs, names, plain=False):
    """A data frame holding recs (in the given order) in varied dress."""
    df = pd.DataFrame([[r[0], r[1], r[2]] for r in recs], columns=list(names))
    if plain:
        return df
    r = rng.random()
    if r < .15:
        df.index = [rng.randint(0, 5) for _ in range(len(df))]
    elif r < .3:
        df.index = list(range(len(df), 0, -1))
    elif r < .4:
        df.index = pd.Index(["k%d" % i for i in range(len(df))], name="key")
    elif r < .5:
        df.index = pd.Index(range(len(df)), name=rng.choice([names[0], names[1], "idx"])) if rng.random() < .0 else df.index
    if rng.random() < .3:
        df["extra"] = ["x%d" % (i % 3) for i in range(len(df))]
        if rng.random() < .5:
            df["other"] = np.arange(len(df)) * 1.5
    if rng.random() < .3:
        cols = list(df.columns)
        rng.shuffle(cols)
        df = df[cols]
    if rng.random() < .2 and df[names[2]].notna().all() and (df[names[2]] == df[names[2]].round()).all():
        df[names[2]] = df[names[2]].astype(int)
    return df


def random_records(rng, irregular, neg=.12, nanp=.06, dup=.15, n=None):
    """Loss records: a staircase or scattered cells; duplicates, gaps, empty
    amounts, negative and zero amounts; unordered."""
    n = n or bigger(rng, rng.randint(1 if irregular else 2, 7), .02)
    o = labels(rng, n, "o")
    d = labels(rng, n if not irregular else rng.randint(1, 7), "d")
    if irregular and rng.random() < .3:
        o = sorted(rng.sample(range(1, 60), n))
        d = sorted(rng.sample(range(0, 60), len(d)))
    style = rng.choice(["int", "cents", "big", "dyadic"] * 2 + ["wild"])
    recs = []
    gap = rng.choice([0, 0, .15, .35])
    for i, a in enumerate(o):
        for j, b in enumerate(d):
            if irregular:
                if rng.random() < .35:
                    continue
            elif i + j >= n:
                continue
            if rng.random() < gap:
                continue
            for _ in range(1 + (rng.random() < dup) + (rng.random() < dup / 3)):
                x = amount(rng, style)
                r = rng.random()
                if r < neg:
                    x = -x
                elif r < neg + .04:
                    x = 0.0
                elif r < neg + .04 + nanp:
                    x = NAN
                recs.append((a, b, x))
                if rng.random() < .06:          # the very same record again
                    recs.append((a, b, x))
    order = rng.random()
    if order < .6:
        rng.shuffle(recs)
    elif order < .7:
        recs.reverse()
    elif order < .8:
        recs.sort(key=lambda r: (r[1], r[0]))
    return recs


def amounts_everywhere(recs):
    """Every origin and every period has an amount."""
    ok = {r for r in recs if r[2] == r[2]}
    return recs and {r[0] for r in ok} == {r[0] for r in recs} and {r[1] for r in ok} == {r[1] for r in recs}


def C0102(w, rng, k, kind):
    irregular = rng.random() < .5
    for _ in range(50):
        recs = random_records(rng, irregular)
        if amounts_everywhere(recs):
            break
    else:
        return
    names = rng.choice(NAMES)
    default = names == ("origin", "dev", "value")
    df = table_input(rng, recs, names)
    tt = rng.choice([kind, kind, kind.upper() if rng.random() < .5 else kind.capitalize(), {"incr": "incremental", "cum": "cumulative"}[kind]])
    t = build(w, 1, kind, "incr", "tabular", df, names, recs=recs, use_names=not default or rng.random() < .5, tri_type=tt)
    # the same records, in another order and split: same triangle by the spec
    if rng.random() < .4:
        r2 = list(recs)
        rng.shuffle(r2)
        build(w, 2, kind, "incr", "tabular", table_input(rng, r2, names), names, recs=r2)


def C01(w, rng, k, tier):
    C0102(w, rng, k, "incr")


def C02(w, rng, k, tier):
    C0102(w, rng, k, "cum")


# ------------------------------------------------------------------ C03
def grid_df(rng, o, d, m, dress=True):
    """Triangle-shaped data frame; returns it with the order it has."""
    oi, di = list(range(len(o))), list(range(len(d)))
    if dress and rng.random() < .35:
        rng.shuffle(oi)
    if dress and rng.random() < .35:
        rng.shuffle(di)
    oo, dd = [o[i] for i in oi], [d[j] for j in di]
    mm = [[m[i][j] for j in di] for i in oi]
    df = pd.DataFrame(mm, index=oo, columns=dd, dtype=float)
    if dress:
        if rng.random() < .3:
            df.index = [str(x) for x in oo]
        if rng.random() < .3:
            df.columns = [str(x) for x in dd]
        if rng.random() < .3:
            df.index.name = rng.choice(["AY", "origin", "dev", "index", "value"])
        if rng.random() < .3:
            df.columns.name = rng.choice(["Lag", "dev", "origin", "value"])
    return df, {"o": oo, "d": dd, "v": [nums(r) for r in mm]}


def C03(w, rng, k, tier):
    n = bigger(rng, rng.randint(2, 6), .02)
    o, d = labels(rng, n, "o"), labels(rng, n, "d")
    cum = cum_matrix(rng, n, neg=rng.choice([0, .2]))
    gaps = rng.choice([0, 0, .2, .35])
    inc = incr_of(cum)
    if gaps:
        for i in range(n):
            for j in range(n - i):
                if rng.random() < gaps and not (i == 0 and j == n - 1):
                    cum[i][j] = NAN
                    inc[i][j] = NAN
    if rng.random() < .2:
        i, j = rng.randrange(n), 0
        if inc[i][j] == inc[i][j]:
            inc[i][j] = rng.choice([-5.0, 0.0])
    def alive(m):
        return all(any(x == x for x in r) for r in m) and all(any(r[j] == r[j] for r in m) for j in range(n))
    if not alive(cum) or not alive(inc):
        return
    names = rng.choice(NAMES)
    h = 0
    combos = [(kd, f, s) for kd in ("incr", "cum") for f in ("incr", "cum") for s in ("tabular", "triangle")]
    rng.shuffle(combos)
    for kd, f, s in combos[:(4 if tier == "quick" else 8)]:
        h += 1
        m = inc if f == "incr" else cum
        spell = rng.choice({"incr": ["incr", "incremental", " Incr", "I"], "cum": ["cum", "cumulative", "CUM ", "c"]}[f])
        if s == "tabular":
            recs = recs_of(o, d, m)
            # split some records (repeated records of a cell add up)
            out = []
            for r in recs:
                if rng.random() < .06:          # two identical halves
                    out += [(r[0], r[1], r[2] / 2)] * 2
                elif rng.random() < .1:
                    x = float(rng.randint(1, 50))
                    out += [(r[0], r[1], r[2] - x), (r[0], r[1], x)]
                else:
                    out.append(r)
                if rng.random() < .05:
                    out.append((r[0], r[1], NAN))
            rng.shuffle(out)
            build(w, h, kd, f, s, table_input(rng, out, names), names, recs=out, spell=spell)
        else:
            dress = True if f == "incr" else "cum"
            df, g = grid_df(rng, o, d, m, dress)
            build(w, h, kd, f, s, df, names, grid=g, spell=spell, use_names=rng.random() < .5)


# ------------------------------------------------------------------ C04
def convert(w, op, h, h2, t):
    box = {}

    def go():
        r = getattr(t, op)()
        box["t"] = r
        return tri(r)
    out = safe(go)
    w.ev(op, h=h, h2=h2, out=out, src=tri(t))
    return box.get("t")


def tbl(w, h, t, dropna, args=None):
    out = safe(lambda: table(t.to_tbl(*(() if args else ()), **({} if args == "default" else {"dropna": dropna}))))
    w.ev("to_tbl", h=h, dropna=dropna, out=out)


def start_tri(w, h, t, ind=False):
    out = safe(lambda: tri(t))
    w.ev("tri", h=h, out=out)
    return t


def C04(w, rng, k, tier):
    from trikit import totri
    n = bigger(rng, rng.randint(2, 7), .02)
    o, d = labels(rng, n, "o"), labels(rng, n, "d")
    cum = cum_matrix(rng, n, neg=rng.choice([0, .1, .3]))
    inc = incr_of(cum)
    names = rng.choice(NAMES)
    kw = dict(origin=names[0], dev=names[1], value=names[2])
    gaps = rng.choice([0, 0, .2])
    gi = [list(r) for r in inc]
    if gaps:
        for i in range(n):
            for j in range(n - i):
                if rng.random() < gaps and not (i == 0 and j == n - 1):
                    gi[i][j] = NAN
        if not (all(any(x == x for x in r) for r in gi) and all(any(r[j] == r[j] for r in gi) for j in range(n))):
            gi = inc
    if rng.random() < .15:
        gi[rng.randrange(n)][0] = rng.choice([-7.0, 0.0])
    # incremental: table, to_cum and onwards
    ti = safe(lambda: totri(df_of(recs_of(o, d, gi), names), tri_type="incr", **kw))
    if isexc(ti):
        w.ev("tri", h=1, out=ti)
        return
    start_tri(w, 1, ti)
    tbl(w, 1, ti, True, args=rng.choice([None, "default"]))
    tbl(w, 1, ti, False)
    tc = convert(w, "to_cum", 1, 2, ti)
    if tc is not None:
        tbl(w, 2, tc, True)
        tbl(w, 2, tc, False)
        ti2 = convert(w, "to_incr", 2, 3, tc)
        if ti2 is not None:
            convert(w, "to_cum", 3, 4, ti2)
    # cumulative (gap-free, positive): there and back again
    tq = safe(lambda: cumtri(o, d, cum, names))
    if isexc(tq):
        w.ev("tri", h=5, out=tq)
        return
    start_tri(w, 5, tq)
    tbl(w, 5, tq, True)
    r = convert(w, "to_incr", 5, 6, tq)
    if r is not None:
        tbl(w, 6, r, True)
        w.ev("roundtrip", h=5, out=safe(lambda: tri(r.to_cum())))
        w.ev("roundtrip", h=5, out=safe(lambda: tri(totri(tq.to_tbl(), tri_type="cum", data_format="cum", **kw))))
        w.ev("roundtrip", h=6, out=safe(lambda: tri(totri(r.to_tbl(), tri_type="incr", **kw))))
        w.ev("roundtrip", h=6, out=safe(lambda: tri(r.to_cum().to_incr())))


# ------------------------------------------------------------------ C05
def geom_out(t, order=None):
    la, lo, ld = t.latest, t.latest_by_origin, t.latest_by_devp
    rl, cl, ti, ma = t.rlvi, t.clvi, t.triind, t.maturity
    return {
        "latest": {"cols": [str(c) for c in la.columns], "o": labs(la["origin"]), "d": labs(la["dev"]), "v": nums(la["latest"])},
        "latest_by_origin": series(lo), "latest_by_devp": series(ld),
        "rlvi": {"idx": labs(rl.index), "dev": labs(rl["dev"]), "off": labs(rl["col_offset"])},
        "clvi": {"idx": labs(cl.index), "origin": labs(cl["origin"]), "off": labs(cl["row_offset"])},
        "triind": {"o": labs(ti.index), "d": labs(ti.columns), "v": intmat(ti)},
        "maturity": {"idx": labs(ma.index), "v": labs(ma.values)},
        "origins": labs(t.origins.values), "devp": labs(t.devp.values), "nbr": lab(t.nbr_cells)}


def C05(w, rng, k, tier):
    from trikit import totri
    n = bigger(rng, rng.randint(2, 8), .02)
    o, d = labels(rng, n, "o"), labels(rng, n, "d")
    cum = cum_matrix(rng, n)
    inc = incr_of(cum)
    gap = rng.choice([0, 0, .25])
    for i in range(n):
        for j in range(n - i - 1):         # interior gaps only
            if rng.random() < gap:
                inc[i][j] = NAN
    if rng.random() < .3:                  # amounts that come to nothing, or less
        for _ in range(rng.choice([1, 1, 2, 3])):
            i = rng.randrange(n)
            j = rng.randrange(n - i)
            if j:
                inc[i][j] = -float(sum(x for x in inc[i][:j] if x == x)) - rng.choice([0.0, 0.0, 12.5])
    if rng.random() < .1:
        inc[rng.randrange(n)][0] = NAN if n > 2 and rng.random() < .5 else -3.0
    if not (all(any(x == x for x in r) for r in inc) and all(any(r[j] == r[j] for r in inc) for j in range(n))):
        return
    names = rng.choice(NAMES)
    kind_ = rng.choice(["incr", "cum"])
    recs = recs_of(o, d, inc)
    if rng.random() < .15:                 # newest origin recorded without an amount
        recs = [r for r in recs if r[0] != o[-1]] + [(o[-1], d[0], NAN)]
        kind_ = "cum"
    rng.shuffle(recs)
    t = safe(lambda: totri(df_of(recs, names), tri_type=kind_, origin=names[0], dev=names[1], value=names[2]))
    if isexc(t):
        w.ev("tri", h=1, out=t)
        w.ev("same", h=1, why="raised", src={"o": []})
        return
    start_tri(w, 1, t)
    if rng.random() < .5:                  # some property read first: order must not matter
        for p in rng.sample(["latest", "triind", "maturity", "rlvi", "clvi", "latest_by_devp", "nbr_cells"], 3):
            safe(lambda: getattr(t, p))
    w.ev("geom", h=1, out=safe(lambda: geom_out(t)))
    for off in [0] + rng.sample(range(-n - 1, 0), min(3, n)):
        a = () if off == 0 and rng.random() < .5 else (off,)
        w.ev("diagonal", h=1, offset=off, out=safe(lambda: table(t.diagonal(*a))))
    w.ev("geom", h=1, out=safe(lambda: geom_out(t)))
    w.ev("same", h=1, why="geometry", src=tri(t))


# ------------------------------------------------------------------ C06
def indframe(t):
    x = t.a2aind
    return {"o": labs(x.index), "d": labs(x.columns), "v": intmat(x)}


def C06(w, rng, k, tier):
    n = bigger(rng, rng.randint(2, 7), .02)
    ts = {}
    for h in (1, 2):
        m = n if h == 1 else rng.randint(2, 5)
        o, d = labels(rng, m, "o"), labels(rng, m, "d")
        cum = cum_matrix(rng, m, neg=.2)
        if rng.random() < .2:               # jumps and recoveries beyond nothing
            for _ in range(rng.choice([1, 2])):
                i = rng.randrange(m)
                j = rng.randrange(m - i)
                cum[i][j] *= rng.choice([1e4, 1e-4, 3e6] + [-1.0] * (j > 0))
        if rng.random() < .15 and m > 2:
            i = rng.randrange(m)
            for j in range(m - i):
                cum[i][j] = 50.0           # no development
        t = safe(lambda: cumtri(o, d, cum, rng.choice(NAMES)))
        if isexc(t):
            w.ev("tri", h=h, out=t)
            return
        start_tri(w, h, t)
        ts[h] = (t, o, d, m)
    # a copy built from the same data as triangle 1
    def look(h):
        t = ts[h][0]
        r = rng.random()
        if r < .4:
            w.ev("a2a", h=h, out=safe(lambda: frame(t.a2a)))
        elif r < .8:
            w.ev("a2aind", h=h, out=safe(lambda: indframe(t)))
        elif r < .9:
            w.ev("same", h=h, why="look", src=safe(lambda: tri(t)))
        elif ts[h][3] >= 4:
            w.ev("ranks", h=h, out=safe(lambda: ranks_out(t)))
    first = rng.random()
    if first < .6:
        look(1), look(2)
    for _ in range(rng.randint(2, 10)):
        h = rng.choice([1, 1, 2])
        t, o, d, m = ts[h]
        i = rng.randrange(m - 1)
        j = rng.randrange(m - 1 - i)
        x = rng.choice([0, 0, 1])
        how = rng.choice(["tuple", "at"])

        def go():
            t.a2aind                      # the indicator exists once read
            if how == "tuple":
                t.a2aind = (o[i], d[j], x)
            else:
                t.a2aind.at[o[i], d[j]] = x
            return {}
        r = safe(go)
        if isexc(r):
            w.ev("a2aind", h=h, out=r)
            return
        w.ev("setind", h=h, o=o[i], d=d[j], x=x)
        for _ in range(rng.randint(0, 2)):
            look(rng.choice([1, 2]))
    for h in (1, 2):
        t = ts[h][0]
        w.ev("a2aind", h=h, out=safe(lambda: indframe(t)))
        w.ev("a2a", h=h, out=safe(lambda: frame(t.a2a)))
        w.ev("same", h=h, why="end", src=safe(lambda: tri(t, True)))


def ranks_out(t):
    x = t.ranked_a2a
    return {"o": labs(x.index), "cols": [str(c) for c in x.columns], "v": mat(x)}


# ------------------------------------------------- states of MCBuild, replayed
HOLE = 999


def model_recs(item, rng):
    o = sorted({r[0] for r in item["recs"]})
    lo, ld = labels(rng, 4, "o"), labels(rng, 4, "d")
    return [(lo[r[0] - 1], ld[r[1] - 1], NAN if r[2] == HOLE else float(r[2])) for r in item["recs"]]


def C01_model(w, rng, item, tier):
    recs = model_recs(item, rng)
    build(w, 1, "incr", "incr", "tabular", table_input(rng, recs, NAMES[0], rng.random() < .5), NAMES[0], recs=recs)


def C02_model(w, rng, item, tier):
    recs = model_recs(item, rng)
    build(w, 1, "cum", "incr", "tabular", table_input(rng, recs, NAMES[0], rng.random() < .5), NAMES[0], recs=recs)


def C03_model(w, rng, item, tier):
    recs = model_recs(item, rng)
    tot = {}
    for r in recs:
        if r[2] == r[2]:
            tot[r[0], r[1]] = tot.get((r[0], r[1]), 0.0) + r[2]
    o, d = sorted({r[0] for r in recs}), sorted({r[1] for r in recs})
    inc = [[tot.get((a, b), NAN) for b in d] for a in o]
    cum = []
    for r in inc:
        s, q = 0.0, []
        for x in r:
            s += x if x == x else 0.0
            q.append(s if x == x else NAN)
        cum.append(q)
    combos = [(kd, f, s) for kd in ("incr", "cum") for f in ("incr", "cum") for s in ("tabular", "triangle")
              if (f, s) != ("incr", "tabular")]
    for h, (kd, f, s) in enumerate(rng.sample(combos, 3 if tier == "quick" else 6)):
        m = inc if f == "incr" else cum
        if s == "tabular":
            rr = recs_of(o, d, m)
            rng.shuffle(rr)
            build(w, h + 1, kd, f, s, table_input(rng, rr, NAMES[0]), NAMES[0], recs=rr)
        else:
            df, g = grid_df(rng, o, d, m, True if f == "incr" else "cum")
            build(w, h + 1, kd, f, s, df, NAMES[0], grid=g, use_names=False)


def C04_model(w, rng, item, tier):
    from trikit import totri
    recs = model_recs(item, rng)
    t = safe(lambda: totri(df_of(recs), tri_type="incr"))
    if isexc(t):
        w.ev("tri", h=1, out=t)
        return
    start_tri(w, 1, t)
    tbl(w, 1, t, rng.random() < .5)
    c = convert(w, "to_cum", 1, 2, t)
    if c is None:
        return
    tbl(w, 2, c, True)
    full = all(x == x for i, r in enumerate(c.values) for x in r[:len(r) - i])
    if all(x > 0 for x in c.iloc[:, 0]):
        r = convert(w, "to_incr", 2, 3, c)
        if r is not None:
            w.ev("roundtrip", h=2, out=safe(lambda: tri(r.to_cum())))
        w.ev("roundtrip", h=2, out=safe(lambda: tri(totri(c.to_tbl(), tri_type="cum", data_format="cum"))))
    w.ev("roundtrip", h=1, out=safe(lambda: tri(totri(t.to_tbl(), tri_type="incr"))))


def C05_model(w, rng, item, tier):
    from trikit import totri
    recs = model_recs(item, rng)
    t = safe(lambda: totri(df_of(recs), tri_type=rng.choice(["incr", "cum"])))
    if isexc(t):
        w.ev("tri", h=1, out=t)
        return
    start_tri(w, 1, t)
    w.ev("geom", h=1, out=safe(lambda: geom_out(t)))
    w.ev("same", h=1, why="geometry", src=tri(t))


def C06_model(w, rng, item, tier):
    from trikit import totri
    recs = model_recs(item, rng)
    t = safe(lambda: totri(df_of(recs), tri_type="cum"))
    if isexc(t):
        w.ev("tri", h=1, out=t)
        return
    start_tri(w, 1, t)
    w.ev("a2a", h=1, out=safe(lambda: frame(t.a2a)))
    w.ev("a2aind", h=1, out=safe(lambda: indframe(t)))
