"""Recording of executions of the real library as trace events (ndjson).

Numbers are written as decimal numerals (strings) that identify the binary
float exactly, labels as integers, so that the specification reads exactly
what the library returned.
"""
import hashlib, json, math, re, warnings
import numpy as np
import pandas as pd

warnings.filterwarnings("ignore")
BADLABEL = -999999


def num(x):
    try:
        x = float(x)
    except Exception:
        return "nan"
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def nums(xs):
    return [num(x) for x in xs]


def lab(x):
    try:
        if isinstance(x, (bool, np.bool_)):
            return BADLABEL
        if isinstance(x, str) or float(x) != int(x):
            return BADLABEL
        return int(x) if abs(int(x)) < 2 ** 30 else BADLABEL
    except Exception:
        return BADLABEL


def labs(xs):
    return [lab(x) for x in xs]


def mat(df):
    return [nums(r) for r in pd.DataFrame(df).to_numpy(dtype=object)]


def frame(df, strcols=False):
    return {"o": labs(df.index), "d": [str(c) for c in df.columns] if strcols else labs(df.columns), "v": mat(df)}


def series(s):
    return {"idx": labs(s.index), "v": nums(s.values)}


def kind(t):
    import trikit.triangle as T
    if type(t) is T.IncrTriangle:
        return "incr"
    if type(t) is T.CumTriangle:
        return "cum"
    return type(t).__name__


def tri(t, ind=False):
    d = frame(t)
    d["kind"] = kind(t)
    d["names"] = [str(t.origin), str(t.dev), str(t.value)]
    if ind and d["kind"] == "cum":
        d["ind"] = indmat(t.a2aind)
    return d


def intmat(df):
    out = []
    for r in pd.DataFrame(df).to_numpy(dtype=object):
        out.append([lab(x) for x in r])
    return out


indmat = intmat


def table(df):
    return {"cols": [str(c) for c in df.columns],
            "rows": [[lab(r[0]), lab(r[1]), num(r[2])] for r in df.to_numpy(dtype=object)]}


def heading(h):
    m = re.match(r"^([0-9]+(?:\.[0-9]+)?)(.*)$", str(h))
    return [m.group(1), m.group(2)] if m else ["", str(h)]


def summary(df, cols=None):
    cols = [c for c in df.columns] if cols is None else cols
    return {"idx": [str(i) for i in df.index],
            "col": {str(c): ([str(v) for v in df[c]] if c == "maturity" else nums(df[c].values)) for c in cols}}


SUMM = ("maturity", "cldf", "emergence", "latest", "ultimate", "reserve", "std_error", "cv")


def qtable(df):
    """Quantile columns of a summary or of a quantile request."""
    cols = [c for c in df.columns if c not in SUMM]
    return {"h": [heading(c) for c in cols], "v": [nums(df[c].values) for c in cols]}


def safe(fn):
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return fn()
    except Exception as e:  # recorded, judged by the specification
        return {"exc": type(e).__name__}


def isexc(x):
    return isinstance(x, dict) and set(x) == {"exc"}


def canon(x):
    """Canonical, exact description of an answer (for digests)."""
    if isinstance(x, pd.DataFrame):
        return ["df", [canon(c) for c in x.columns], [canon(i) for i in x.index],
                [[canon(v) for v in r] for r in x.to_numpy(dtype=object)]]
    if isinstance(x, pd.Series):
        return ["s", str(x.name), [canon(i) for i in x.index], [canon(v) for v in x.values]]
    if isinstance(x, np.ndarray):
        return ["a", [canon(v) for v in x.ravel()]]
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if isinstance(x, dict):
        return sorted([str(k), canon(v)] for k, v in x.items())
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return num(x)
    if x is None or isinstance(x, str):
        return str(x)
    if hasattr(x, "dist") and hasattr(x, "args"):   # frozen scipy distribution
        return ["rv", x.dist.name, canon(x.args), canon(x.kwds)]
    return type(x).__name__


def digest(x):
    return hashlib.sha256(json.dumps(canon(x)).encode()).hexdigest()[:16]


def rngstate():
    """The global generators' states (numpy's and Python's)."""
    import random
    s = np.random.get_state()
    return hashlib.sha256(repr((s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())).encode()).hexdigest()[:12]


RESATTR = ("summary", "ldfs", "cldfs", "tail", "sel", "trisqrd", "emergence", "ultimate", "maturity", "reserve", "latest",
           "std_error", "mse", "cv", "alpha", "dist", "process_error", "parameter_error", "devpvar", "ldfvar", "rvs",
           "reserve_dist", "sims_data", "scale_param", "dof", "unscaled_residuals", "adjusted_residuals", "sampling_dist",
           "fitted_tri_cum", "fitted_tri_incr", "sims", "procdist", "parametric", "q", "interpolation")


def isresult(x):
    return hasattr(x, "summary") and hasattr(x, "trisqrd")


def contents(x):
    """Everything an answer says, canonically (results: all public figures)."""
    if isresult(x):
        return [type(x).__name__] + [[a, canon(getattr(x, a))] for a in RESATTR if hasattr(x, a)]
    if isinstance(x, pd.DataFrame) and hasattr(x, "to_tbl"):
        return [type(x).__name__, str(x.origin), str(x.dev), str(x.value), canon(pd.DataFrame(x))]
    return canon(x)


def cdigest(x):
    return hashlib.sha256(json.dumps(contents(x)).encode()).hexdigest()[:16]


class Trace:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0
        self.id = ""
        self.cases = 0
        self.ops = {}
        self.samples = []
        self.errors = 0

    def case(self, cid):
        self.id = cid
        self.cases += 1
        self.ev("case")

    def ev(self, op, **k):
        d = {"op": op, "case": self.id}
        d.update(k)
        self.f.write(json.dumps(d) + "\n")
        self.n += 1
        self.ops[op] = self.ops.get(op, 0) + 1
        if isexc(k.get("out")):
            self.errors += 1
        return d

    def close(self):
        self.f.close()
