-------------------------------- MODULE EvMisc --------------------------------
(***************************************************************************)
(* Reproducibility, purity, loading, invariance, rejection, exhibits, laws.*)
(***************************************************************************)
EXTENDS Session

(***************************************************************************)
(* Calls with history (C18, C19).  An event records the answer's digest,   *)
(* the global generator's state around the call, and what every live       *)
(* triangle and every kept answer look like afterwards.                    *)
(***************************************************************************)
CallClauses(p, e) ==
    UNION {
      Chk(p \o ".raised." \o e.call.fn, ~e.raised),
      Chk(p \o ".global_generator." \o e.call.fn, e.rng0 = e.rng1),
      Chk(p \o ".arguments." \o e.call.fn, e.args0 = e.args1),
      IF e.random \/ ~Answered(e.h, e.call) THEN {}
      ELSE Chk(p \o ".same_answer." \o e.call.fn, memo[KeyOf(e.h, e.call)] = e.ans),
      UNION {Chk(p \o ".triangle_changed." \o e.call.fn,
                 Live(e.snaps[k].h) => ObjSame(e.snaps[k], objs[e.snaps[k].h])) : k \in 1..Len(e.snaps)},
      UNION {Chk(p \o ".answer_changed." \o e.call.fn,
                 e.kept[k][1] \in DOMAIN kept => kept[e.kept[k][1]] = e.kept[k][2]) : k \in 1..Len(e.kept)}}
\* Answers of runs whose seeds differ, or without a seed, differ.
DifferClauses(p, e) == UNION {Chk(p \o ".distinct." \o e.why,
                              \A i \in 1..Len(e.ans) : \A j \in 1..Len(e.ans) : i # j => e.ans[i] # e.ans[j])}
\* The generator passed in supplied a residual for every observed cell and a
\* process draw for every other cell of every simulation.
DrawnClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.drawn"}
    ELSE LET c == NbrCells(b.tri)  n == NRows(b.tri) IN
         Chk(p \o ".only_source.residuals", e.out.other >= e.sims * c)
         \cup Chk(p \o ".only_source.process", e.out.gamma + e.out.other >= e.sims * n * n)
EqualClauses(p, e) == Chk(p \o ".equal." \o e.why, \A i \in 1..Len(e.ans) : e.ans[i] = e.ans[1])

(***************************************************************************)
(* Loading (C20).                                                          *)
(***************************************************************************)
RowsOut(p, e, want) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE Chk(p \o ".columns", e.out.cols = <<"origin", "dev", "value">>)
         \cup LET got == PRecs(e.out.rows) IN
         Chk(p \o ".records", Len(got) = Len(want) /\ \A k \in 1..Len(got) :
               got[k][1] = want[k][1] /\ got[k][2] = want[k][2] /\ RClose(got[k][3], want[k][3]))
LoadClauses(p, e) ==
    LET recs == PRecs(e.file) IN
    IF e.kind = "none" THEN RowsOut(p, e, recs)
    ELSE TriClauses(p, e.out, e.kind, <<"origin", "dev", "value">>, BuildFrame(e.kind, recs))
\* A database row: [lob, code, name, origin, dev, inc, paid, train].
LrdbSel(db, q) ==
    LET a == SelectSeq(db, LAMBDA r : q.lob = "*" \/ r.lob = q.lob)
        b == SelectSeq(a, LAMBDA r : q.code = -1 \/ r.code = q.code)
        c == SelectSeq(b, LAMBDA r : q.name = "*" \/ r.name = q.name)
    IN  [lob |-> a, code |-> b, name |-> c,
         all |-> IF q.train THEN SelectSeq(c, LAMBDA r : r.train = 1) ELSE c]
LrdbBad(db, q) ==
    LET s == LrdbSel(db, q) IN
    \/ q.loss \notin {"incurred", "paid", "i", "p"}
    \/ q.lob # "*" /\ s.lob = <<>>
    \/ q.code # -1 /\ s.code = <<>>
    \/ q.name # "*" /\ s.name = <<>>
    \/ q.kind \notin {"none", "cum", "incr"}
LrdbClauses(p, e) ==
    LET q == e.q IN
    IF LrdbBad(e.db, q) THEN Chk(p \o ".rejects", Raised(e) /\ e.out.exc = "ValueError")
    ELSE LET s == LrdbSel(e.db, q).all
             recs == TLCEval([k \in 1..Len(s) |->
                       <<s[k].origin, s[k].dev, RParse(IF q.loss \in {"incurred", "i"} THEN s[k].inc ELSE s[k].paid)>>])
         IN  IF q.kind = "none" THEN RowsOut(p, e, recs)
             ELSE TriClauses(p, e.out, q.kind, <<"origin", "dev", "value">>, BuildFrame(q.kind, recs))
ListClauses(p, e) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE CASE e.what = "datasets" -> Chk(p \o ".datasets", e.out.v = e.want /\ e.want # <<>>)
           [] e.what = "lobs" -> Chk(p \o ".lobs",
                  /\ Range1(e.out.v) = {e.db[k].lob : k \in 1..Len(e.db)}
                  /\ Len(e.out.v) = Cardinality(Range1(e.out.v))
                  /\ e.out.sorted)
           [] e.what = "specs" -> Chk(p \o ".specs",
                  /\ {<<r[1], r[2], r[3]>> : r \in Range1(e.out.v)} = {<<e.db[k].lob, e.db[k].code, e.db[k].name>> : k \in 1..Len(e.db)}
                  /\ Len(e.out.v) = Cardinality(Range1(e.out.v))
                  /\ e.out.cols = <<"loss_key", "grcode", "grname">>
                  /\ e.out.sorted
                  /\ \A k \in 1..(Len(e.out.v) - 1) : e.out.v[k][1] = e.out.v[k + 1][1] => e.out.v[k][2] <= e.out.v[k + 1][2])

(***************************************************************************)
(* Related runs (C21): e.one and e.two list [name, class, values]; class   *)
(* "money" scales with e.unit, "pure" stays, "text" is compared literally  *)
(* after the relabelling e.relabel (pairs <<label, label>>).               *)
(***************************************************************************)
Relab(e, x) == IF \E k \in 1..Len(e.relabel) : e.relabel[k][1] = x
               THEN e.relabel[CHOOSE k \in 1..Len(e.relabel) : e.relabel[k][1] = x][2] ELSE x
RelateClauses(p, e) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET u == RParse(e.unit)
             same == Len(e.out.one) = Len(e.out.two)
                     /\ \A k \in 1..Len(e.out.one) : e.out.one[k].name = e.out.two[k].name
         IN Guard(same, p \o ".shape",
            UNION {LET x == e.out.one[k]  y == e.out.two[k]  lab == p \o "." \o e.why \o "." \o x.name IN
               CASE x.class = "text" -> Chk(lab, y.v = [i \in 1..Len(x.v) |-> Relab(e, x.v[i])])
                 [] x.class = "pure" ->
                    LET a == RParseSeq(x.v)  c == RParseSeq(y.v) IN
                    Chk(lab, Len(a) = Len(c) /\ \A i \in 1..Len(a) : RNearTol(a[i], c[i], R0, 1, 10000000))
                 [] x.class = "money" ->
                    LET a == RParseSeq(x.v)  c == RParseSeq(y.v)  s == MaxAbs(c) IN
                    Chk(lab, Len(a) = Len(c) /\ \A i \in 1..Len(a) :
                          RNearTol(RMul(u, a[i]), c[i], RDiv(s, RI(100)), 1, 10000000))
               : k \in 1..Len(e.out.one)})

(***************************************************************************)
(* Requests (C22): which are admissible is defined here; an inadmissible   *)
(* one is refused with an error, an admissible one answered.               *)
(***************************************************************************)
InUnit(q) == \A i \in 1..Len(q) : RLe(R0, q[i]) /\ RLe(q[i], R1)
Admissible(e) ==
    LET r == e.req IN
    CASE r.what = "levels"     -> InUnit(RParseSeq(r.q))
      [] r.what = "offset"     -> r.offset <= 0 /\ r.offset > -NRows(objs[e.h].tri)
      [] r.what = "factors"    -> r.len = NRows(objs[e.h].tri) - 1
      [] r.what = "selection"  -> LET rows == AvgRows(A2A(objs[e.h].tri))
                                  IN  r.name \in {rows[k][1] : k \in 1..Len(rows)}
      [] r.what = "dist"       -> r.name \in {"norm", "lognorm"}
      [] r.what = "procdist"   -> r.name \in {"gamma", "Gamma", " gamma "}
      [] r.what = "interpolation" -> r.name \in {"linear", "lower", "higher", "midpoint", "nearest"}
      [] r.what = "glm"        -> FALSE
      [] r.what = "data_format" -> r.name \in {"incr", "cum", "incremental", "cumulative", "INCR", "Cum", " incr ", "i", "c"}
      [] r.what = "data_shape" -> r.name \in {"tabular", "triangle"}
      [] r.what = "columns"    -> {r.need[k] : k \in 1..Len(r.need)} \subseteq {r.have[k] : k \in 1..Len(r.have)}
      [] r.what = "frame"      -> r.isframe
      [] r.what = "dataset"    -> r.name \in {r.known[k] : k \in 1..Len(r.known)}
      [] r.what = "tri_type"   -> r.name \in {"cum", "incr"}
RequestClauses(p, e) ==
    LET tag == "." \o e.req.what \o "." \o e.call IN
    IF Admissible(e) THEN Chk(p \o ".refused" \o tag, ~e.raised) \cup
                          (IF Has(e, "answered") THEN Chk(p \o ".unanswered" \o tag, e.answered) ELSE {})
    ELSE Chk(p \o ".accepted" \o tag, e.raised)
         \cup (IF Has(e, "exc") /\ Has(e.req, "exc") THEN Chk(p \o ".error_kind" \o tag, e.exc = e.req.exc) ELSE {})
AfterClauses(p, e) == IF Has(e, "after") /\ Live(e.h)
                      THEN Chk(p \o ".triangle_changed", ObjSame(e.after, objs[e.h])) ELSE {}

(***************************************************************************)
(* Exhibits (C23).  A panel is [title, lines: [x, y, label]], in drawing   *)
(* order; numbers as recorded numerals.                                    *)
(***************************************************************************)
LineIs(ln, xs, ys) == /\ Len(ln.x) = Len(xs) /\ Len(ln.y) = Len(ys)
                      /\ VecClose(RParseSeq(ln.x), xs) /\ VecNear(RParseSeq(ln.y), ys)
Ints(s) == [i \in 1..Len(s) |-> RI(s[i])]
ObsCols(f, i) == SelectSeq([j \in 1..NCols(f) |-> j], LAMBDA j : Some(f.v[i][j]))
RowLine(f, i) == LET c == ObsCols(f, i) IN
    [x |-> [k \in 1..Len(c) |-> RI(f.d[c[k]])], y |-> [k \in 1..Len(c) |-> f.v[i][c[k]]]]
\* Triangle exhibits: one line per origin, in one panel or one panel each.
TriPlotClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.triangle." \o e.out.exc}
    ELSE LET f == b.tri  m == NRows(f)  P == e.out.panels IN
         IF e.display = "faceted" THEN
           UNION {Chk(p \o ".tri.panels", Len(P) = m),
                  Chk(p \o ".tri.lines", Len(P) = m => \A i \in 1..m : Len(P[i].lines) = 1
                        /\ LineIs(P[i].lines[1], RowLine(f, i).x, RowLine(f, i).y)),
                  Chk(p \o ".tri.titles", Len(P) = m => \A i \in 1..m : P[i].title = ToString(f.o[i])),
                  Chk(p \o ".tri.ticks", Len(P) = m => \A i \in 1..m : RParseSeq(P[i].xticks) = Ints(f.d))}
         ELSE Guard(Len(P) = 1, p \o ".tri.panels",
              LET L == P[1].lines IN
              UNION {Chk(p \o ".tri.lines", Len(L) = m /\ \A i \in 1..m : LineIs(L[i], RowLine(f, i).x, RowLine(f, i).y)),
                     Chk(p \o ".tri.labels", Len(L) = m /\ \A i \in 1..m : L[i].label = ToString(f.o[i])),
                     Chk(p \o ".tri.legend", P[1].legend = [i \in 1..m |-> ToString(f.o[i])]),
                     Chk(p \o ".tri.ticks", RParseSeq(P[1].xticks) = Ints(f.d))})

UltLabel(f) == LET n == NCols(f) IN f.d[n] + (f.d[2] - f.d[1])
\* Forecast line of origin i: latest observed amount, then projections, then
\* the ultimate.
ForecastLine(f, sq, i) ==
    LET n == NCols(f)  l == LastCol(f, i) IN
    [x |-> [k \in 1..(n - l + 2) |-> IF k <= n - l + 1 THEN RI(f.d[l + k - 1]) ELSE RI(UltLabel(f))],
     y |-> [k \in 1..(n - l + 2) |-> sq[i][l + k - 1]]]
\* Total of the forecast panels at each period (origins drawn there).
TotalLine(f, sq) ==
    LET n == NCols(f)
    IN [x |-> [j \in 1..(n + 1) |-> IF j <= n THEN RI(f.d[j]) ELSE RI(UltLabel(f))],
        y |-> [j \in 1..(n + 1) |-> IF j <= n
                 THEN RSumV([i \in 1..NRows(f) |-> IF LastCol(f, i) <= j THEN sq[i][j] ELSE RNaN])
                 ELSE RSum([i \in 1..NRows(f) |-> sq[i][n + 1]])]]
TicksOK(P, f) == LET n == NCols(f) IN
    /\ RParseSeq(P.xticks) = [j \in 1..(n + 1) |-> IF j <= n THEN RI(f.d[j]) ELSE RI(UltLabel(f))]
    /\ P.xlabels = [j \in 1..(n + 1) |-> IF j <= n THEN ToString(f.d[j]) ELSE "ult"]
BasePlotClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.base." \o e.out.exc}
    ELSE LET f == b.tri  m == NRows(f)  P == e.out.panels  sq == RParseMat(e.out.trisqrd.v)  n == NCols(f)
             fc(i) == ForecastLine(f, sq, i)
         IN Guard(Len(P) = m + 1 /\ \A i \in 1..m : Len(P[i].lines) = 2, p \o ".base.panels",
            UNION {
              Chk(p \o ".base.forecast", \A i \in 1..m : LineIs(P[i].lines[1], fc(i).x, fc(i).y)),
              Chk(p \o ".base.actual", \A i \in 1..m : LineIs(P[i].lines[2], RowLine(f, i).x, RowLine(f, i).y)),
              Chk(p \o ".base.hues", \A i \in 1..m : P[i].legend = <<"forecast", "actual">>),
              Chk(p \o ".base.names", \A i \in 1..(m + 1) :
                    P[i].note = IF i <= m THEN ToString(f.o[i]) ELSE "total"),
              Chk(p \o ".base.total", LET t == TotalLine(f, sq) IN
                    Len(P[m + 1].lines) >= 1 /\ LineIs(P[m + 1].lines[1], t.x, t.y)),
              Chk(p \o ".base.ticks", \A i \in 1..(m + 1) : TicksOK(P[i], f))})
\* Bootstrap: forecast, actual and the percentile bounds at each period,
\* from the simulations: e.out.sims[i][j] = ultimates of origin i at j.
BootPlotClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.boot." \o e.out.exc}
    ELSE LET f == b.tri  m == NRows(f)  n == NCols(f)  P == e.out.panels
             sq == RParseMat(e.out.trisqrd.v)
             q == RParse(e.q)
             u1 == RMul(RQ(1, 2), RSub(R1, q))  u2 == RMul(RQ(1, 2), RAdd(R1, q))
             ok(x, i, j, u) == LET t == RSort(RParseSeq(e.out.sims[i][IF j > n THEN n ELSE j])) IN QuantOK(x, t, u, "linear")
             fc(i) == ForecastLine(f, sq, i)
             bound(ln, i, u) ==
                LET l == LastCol(f, i)  y == RParseSeq(ln.y)  N == n - l + 2 IN
                /\ Len(y) = N /\ VecClose(RParseSeq(ln.x), fc(i).x)
                /\ RClose(y[1], fc(i).y[1])
                /\ \A k \in 2..N : ok(y[k], i, l + k - 1, u)
         IN Guard(Len(P) = m /\ \A i \in 1..m : Len(P[i].lines) = 4, p \o ".boot.panels",
            UNION {
              Chk(p \o ".boot.forecast", \A i \in 1..m : LineIs(P[i].lines[1], fc(i).x, fc(i).y)),
              Chk(p \o ".boot.actual", \A i \in 1..m : LineIs(P[i].lines[2], RowLine(f, i).x, RowLine(f, i).y)),
              Chk(p \o ".boot.lower", \A i \in 1..m : bound(P[i].lines[3], i, u1)),
              Chk(p \o ".boot.upper", \A i \in 1..m : bound(P[i].lines[4], i, u2)),
              Chk(p \o ".boot.hues", \A i \in 1..m : P[i].legend[1] = "forecast" /\ P[i].legend[2] = "actual"
                    /\ Len(P[i].legend) = 4
                    /\ RNearTol(RParse(e.out.hdrs[i][1]), RMul(RI(100), u1), R1, 1, 100000)
                    /\ RNearTol(RParse(e.out.hdrs[i][2]), RMul(RI(100), u2), R1, 1, 100000)),
              Chk(p \o ".boot.band", \A i \in 1..m : P[i].band = 1 /\ P[i].bandok),
              Chk(p \o ".boot.names", \A i \in 1..m : P[i].note = ToString(f.o[i])),
              Chk(p \o ".boot.ticks", \A i \in 1..m : TicksOK(P[i], f))})
\* A marker's label states its position.
MarkOK(mk, v) == LET a == RParse(mk.value)  x == RParse(v) IN              \* written to the unit
                 a = x \/ (RIsFin(a) /\ RIsFin(x) /\ RLe(RAbs(RSub(a, x)), RAdd(RQ(51, 100), RMul(RQ(1, 100000000), RAbs(x)))))
\* Histograms: bin heights count the simulated reserves in each bin.
HistClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.hist." \o e.out.exc}
    ELSE LET f == b.tri  m == NRows(f)  P == e.out.panels  R == RParseMat(e.out.reserve) IN
         Guard(Len(P) = m + 1, p \o ".hist.panels",
           UNION {
             Chk(p \o ".hist.names", \A i \in 1..(m + 1) : P[i].note = IF i <= m THEN ToString(f.o[i]) ELSE "total"),
             Chk(p \o ".hist.bins", \A i \in 1..(m + 1) : Len(P[i].heights) = e.bins /\ Len(P[i].edges) = e.bins + 1),
             Chk(p \o ".hist.counts", \A i \in 1..(m + 1) :
                   LET ed == RParseSeq(P[i].edges)  h == RParseSeq(P[i].heights)  k == Len(h)
                       sc == RMax(RAbs(ed[1]), RAbs(ed[k + 1]))
                       fuzzy == \E x \in Range1(R[i]) : \E z \in 2..k : RNear(x, ed[z], sc)   \* on an inner edge
                   IN  /\ RSum(h) = RI(Len(R[i]))
                       /\ (fuzzy \/ \A z \in 1..k : h[z] = RI(Cardinality({w \in 1..Len(R[i]) :
                              /\ RLe(ed[z], R[i][w]) \/ (z = 1 /\ RNear(ed[z], R[i][w], sc))
                              /\ IF z = k THEN RLe(R[i][w], ed[z + 1]) \/ RNear(ed[z + 1], R[i][w], sc)
                                 ELSE RLt(R[i][w], ed[z + 1])})))),
             Chk(p \o ".hist.median", \A i \in 1..(m + 1) :
                   LET med == Median(R[i])  v == RParseSeq(P[i].vlines) IN
                   Len(v) = 1 /\ RNear(v[1], RMax(med, R0), MaxAbs(R[i]))),
             Chk(p \o ".hist.median_label", \A i \in 1..(m + 1) :
                   Len(P[i].marks) = 1 /\ Len(P[i].vlines) = 1 /\ P[i].marks[1].name = "median"
                   /\ MarkOK(P[i].marks[1], P[i].vlines[1]))})
\* A drawn density is that of the distribution with mean r and deviation s.
TwoPi == RParse("6.283185307179586476925")
DensityOK(ln, dist, r, s) ==
    LET xs == RParseSeq(ln.x)  ys == RParseSeq(ln.y)
        s2 == IF dist = "norm" THEN RPow(s, 2) ELSE RLn(RAdd(R1, RPow(RDiv(s, r), 2)))
        mu == IF dist = "norm" THEN r ELSE RSub(RLn(r), RMul(RQ(1, 2), s2))
        z2(x) == RDiv(RPow(RSub(IF dist = "norm" THEN x ELSE RLn(x), mu), 2), s2)
        pdf(x) == RDiv(RExp(RMul(RQ(-1, 2), z2(x))),
                       RMul(RSqrt(RMul(TwoPi, s2)), IF dist = "norm" THEN R1 ELSE x))
    IN  /\ Len(xs) = Len(ys) /\ Len(xs) >= 2
        /\ \A k \in 1..Len(xs) : RNearTol(ys[k], pdf(xs[k]), RMul(pdf(xs[k]), RMax(R1, Slack(r, s))), 1, 1000000)
        /\ \A k \in 1..(Len(xs) - 1) : RLt(xs[k], xs[k + 1])
\* Mack: per origin with a distribution, and in total, the density with the
\* mean and percentile markers.  dens: pdf recomputed from reserve and error.
MackPlotClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.mack." \o e.out.exc}
    ELSE LET f == b.tri  m == NRows(f)  P == e.out.panels
             re == RParseSeq(e.out.reserve)  se == RParseSeq(e.out.std_error)
             u == Levels(RParseSeq(e.q), FALSE)
             \* the origins (and the total) having a distribution
             has(i) == Some(se[i]) /\ RLt(R0, se[i]) /\ (e.dist = "norm" \/ RLt(R0, re[i]))
             S == SelectSeq([i \in 1..(m + 1) |-> i], has)
         IN Guard(Len(P) = Len(S) /\ \A k \in 1..Len(S) : Len(P[k].lines) = 1 /\ Len(P[k].vlines) = Len(u) + 1, p \o ".mack.panels",
            UNION {
              Chk(p \o ".mack.names", \A k \in 1..Len(S) : P[k].note = IF S[k] <= m THEN ToString(f.o[S[k]]) ELSE "total"),
              Chk(p \o ".mack.mean", \A k \in 1..Len(S) : RNearTol(RParse(P[k].vlines[1]), re[S[k]], R0, 1, 10000000)),
              Chk(p \o ".mack.markers", \A k \in 1..Len(S) : \A z \in 1..Len(u) :
                    IsQuantile(RParse(P[k].vlines[z + 1]), e.dist, re[S[k]], se[S[k]], u[z])),
              Chk(p \o ".mack.mark_labels", \A k \in 1..Len(S) :
                    /\ Len(P[k].marks) = Len(u) + 1
                    /\ P[k].marks[1].name = "mean"
                    /\ \A z \in 1..Len(u) : OrdHeading(<<P[k].marks[z + 1].level, P[k].marks[z + 1].name>>, u[z])
                    /\ \A z \in 1..(Len(u) + 1) : MarkOK(P[k].marks[z], P[k].vlines[z])),
              Chk(p \o ".mack.range", \A k \in 1..Len(S) : LET x == P[k].lines[1].x IN
                    /\ IsQuantile(RParse(x[1]), e.dist, re[S[k]], se[S[k]], RQ(1, 1000))
                    /\ IsQuantile(RParse(x[Len(x)]), e.dist, re[S[k]], se[S[k]], RQ(999, 1000))),
              Chk(p \o ".mack.density", \A k \in 1..Len(S) :
                    DensityOK(P[k].lines[1], e.dist, re[S[k]], se[S[k]]))})

(***************************************************************************)
(* Mack diagnostics: four panels.                                          *)
(***************************************************************************)
\* Residuals of one group, standardized by their standard deviation.
StdResids(r) == LET k == Len(r)
                    s2 == RDiv(RSum([i \in 1..k |-> RMul(r[i], r[i])]), RI(k - 1))
                    c2 == RMul(s2, RQ(k - 1, k))
                IN  [i \in 1..k |-> <<r[i], c2>>]
IsStd(x, rc) == RNearTol(RMul(x, RSqrt(rc[2])), rc[1], RSqrt(rc[2]), 1, 1000000)
DiagnosticsClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.diagnostics." \o e.out.exc}
    ELSE LET f == b.tri  n == NRows(f)  P == e.out.panels  sq == RParseMat(e.out.trisqrd.v)
             ldf == RParseSeq(e.out.ldfs.v)
             re == RParseSeq(e.out.reserve)  se == RParseSeq(e.out.std_error)
             rz(i, j) == RSub(RMul(f.v[i][j], ldf[j]), f.v[i][j + 1])   \* fitted less actual
             \* by period: x = period (from), origins having the next amount
             byd == Flat([j \in 1..(n - 2) |-> LET s == StdResids([i \in 1..(n - j) |-> rz(i, j)]) IN
                       [i \in 1..(n - j) |-> <<f.d[j], s[i]>>]])
             byo == Flat([i \in 1..(n - 1) |-> LET s == StdResids([j \in 1..(n - i) |-> rz(i, j)]) IN
                       [j \in 1..(n - i) |-> <<f.o[i], s[j]>>]])
             pts(pan, want) ==
                LET y == RParseSeq(pan.py)  x == RParseSeq(pan.px) IN
                /\ Len(y) = Len(want) /\ Len(x) = Len(want)
                /\ \A k \in 1..Len(want) : x[k] = RI(want[k][1])
                      /\ (want[k][2][2] = R0 \/ ~RIsFin(want[k][2][2]) \/ IsStd(y[k], want[k][2]))
             has == Some(se[n + 1]) /\ RLt(R0, se[n + 1]) /\ (e.dist = "norm" \/ RLt(R0, re[n + 1]))
         IN Guard(Len(P) = 4 /\ Len(P[1].lines) = (IF has THEN 1 ELSE 0) /\ Len(P[2].lines) = n, p \o ".diag.panels", UNION {
              Chk(p \o ".diag.density", has => DensityOK(P[1].lines[1], e.dist, re[n + 1], se[n + 1])),
              Chk(p \o ".diag.mean", Len(P[1].vlines) = 1 /\ RClose(RParse(P[1].vlines[1]), re[n + 1])
                    /\ Len(P[1].marks) = 1 /\ P[1].marks[1].name = "mean total reserve" /\ MarkOK(P[1].marks[1], P[1].vlines[1])),
              Chk(p \o ".diag.legend", P[2].legend = [i \in 1..n |-> ToString(f.o[i])]),
              Chk(p \o ".diag.development", \A i \in 1..n :
                    LineIs(P[2].lines[i], Ints(f.d), sq[i]) /\ P[2].lines[i].label = ToString(f.o[i])),
              Chk(p \o ".diag.by_period", pts(P[3], byd)),
              Chk(p \o ".diag.by_origin", pts(P[4], SelectSeq(byo, LAMBDA w : TRUE)))})

\* Option handling: an output path gets the exhibit and nothing is shown.
SavedClauses(p, e) == Chk(p \o ".saved." \o e.what, ~e.raised /\ e.file /\ e.shown = 0)
ShownClauses(p, e) == Chk(p \o ".shown." \o e.what, ~Raised(e) => e.shown = 1)
NoChangeClauses(p, e) == UNION {Chk(p \o ".triangle_changed", Live(e.h) => ObjSame(e.after, objs[e.h])),
                                Chk(p \o ".result_changed", e.dig0 = e.dig1)}

(***************************************************************************)
(* Laws (C24): counts per class against probabilities, and moments, within *)
(* six standard deviations.                                                *)
(***************************************************************************)
\* counts k_i of total N with probabilities w_i / W.
LawCounts(e) ==
    LET k == RParseSeq(e.counts)  w == RParseSeq(e.weights)  N == RSum(k)  W == RSum(w)
        df == Len(k) - 1
        chi == RSum([i \in 1..Len(k) |-> LET ex == RDiv(RMul(N, w[i]), W) IN RDiv(RPow(RSub(k[i], ex), 2), ex)])
        dev == RSub(chi, RI(df))
    IN  \* chi-square has mean df and variance 2 df; its right tail is heavier
        \* than normal's, hence the additive margin.
        RLe(dev, RAdd(RMul(RI(6), RSqrt(RI(2 * df))), RI(36)))
LawClauses(p, e) ==
    CASE e.what = "counts" -> Chk(p \o "." \o e.why, Len(e.counts) = Len(e.weights) /\ LawCounts(e))
      [] e.what = "moment" -> \* |mean - expected| <= 6 * se
           Chk(p \o "." \o e.why, RLe(RAbs(RSub(RParse(e.got), RParse(e.want))), RMul(RI(6), RParse(e.se))))
      [] e.what = "worst" -> \* the largest of many standardised sums of bounded products
           Chk(p \o "." \o e.why, RLe(RParse(e.got), RQ(21, 2)))
      [] e.what = "flag" -> Chk(p \o "." \o e.why, e.ok)
==============================================================================
