-------------------------------- MODULE EvMore --------------------------------
(***************************************************************************)
(* Printed forms, agreement of methods, successive valuations.             *)
(***************************************************************************)
EXTENDS EvMisc

(***************************************************************************)
(* Printed forms (C25).  A printed table is recorded as its headings and,  *)
(* per line, the label and the cells' text: [t, v, dec, sep] (text, value  *)
(* as a numeral without separators, decimals shown, thousands separated).  *)
(***************************************************************************)
Pow10(k) == RPow(RI(10), k)
\* cell c shows the amount x with dec decimals (sep: thousands separated).
Shows(c, x, dec, sep) ==
    IF RIsNaN(x) THEN c.t \in {"NaN", "nan"}
    ELSE IF ~RIsFin(x) THEN RParse(c.v) = x
    ELSE LET y == RParse(c.v) IN
         /\ RIsFin(y) /\ c.dec = dec /\ (sep => c.sep)
         \* rounded to the decimals shown
         /\ RLe(RAbs(RSub(y, x)), RAdd(RDiv(RQ(1, 2), Pow10(dec)), RMul(RQ(1, 1000000000), RAbs(x))))
Decimals(c) == CASE c \in {"cldf", "emergence"} -> 5 [] c = "cv" -> 3 [] OTHER -> 0
Separated(c) == c \notin {"cldf", "emergence", "cv"}
PrintTriClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised.triangle." \o e.out.exc}
    ELSE LET f == b.tri  o == e.out  m == NRows(f)  n == NCols(f) IN
         UNION {Chk(p \o ".tri.same_forms", o.same),
                Chk(p \o ".tri.periods", o.head = [j \in 1..n |-> ToString(f.d[j])]),
                Chk(p \o ".tri.origins", [i \in 1..Len(o.rows) |-> o.rows[i].lab] = [i \in 1..m |-> ToString(f.o[i])]),
                Guard(Len(o.rows) = m /\ \A i \in 1..m : Len(o.rows[i].cells) = n, p \o ".tri.shape",
                      Chk(p \o ".tri.amounts", \A i \in 1..m : \A j \in 1..n : Shows(o.rows[i].cells[j], f.v[i][j], 0, TRUE)))}
\* Summaries: columns e.out.cols, figures e.out.fig (per column).
PrintSummaryClauses(p, e) ==
    IF Raised(e) THEN {p \o ".raised." \o e.method \o "." \o e.out.exc}
    ELSE LET o == e.out  n == Len(o.idx)  c == o.cols IN
         UNION {Chk(p \o "." \o e.method \o ".same_forms", o.same),
                Chk(p \o "." \o e.method \o ".headings", o.head = c),
                Chk(p \o "." \o e.method \o ".origins", [i \in 1..Len(o.rows) |-> o.rows[i].lab] = o.idx),
                Guard(Len(o.rows) = n /\ \A i \in 1..Len(o.rows) : Len(o.rows[i].cells) = Len(c), p \o "." \o e.method \o ".shape",
                      UNION {Chk(p \o "." \o e.method \o "." \o c[j], \A i \in 1..n :
                               IF c[j] = "maturity" THEN o.rows[i].cells[j].t = o.fig[j][i]
                               ELSE Shows(o.rows[i].cells[j], RParse(o.fig[j][i]), Decimals(c[j]), Separated(c[j]))) : j \in 1..Len(c)})}

(***************************************************************************)
(* Agreement of methods (C26).  e.out.est lists estimates of one triangle: *)
(*   [name, basis, tail, full, ldfs, cldf, latest, ultimate, reserve, sq,  *)
(*    errors]                                                              *)
(* basis names the average the factors stand for; full: the estimate's     *)
(* ultimates are by factor (not by simulation).                            *)
(***************************************************************************)
Basis(x) == CASE x.method = "base" -> x.sel
              [] x.method = "mack" -> (CASE x.a2 = 2 -> "all-weighted" [] x.a2 = 0 -> "all-simple" [] OTHER -> "mack")
              [] x.method = "boot" -> "all-weighted"
\* Development by the same factors for every origin.
Uniform(f) == LET a == A2A(f) IN
    \A j \in 1..NCols(a) : \A i \in Observed(a, j) : \A k \in Observed(a, j) : a.v[i][j] = a.v[k][j]
Solid1(v) == \A k \in 1..Len(v) : RIsFin(v[k])
Sq(x) == TLCEval([i \in 1..Len(x.sq) |-> RParseSeq(x.sq[i])])
AgreeClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET E == e.out.est  f == b.tri  n == NRows(f)
             L == TLCEval([k \in 1..Len(E) |-> RParseSeq(E[k].ldfs)])
             U == TLCEval([k \in 1..Len(E) |-> RParseSeq(E[k].ultimate)])
             S == TLCEval([k \in 1..Len(E) |-> Sq(E[k])])
             C == TLCEval([k \in 1..Len(E) |-> RParseSeq(E[k].cldf)])
             T == TLCEval([k \in 1..Len(E) |-> RParse(E[k].tail)])
             shape == \A k \in 1..Len(E) : Len(L[k]) = n /\ Len(U[k]) = n + 1 /\ Len(C[k]) = n + 1
                                           /\ Len(S[k]) = n /\ \A i \in 1..n : Len(S[k][i]) >= n
             uni == Uniform(f) /\ \A j \in 1..(n - 1) : \E i \in 1..(n - j) : b.ind[i][j] = 1
             known(k) == Solid1(SubSeq(L[k], 1, n - 1))
             pairs == {q \in (1..Len(E)) \X (1..Len(E)) : q[1] < q[2] /\ known(q[1]) /\ known(q[2])
                         /\ (uni \/ (Basis(E[q[1]]) = Basis(E[q[2]]) /\ Basis(E[q[1]]) # "mack"))}
             nm(q) == "." \o E[q[1]].name \o "." \o E[q[2]].name
         IN Guard(shape, p \o ".shape", UNION {UNION {
              Chk(p \o ".factors" \o nm(q), VecClose(SubSeq(L[q[1]], 1, n - 1), SubSeq(L[q[2]], 1, n - 1))),
              Chk(p \o ".latest" \o nm(q), E[q[1]].latest = E[q[2]].latest),
              Chk(p \o ".maturity" \o nm(q), E[q[1]].maturity = E[q[2]].maturity),
              Chk(p \o ".square" \o nm(q), \A i \in 1..n : VecClose(SubSeq(S[q[1]][i], 1, n), SubSeq(S[q[2]][i], 1, n))),
              \* a tail is a common factor of every ultimate
              Chk(p \o ".cumulative" \o nm(q), \A i \in 1..n : RClose(RMul(C[q[1]][i], T[q[2]]), RMul(C[q[2]][i], T[q[1]]))),
              IF E[q[1]].method # "boot" /\ E[q[2]].method # "boot"
              THEN Chk(p \o ".ultimate" \o nm(q), \A i \in 1..(n + 1) : RClose(RMul(U[q[1]][i], T[q[2]]), RMul(U[q[2]][i], T[q[1]]))) ELSE {}}
              : q \in pairs}
            \cup UNION {
              \* uniform development leaves no error
              IF uni /\ E[k].method = "mack" THEN
                LET se == RParseSeq(E[k].errors) IN
                Chk(p \o ".no_error." \o E[k].name, Len(se) = n + 1 /\ \A i \in 1..(n + 1) :
                      RIsFin(se[i]) /\ RLe(RAbs(se[i]), RMul(RQ(1, 1000000), RAbs(U[k][i]))))
              ELSE {} : k \in 1..Len(E)})

(***************************************************************************)
(* Successive valuations (C27).  Triangle e.h is an earlier valuation of   *)
(* triangle e.h2: the later has one more origin, period and diagonal.      *)
(***************************************************************************)
\* f: earlier, g: later frame.
LaterOf(g, f) ==
    LET n == NRows(f) IN
    /\ NRows(g) = n + 1 /\ NCols(g) = n + 1
    /\ SubSeq(g.o, 1, n) = f.o /\ SubSeq(g.d, 1, n) = f.d
    /\ \A i \in 1..n : \A j \in 1..(n + 1 - i) : g.v[i][j] = f.v[i][j]
\* e.out: figures of the two triangles read after both exist.
ExtendsClauses(p, e, b, c) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET o == e.out  f == b.tri  g == c.tri  n == NRows(f)
             a1 == RParseMat(o.a2a1.v)  a2 == RParseMat(o.a2a2.v)
             back == RParseSeq(o.back.v)  lat == RParseSeq(o.latest1.v)
             new == RParseSeq(o.latest2.v)  in2 == RParseMat(o.incr2.v)
         IN Guard(LaterOf(g, f), p \o ".cells", Guard(
              /\ Rect(a1, n - 1, n - 1) /\ Rect(a2, n, n) /\ Len(back) = n /\ Len(lat) = n /\ Len(new) = n + 1 /\ Rect(in2, n + 1, n + 1), p \o ".shape",
              UNION {
                Chk(p \o ".ratios", \A i \in 1..(n - 1) : \A j \in 1..(n - i) : a1[i][j] = a2[i][j]),
                Chk(p \o ".diagonal_back", back = lat /\ o.back.o = o.latest1.o /\ o.back.d = o.latest1.d),
                \* every origin is one period older
                Chk(p \o ".maturity", SubSeq(o.maturity2, 1, n) = [i \in 1..n |-> g.d[n + 2 - i]] /\ o.maturity1 = [i \in 1..n |-> f.d[n + 1 - i]]),
                Chk(p \o ".cells_added", o.nbr2 - o.nbr1 = n + 1),
                \* what came in during the period is the newest increments
                Chk(p \o ".emerged", \A i \in 1..n : RNear(in2[i][n + 2 - i], RSub(new[i], lat[i]), new[i]))}))
\* New amounts exactly as the average e.sel of the earlier triangle projects:
\* its factors and the origins' ultimates stay as they were.
ForeseenClauses(p, e, b, c) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET o == e.out  n == NRows(b.tri)
             l1 == RParseSeq(o.ldfs1)  l2 == RParseSeq(o.ldfs2)
             u1 == RParseSeq(o.ult1)  u2 == RParseSeq(o.ult2)
         IN Guard(LaterOf(c.tri, b.tri) /\ Len(l1) = n /\ Len(l2) = n + 1 /\ Len(u1) = n + 1 /\ Len(u2) = n + 2, p \o ".foreseen.shape", UNION {
              Chk(p \o ".foreseen.factors." \o e.sel, VecClose(SubSeq(l2, 1, n - 1), SubSeq(l1, 1, n - 1))),
              Chk(p \o ".foreseen.ultimate." \o e.sel, \A i \in 1..n : RClose(u2[i], u1[i]))})
==============================================================================
