--------------------------------- MODULE MCGrow --------------------------------
(***************************************************************************)
(* Exhaustive model of successive valuations: a triangle begins with one   *)
(* origin; each valuation adds one amount to every origin and a new origin.*)
(* The amounts develop by freely chosen ratios, or exactly as an average   *)
(* of the triangle so far projects.  Invariants: earlier valuations are    *)
(* contained in later ones; development as foreseen changes no factor and  *)
(* no ultimate; uniform development makes all averages coincide and leaves *)
(* no error.  Every history is replayed.                                   *)
(***************************************************************************)
EXTENDS EvMore, Json
CONSTANTS N, Ratios, FreeOnly
VARIABLES vals

Halves == {<<1, 1>>, <<3, 2>>}
Three == {<<1, 1>>, <<3, 2>>, <<2, 1>>}
Firsts == <<64, 192, 128, 320, 64, 256>>
Avgs == {"simple", "weighted"}

Lb(n) == [i \in 1..n |-> i]
RowsFrame(R) == LET n == Len(R) IN MkFrame(Lb(n), Lb(n), LAMBDA i, j : IF j <= Len(R[i]) THEN R[i][j] ELSE RNaN)
Fac(f, t) == LET n == NCols(f)  a == A2A(f) IN
    TLCEval([j \in 1..n |-> IF j = n THEN R1 ELSE Average(f, a, FullInd(a), t, 0, j)])
\* Amounts after the valuations vs, as rows.
RECURSIVE Rows(_)
Rows(vs) ==
    IF vs = <<>> THEN <<<<RI(Firsts[1])>>>>
    ELSE LET R == Rows(SubSeq(vs, 1, Len(vs) - 1))  v == vs[Len(vs)]  n == Len(R)
             last(i) == R[i][Len(R[i])]
             step(i) == IF v.kind = "free" THEN RMul(last(i), RQ(v.r[i][1], v.r[i][2]))
                        ELSE RMul(last(i), Fac(RowsFrame(R), v.kind)[Len(R[i])])
         IN  TLCEval([i \in 1..(n + 1) |-> IF i <= n THEN Append(R[i], step(i)) ELSE <<RI(Firsts[n + 1])>>])
F == RowsFrame(Rows(vals))
Earlier(k) == RowsFrame(Rows(SubSeq(vals, 1, k)))
Complete == Len(vals) = N - 1

Init == SInit /\ vals = <<>>
Free == \E r \in [1..(Len(vals) + 1) -> Ratios] : vals' = Append(vals, [kind |-> "free", r |-> r])
Foreseen == Len(vals) >= 2 /\ ~FreeOnly /\ \E t \in Avgs : vals' = Append(vals, [kind |-> t, r |-> <<>>])
Next == ~Complete /\ (Free \/ Foreseen) /\ Look
Spec == Init /\ [][Next]_<<vals, svars>>

Contained == \A k \in 0..(Len(vals) - 1) : LET f == Earlier(k) IN
    /\ k = Len(vals) - 1 => LaterOf(F, f)
    /\ LET d == DiagRows(F, k - Len(vals)) IN
       [q \in 1..Len(d) |-> F.v[d[q][1]][d[q][2]]] = [i \in 1..NRows(f) |-> Latest(f, i)]
    /\ \A i \in 1..NRows(f) : LastCol(F, i) = LastCol(f, i) + Len(vals) - k
RatiosContained == vals # <<>> => LET f == Earlier(Len(vals) - 1)  a == A2A(f)  c == A2A(F) IN
    \A i \in 1..NRows(a) : \A j \in 1..NCols(a) : Some(a.v[i][j]) => c.v[i][j] = a.v[i][j]
Emerged == vals # <<>> => LET f == Earlier(Len(vals) - 1)  x == ToIncr(F) IN
    \A i \in 1..NRows(f) : x.v[i][LastCol(F, i)] = RSub(Latest(F, i), Latest(f, i))
AsForeseen == (vals # <<>> /\ vals[Len(vals)].kind # "free") =>
    LET f == Earlier(Len(vals) - 1)  n == NRows(f)  t == vals[Len(vals)].kind
        l == Fac(f, t)  m == Fac(F, t)  u == SquareUlt(f, l)  w == SquareUlt(F, m) IN
    /\ SubSeq(m, 1, n - 1) = SubSeq(l, 1, n - 1)
    /\ \A i \in 1..n : w[i][n + 2] = u[i][n + 1]
\* A further averages of the same window, too: a window reaching the new
\* ratio moves towards it.
UniformLaws == (Len(vals) >= 1 /\ Uniform(F)) =>
    LET f == F  a == A2A(f)  ind == FullInd(a)  rows == AvgRows(a)  n == NRows(f) IN
    /\ \A k \in 1..Len(rows) : \A j \in 1..(n - 1) :
         IF rows[k][2] = "geometric" THEN AvgOK(a.v[1][j], f, a, ind, "geometric", rows[k][3], j)
         ELSE LET x == Average(f, a, ind, rows[k][2], rows[k][3], j) IN
              x = a.v[1][j] \/ (rows[k][2] = "medial" /\ RIsNaN(x))
    /\ n >= 4 => \A a2 \in {0, 2, 4} :
         LET l == TLCEval([j \in 1..n |-> IF j = n THEN R1 ELSE MackFactor(f, a, ind, a2, j)])
             v == MackVar(f, a, ind, a2, l) IN
         /\ \A j \in 1..(n - 1) : l[j] = a.v[1][j] /\ v[j] = R0
         /\ \A i \in 1..n : SquareUlt(f, l)[i][n + 1] = RMul(f.v[i][1], CumFactor(l, 1))
Emit == Complete => PrintT("IN " \o ToJson([vals |-> vals]))
==============================================================================
