-------------------------------- MODULE MCRelate ------------------------------
(***************************************************************************)
(* Exhaustive model of related runs: every combination of a change of unit,*)
(* a shift of origin labels, a relabelling of periods and an order of the  *)
(* records, for every method.  The invariants state the symmetries on the  *)
(* specification itself; every combination is replayed.                    *)
(***************************************************************************)
EXTENDS EvMisc, Json
CONSTANTS Shapes
VARIABLES cfg, shape, step

AllShapes == 1..4
N == 4
Units == <<R1, RI(10), RQ(1, 100), RI(1000)>>
Shifts == <<0, -1, 20>>
Periods == <<<<1, 1>>, <<12, 12>>, <<0, 1>>, <<3, 2>>>>
Methods4 == <<"tri", "base", "mack", "boot">>
None == [unit |-> -1, origin |-> -1, period |-> -1, order |-> -1, method |-> "-"]
Init == SInit /\ cfg = None /\ shape \in Shapes /\ step = 0
Next == /\ step < 5 /\ step' = step + 1 /\ UNCHANGED shape
        /\ CASE step = 0 -> \E u \in 0..3 : cfg' = [cfg EXCEPT !.unit = u]
             [] step = 1 -> \E u \in 0..2 : cfg' = [cfg EXCEPT !.origin = u]
             [] step = 2 -> \E u \in 0..3 : cfg' = [cfg EXCEPT !.period = u]
             [] step = 3 -> \E u \in 0..1 : cfg' = [cfg EXCEPT !.order = u]
             [] step = 4 -> \E m \in 1..4 : cfg' = [cfg EXCEPT !.method = Methods4[m]]
Spec == Init /\ [][Next /\ Look]_<<cfg, shape, step, svars>>
Done == step = 5

Rows4 == << <<<<100, 150, 180, 190>>, <<110, 165, 190>>, <<90, 150>>, <<120>>>>,
            <<<<100, 90, 120, 130>>, <<50, 100, 140>>, <<70, 95>>, <<60>>>>,
            <<<<8, 18, 20, 21>>, <<8, 12, 16>>, <<4, 7>>, <<16>>>>,
            <<<<1000, 1100, 1050, 1300>>, <<900, 950, 1200>>, <<1200, 1150>>, <<800>>>> >>
Cell(i, j) == IF j <= N + 1 - i THEN RI(Rows4[shape][i][j]) ELSE RNaN
One == MkFrame([i \in 1..N |-> 1990 + i], [j \in 1..N |-> j], Cell)
U == Units[cfg.unit + 1]
OL(i) == 1990 + i + Shifts[cfg.origin + 1]
DL(j) == Periods[cfg.period + 1][1] + Periods[cfg.period + 1][2] * (j - 1)
Two == MkFrame([i \in 1..N |-> OL(i)], [j \in 1..N |-> DL(j)], LAMBDA i, j : RMul(U, Cell(i, j)))
TwoRecs == LET r == DiffRecs(Two) IN IF cfg.order = 0 THEN r ELSE Reverse(r)

Rebuilt == Done => CumFrame(TwoRecs) = Two
SameRatios == Done => /\ A2A(Two).v = A2A(One).v
                      /\ Len(A2A(Two).o) = N - 1 /\ \A i \in 1..(N - 1) : A2A(Two).o[i] = OL(i) /\ A2A(Two).d[i] = DL(i)
SameAverages == Done => LET a == A2A(One)  b == A2A(Two)  i1 == FullInd(a) IN
   \A k \in 1..Len(AvgRows(a)) : LET r == AvgRows(a)[k] IN r[2] # "geometric" =>
     \A j \in 1..(N - 1) : Average(One, a, i1, r[2], r[3], j) = Average(Two, b, i1, r[2], r[3], j)
W(f) == TLCEval([j \in 1..N |-> IF j = N THEN R1 ELSE Weighted(f, A2A(f), FullInd(A2A(f)), j, 0)])
ScaledSquare == Done => /\ W(One) = W(Two)
                        /\ SquareUlt(Two, W(Two)) = MkMat(N, N + 1, LAMBDA i, j : RMul(U, SquareUlt(One, W(One))[i][j]))
MackScales == Done =>
   LET a == A2A(One)  ind == FullInd(a)  l == W(One)
       v1 == MackVar(One, a, ind, 2, l)  v2 == MackVar(Two, A2A(Two), ind, 2, l) IN
   \A j \in 1..(N - 1) : v2[j] = RMul(U, v1[j])
TestsSame == Done => /\ DevpCorr(A2A(One)) = DevpCorr(A2A(Two)) /\ CyTotals(A2A(One)) = CyTotals(A2A(Two))
FitScales == Done => LET l == W(One) IN
   FitCum(Two, l) = MkMat(N, N, LAMBDA i, j : RMul(U, FitCum(One, l)[i][j]))
Emit == Done => PrintT("IN " \o ToJson([unit |-> cfg.unit, origin |-> cfg.origin, period |-> cfg.period, order |-> cfg.order,
                                        method |-> cfg.method, shape |-> shape]))
==============================================================================
