--------------------------------- MODULE MCPlot --------------------------------
(***************************************************************************)
(* Exhaustive model of exhibits: a triangle, possibly with one ratio        *)
(* excluded, an exhibit and its options, chosen step by step.  The          *)
(* invariants state what the drawn lines have in common: actual and         *)
(* forecast meet at the latest amount and together cover every period once; *)
(* the total is the sum of the panels; every panel's lines end at the       *)
(* ultimate.  Every combination is drawn by the real library and read back. *)
(***************************************************************************)
EXTENDS EvMisc, Json
VARIABLES shape, cut, what, opt, step

N == 4
Rows4 == << <<<<100, 150, 180, 190>>, <<110, 165, 190>>, <<90, 150>>, <<120>>>>,
            <<<<100, 90, 120, 130>>, <<50, 100, 140>>, <<70, 95>>, <<60>>>>,
            <<<<8, 18, 20, 21>>, <<8, 12, 16>>, <<4, 7>>, <<16>>>>,
            <<<<1000, 1100, 1050, 1300>>, <<900, 950, 1200>>, <<1200, 1150>>, <<1000>>>> >>
\* The ratios that may be excluded leaving each period one at least.
Cuts == <<<<0, 0>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<1, 2>>, <<2, 2>>>>
Whats == {"combined", "faceted", "base", "boot", "hist", "mack", "diag"}
Opts == [combined |-> 1, faceted |-> 1, base |-> 6, boot |-> 6, hist |-> 3, mack |-> 8, diag |-> 2]
Init == SInit /\ shape = 0 /\ cut = 0 /\ what = "-" /\ opt = 0 /\ step = 0
Next == /\ step < 4 /\ step' = step + 1
        /\ CASE step = 0 -> shape' \in 1..Len(Rows4) /\ UNCHANGED <<cut, what, opt>>
             [] step = 1 -> cut' \in 1..Len(Cuts) /\ UNCHANGED <<shape, what, opt>>
             [] step = 2 -> what' \in Whats /\ UNCHANGED <<shape, cut, opt>>
             [] step = 3 -> opt' \in 1..Opts[what] /\ UNCHANGED <<shape, cut, what>>
Spec == Init /\ [][Next /\ Look]_<<shape, cut, what, opt, step, svars>>
Cut == step >= 2
Done == step = 4

F == MkFrame([i \in 1..N |-> 2000 + i], [j \in 1..N |-> j],
             LAMBDA i, j : IF j <= N + 1 - i THEN RI(Rows4[shape][i][j]) ELSE RNaN)
A == A2A(F)
Ind == MkMat(N - 1, N - 1, LAMBDA i, j : IF i + j <= N /\ <<i, j>> # Cuts[cut] THEN 1 ELSE 0)
Tails == {R1, RQ(11, 10)}
Ldf(t, tail) == TLCEval([j \in 1..N |-> IF j = N THEN tail ELSE Average(F, A, Ind, t, 0, j)])
Squares == {SquareUlt(F, Ldf(t, tail)) : t \in {"simple", "weighted"}, tail \in Tails}

\* Observed and forecast meet and cover the periods and the ultimate.
Meet == Cut => LET f == F IN \A sq \in Squares : \A i \in 1..N :
    LET a == RowLine(f, i)  c == ForecastLine(f, sq, i)  k == Len(a.x) IN
    /\ c.x[1] = a.x[k] /\ c.y[1] = a.y[k]
    /\ a.x \o Tail(c.x) = [j \in 1..(N + 1) |-> IF j <= N THEN RI(f.d[j]) ELSE RI(UltLabel(f))]
    /\ a.y \o Tail(c.y) = sq[i]
    /\ c.y[Len(c.y)] = sq[i][N + 1]
    /\ Len(a.x) + Len(c.x) = N + 2
\* The oldest origin has but its tail to come, the newest one amount behind.
Extremes == Cut => LET f == F IN \A sq \in Squares :
    /\ Len(ForecastLine(f, sq, 1).x) = 2 /\ Len(RowLine(f, 1).x) = N
    /\ Len(ForecastLine(f, sq, N).x) = N + 1 /\ Len(RowLine(f, N).x) = 1
\* The total at a period is that of the forecast panels drawn there.
PanelTotals == Cut => LET f == F IN \A sq \in Squares :
    LET t == TotalLine(f, sq)
        at(i, x) == LET c == ForecastLine(f, sq, i)
                        k == SelectSeq([z \in 1..Len(c.x) |-> z], LAMBDA z : c.x[z] = x)
                    IN  IF k = <<>> THEN R0 ELSE c.y[k[1]] IN
    /\ \A z \in 1..(N + 1) : t.y[z] = RSum([i \in 1..N |-> at(i, t.x[z])])
    /\ RSub(t.y[N + 1], RSum([i \in 1..N |-> Latest(f, i)])) = RSum([i \in 1..N |-> RSub(sq[i][N + 1], Latest(f, i))])
\* Exclusion moves no drawn observation and only the periods after it.
OnlyAhead == Cut => LET f == F  full == FullInd(A) IN \A sq \in {SquareUlt(f, Ldf("weighted", R1))} :
    LET s0 == SquareUlt(f, [j \in 1..N |-> IF j = N THEN R1 ELSE Average(f, A, full, "weighted", 0, j)]) IN
    /\ \A i \in 1..N : RowLine(f, i) = RowLine(F, i)
    /\ \A i \in 1..N : \A j \in 1..Cuts[cut][2] : sq[i][j] = s0[i][j]
\* Residuals shown by diagnostics: one per ratio, by period but the last.
Shown == Cut => LET f == F IN
    /\ Cardinality({<<i, j>> \in (1..N) \X (1..(N - 2)) : j <= N - i}) = NbrCells(f) - N - 1
    /\ \A j \in 1..(N - 2) : LET l == Ldf("weighted", R1)
                                 r == [i \in 1..(N - j) |-> RSub(RMul(f.v[i][j], l[j]), f.v[i][j + 1])]
                                 s == StdResids(r)
                                 c2 == s[1][2] IN
         \* the weighted factor leaves no residual in total
         /\ cut = 1 => RSum(r) = R0
         /\ RLe(R0, c2) /\ (c2 = R0) <=> \A i \in 1..Len(r) : r[i] = R0
         \* standardised, the squares sum to their degrees of freedom
         /\ c2 # R0 => RDiv(RSum([i \in 1..Len(r) |-> RMul(r[i], r[i])]), c2) = RQ(Len(r) * (Len(r) - 1), Len(r) - 1)
Emit == Done => PrintT("IN " \o ToJson([rows |-> Rows4[shape], cut |-> Cuts[cut], what |-> what, opt |-> opt]))
==============================================================================
