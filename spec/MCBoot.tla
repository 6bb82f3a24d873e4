--------------------------------- MODULE MCBoot -------------------------------
(***************************************************************************)
(* Exhaustive model of one bootstrap simulation of 3 x 3 triangles: the    *)
(* residual of every observed cell is chosen, one after another, among the *)
(* residuals of the sampling distribution (choice 0, "no residual", is     *)
(* explored by the model only), then the process draw of every forecast    *)
(* cell as a multiple of its mean.  Every complete choice is a state: the  *)
(* model's simulation must satisfy every clause real simulations are       *)
(* judged by (SimClauses), and the laws below; the choices are replayed    *)
(* into the real library by a scripted generator.                          *)
(***************************************************************************)
EXTENDS EvBoot, Json
CONSTANTS Shapes, Picks, Gammas
VARIABLES shape, picks, gams

AllShapes == 1..4
OneTwo == {1, 2}
UpTo2 == 0..2
UpTo4 == 0..4
Means == {2}
AllG == 1..3
G == <<RQ(1, 10), R1, RI(3)>>
N == 3
\* Rising, falling, with a negative increment, strongly developing.
Rows == << <<<<100, 150, 180>>, <<110, 190>>, <<90>>>>,
           <<<<100, 90, 80>>, <<110, 95>>, <<120>>>>,
           <<<<40, 100, 70>>, <<60, 50>>, <<200>>>>,
           <<<<1000, 4000, 4400>>, <<800, 2900>>, <<1500>>>> >>
Lb == [i \in 1..N |-> i]
Fm(s) == MkFrame(Lb, Lb, LAMBDA i, j : IF j <= N + 1 - i THEN RI(Rows[s][i][j]) ELSE RNaN)
\* The fit, its residuals and scale, per shape.
Ldf(f) == TLCEval([j \in 1..N |-> IF j = N THEN R1 ELSE Weighted(f, A2A(f), FullInd(A2A(f)), j, 0)])
Pearson(f, fi) == LET m == ResidNum(f, fi) IN
   MkMat(N, N, LAMBDA i, j : IF RIsNaN(m[i][j]) THEN RNaN ELSE RDiv(m[i][j], RSqrt(RAbs(fi[i][j]))))
Fit == TLCEval([s \in AllShapes |->
   LET f == Fm(s)  l == Ldf(f)  fi == Diffs(FitCum(f, l))  us == Pearson(f, fi)
       fac == RSqrt(RQ(NbrCells(f), DegFree(f)))
       cells == <<<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>>>
       adj == [k \in 1..4 |-> RMul(fac, us[cells[k][1]][cells[k][2]])]
   IN [f |-> f, ldf |-> l, fi |-> fi, phi |-> RDiv(SumSq(us), RI(DegFree(f))),
       dist |-> SelectSeq(adj, LAMBDA x : x # R0)]])
Cells == <<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<3, 1>>>>
Fore == <<<<2, 3>>, <<3, 2>>, <<3, 3>>>>
No(cs, c) == CHOOSE k \in 1..Len(cs) : cs[k] = c

Init == shape \in Shapes /\ picks = <<>> /\ gams = <<>>
Draw == Len(picks) < 6 /\ \E p \in Picks : p <= Len(Fit[shape].dist) /\ picks' = Append(picks, p) /\ UNCHANGED <<shape, gams>>
Process == Len(picks) = 6 /\ Len(gams) < 3 /\ \E g \in Gammas : gams' = Append(gams, g) /\ UNCHANGED <<shape, picks>>
Next == Draw \/ Process
Spec == Init /\ [][Next]_<<shape, picks, gams>>
Complete == Len(gams) = 3

X == Fit[shape]
Res(i, j) == LET p == picks[No(Cells, <<i, j>>)] IN IF p = 0 THEN R0 ELSE X.dist[p]
\* The simulation.
Sim ==
  LET seen(i, j) == j <= N + 1 - i
      inc == MkMat(N, N, LAMBDA i, j : IF ~seen(i, j) THEN RNaN ELSE IF j = 1 /\ RLt(X.fi[i][j], R0) THEN R1 ELSE X.fi[i][j])
      rs == MkMat(N, N, LAMBDA i, j : IF seen(i, j) THEN Res(i, j) ELSE RNaN)
      s0 == TLCEval(MkMat(N, N, LAMBDA i, j : IF seen(i, j) THEN RAdd(inc[i][j], RMul(rs[i][j], RSqrt(RAbs(inc[i][j])))) ELSE RNaN))
      c0 == TLCEval(MkMat(N, N, LAMBDA i, j : IF seen(i, j) THEN RSum(SubSeq(s0[i], 1, j)) ELSE RNaN))
      fac == TLCEval([j \in 1..N |-> IF j = N THEN RNaN ELSE RDiv(RSum([k \in 1..(N - j) |-> c0[k][j + 1]]), RSum([k \in 1..(N - j) |-> c0[k][j]]))])
      sc == TLCEval(Square(MkFrame(Lb, Lb, LAMBDA i, j : c0[i][j]), fac))
      si == TLCEval(MkMat(N, N, LAMBDA i, j : IF seen(i, j) THEN s0[i][j] ELSE RSub(sc[i][j], sc[i][j - 1])))
      fin == TLCEval(MkMat(N, N, LAMBDA i, j : IF seen(i, j) THEN s0[i][j]
                 ELSE IF Len(gams) < 3 THEN si[i][j] ELSE RMul(si[i][j], G[gams[No(Fore, <<i, j>>)]])))
      ult == TLCEval(MkMat(N, N, LAMBDA i, j : RSum(SubSeq(fin[i], 1, j))))
      lat == MkMat(N, N, LAMBDA i, j : IF i > 1 /\ j >= N + 1 - i THEN sc[i][N + 1 - i] ELSE RNaN)
  IN [inc |-> inc, rs |-> rs, si |-> si, sc |-> sc, fac |-> fac, fin |-> fin, ult |-> ult, lat |-> lat,
      res |-> MkMat(N, N, LAMBDA i, j : IF i > 1 /\ j >= N + 1 - i THEN RSub(ult[i][j], lat[i][j]) ELSE RNaN)]
Sane == \A j \in 1..(N - 1) : RIsFin(Sim.fac[j])

Shown(x) == IF RIsNaN(x) THEN "nan" ELSE RShow(x)
Str(m) == [i \in 1..N |-> [j \in 1..N |-> Shown(m[i][j])]]
AsLogged(s) == [rectype |-> [i \in 1..N |-> [j \in 1..N |-> IF j <= N + 1 - i THEN "actual" ELSE "forecast"]],
   incr |-> Str(s.inc), resid |-> Str(s.rs), samp_incr |-> Str(s.si), samp_cum |-> Str(s.sc),
   ldf |-> [i \in 1..N |-> [j \in 1..N |-> Shown(s.fac[j])]],
   final_incr |-> Str(s.fin), ultimate |-> Str(s.ult), latest |-> Str(s.lat), reserve |-> Str(s.res), ok |-> TRUE]
\* (the residuals in the precision of the logged ones)
Seen(d) == [k \in 1..Len(d) |-> RParse(RShow(d[k]))]
Judged == (Complete /\ Sane /\ \A k \in 1..6 : picks[k] > 0) =>
   SimClauses("C", AsLogged(Sim), X.f, X.fi, Seen(X.dist), X.phi) = {}
\* Without residuals the pseudo-triangle is the fit, whose factors are the
\* triangle's: the forecast is the chain ladder's.
Neutral == (Complete /\ \A k \in 1..6 : picks[k] = 0) =>
   LET s == Sim  sq == Square(X.f, X.ldf) IN
   /\ \A j \in 1..(N - 1) : s.fac[j] = X.ldf[j]
   /\ \A i \in 1..N : s.sc[i][N] = sq[i][N]
   /\ (\A k \in 1..3 : gams[k] = 2) => \A i \in 2..N : s.res[i][N] = RSub(sq[i][N], Latest(X.f, i))
\* Mean process draws: the reserve is the projected excess.
MeanDraws == (Complete /\ Sane /\ \A k \in 1..3 : gams[k] = 2) =>
   LET s == Sim IN \A i \in 2..N : s.res[i][N] = RSub(s.sc[i][N], s.sc[i][N + 1 - i])
\* Factors balance the pseudo-triangle's column totals.
Balance == (Complete /\ Sane) => LET s == Sim IN \A j \in 1..(N - 1) :
   RSum([k \in 1..(N - j) |-> s.sc[k][j + 1]]) = RMul(s.fac[j], RSum([k \in 1..(N - j) |-> s.sc[k][j]]))
\* The oldest origin's draw of its first amount moves no other origin's
\* observed cells; an origin's own draws never change another's.
Separate == (Complete /\ Sane) => LET s == Sim IN \A i \in 1..N : \A j \in 1..(N + 1 - i) :
   s.si[i][j] = RAdd(s.inc[i][j], RMul(Res(i, j), RSqrt(RAbs(s.inc[i][j]))))
\* Residuals reproduce the observed increments at their own cells (up to the
\* degrees-of-freedom adjustment): observed = fitted + unscaled * sqrt.
Identify == LET us == Pearson(X.f, X.fi)  ob == ObsIncr(X.f) IN
   \A c \in 1..6 : LET i == Cells[c][1]  j == Cells[c][2] IN
     RNear(ob[i][j], RAdd(X.fi[i][j], RMul(us[i][j], RSqrt(RAbs(X.fi[i][j])))), RI(10000))
\* Swapping the sign of nothing but a process multiple scales that cell only.
OneDraw == (Complete /\ Sane) => LET s == Sim IN
   \A k \in 1..3 : LET c == Fore[k] IN s.fin[c[1]][c[2]] = RMul(G[gams[k]], s.si[c[1]][c[2]])
ASSUME \A s \in AllShapes : Len(Fit[s].dist) = 4 /\ RLt(R0, Fit[s].phi)

Emit == (Complete /\ \A k \in 1..6 : picks[k] > 0) =>
   PrintT("IN " \o ToJson([rows |-> Rows[shape], picks |-> picks, gams |-> gams]))
==============================================================================
