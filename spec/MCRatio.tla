-------------------------------- MODULE MCRatio -------------------------------
(***************************************************************************)
(* Exhaustive model of development: an N x N staircase triangle grows one  *)
(* observed amount at a time, each amount being its predecessor times a    *)
(* ratio from Ratios; then ratios are excluded one by one.  Every complete *)
(* triangle with every reachable indicator is a state.                     *)
(*                                                                         *)
(* The invariants are the laws of averaging, projection, Mack's errors,    *)
(* the two tests and the over-dispersed Poisson fit, stated independently  *)
(* of the formulas Dev, CL and EvBoot give (closed forms, brute force,     *)
(* bounds, symmetries).  Every state is printed and replayed into the      *)
(* real library.                                                           *)
(***************************************************************************)
EXTENDS EvBoot, Json
CONSTANTS N, Ratios, Bases, Toggle, KeepOne
VARIABLES base, ch, ex

Halves == {<<1, 1>>, <<3, 2>>}
Three == {<<1, 1>>, <<3, 2>>, <<2, 1>>}
Falling == {<<1, 2>>, <<1, 1>>, <<2, 1>>}
Spread == {<<5, 4>>, <<3, 2>>, <<2, 1>>}
Steep == {<<5, 4>>, <<3, 2>>}
Even == <<64, 64, 64, 64, 64, 64>>
Mixed == <<64, 192, 128, 64, 320, 256>>
BEven == {Even}
BMixed == {Mixed}
BBoth == {Even, Mixed}

\* Observed steps in the order they are chosen: origin by origin.
Steps == TLCEval(SelectSeq([k \in 1..(N * N) |-> <<((k - 1) \div N) + 1, ((k - 1) % N) + 1>>],
                           LAMBDA c : c[2] <= N - c[1]))
StepNo == TLCEval([c \in {Steps[k] : k \in 1..Len(Steps)} |-> CHOOSE k \in 1..Len(Steps) : Steps[k] = c])
Ratio(i, j) == LET q == ch[StepNo[<<i, j>>]] IN RQ(q[1], q[2])
Complete == Len(ch) = Len(Steps)

Init == base \in Bases /\ ch = <<>> /\ ex = <<>>
Develop == ~Complete /\ \E q \in Ratios : ch' = Append(ch, q) /\ UNCHANGED <<base, ex>>
LeftIn(j) == Cardinality({i \in 1..(N - j) : \A k \in 1..Len(ex) : Steps[ex[k]] # <<i, j>>})
Exclude == /\ Complete /\ Len(ex) < Toggle
           /\ \E k \in 1..Len(Steps) :
                /\ \A q \in 1..Len(ex) : ex[q] < k
                /\ KeepOne => LeftIn(Steps[k][2]) > 1
                /\ ex' = Append(ex, k)
           /\ UNCHANGED <<base, ch>>
Next == Develop \/ Exclude
Spec == Init /\ [][Next]_<<base, ch, ex>>

\* The triangle, its ratios and its indicator.
RECURSIVE Amt(_, _)
Amt(i, j) == IF j = 1 THEN RI(base[i]) ELSE RMul(Amt(i, j - 1), Ratio(i, j - 1))
Lb == [i \in 1..N |-> i]
F == MkFrame(Lb, Lb, LAMBDA i, j : IF j <= N + 1 - i THEN Amt(i, j) ELSE RNaN)
A == A2A(F)
Out(i, j) == \E k \in 1..Len(ex) : Steps[ex[k]] = <<i, j>>
Ind == MkMat(N - 1, N - 1, LAMBDA i, j : IF i + j <= N /\ ~Out(i, j) THEN 1 ELSE 0)
Scaled(c) == MkFrame(Lb, Lb, LAMBDA i, j : RMul(F.v[i][j], RI(c)))
In(j) == {i \in 1..(N - j) : ~Out(i, j)}
InSeq(j) == LET s == SortedLabels(In(j)) IN [k \in 1..Len(s) |-> A.v[s[k]][j]]
Least(s) == RSort(s)[1]
Most(s) == RSort(s)[Len(s)]

(************************** C06: ratios, indicator *************************)
RatiosBack == Complete => /\ A.o = SubSeq(Lb, 1, N - 1) /\ A.d = SubSeq(Lb, 1, N - 1)
                          /\ \A c \in DOMAIN StepNo : A.v[c[1]][c[2]] = Ratio(c[1], c[2])
IndicatorCounts == Complete => LET m == FullInd(A)  n == RI(Cardinality({c \in (1..(N - 1)) \X (1..(N - 1)) : m[c[1]][c[2]] = 1})) IN
                   n = RI(Len(Steps)) /\ (ex = <<>> => Ind = m)
(************************** C07: averages **********************************)
Named == AvgRows(A)
AvgLaws == Complete =>
  LET f == F  a == A  ind == Ind  full == FullInd(a) IN
  \A k \in 1..Len(Named) : \A j \in 1..(N - 1) :
    LET t == Named[k][2]  w == Named[k][3]
        in == Included(a, ind, j, w) IN
    t # "geometric" =>
      LET x == Average(f, a, ind, t, w, j) IN
      /\ in = <<>> => RIsNaN(x)
      \* between the least and the greatest ratio taking part
      /\ in # <<>> => \/ RLe(Least(in), x) /\ RLe(x, Most(in))
                      \* (a medial average may discard every ratio)
                      \/ /\ t = "medial" /\ RIsNaN(x) /\ Len(in) >= 3
                         /\ \A q \in Range1(in) : q \in {Least(in), Most(in)}
      \* a window as long as the column is no window
      /\ (w >= N - j) => x = Average(f, a, ind, t, 0, j)
      \* the last ratio alone
      /\ (w = 1 /\ ~Out(N - j, j)) => x = a.v[N - j][j]
      \* only the column's own exclusions matter
      /\ x = Average(f, a, MkMat(N - 1, N - 1, LAMBDA p, q : IF q = j THEN ind[p][q] ELSE full[p][q]), t, w, j)
      \* scale of money does not matter
      /\ x = Average(Scaled(3), a, ind, t, w, j)
\* Weighted and simple agree on equal denominators; the geometric mean is
\* at most the simple one; medial of at most two distinct values.
AvgRelations == Complete =>
  LET f == F  a == A  ind == Ind IN
  \A j \in 1..(N - 1) : \A w \in 0..(N - 1) :
    LET in == Included(a, ind, j, w)
        s == Average(f, a, ind, "simple", w, j) IN
    in # <<>> =>
      /\ (\A p \in In(j) : \A q \in In(j) : f.v[p][j] = f.v[q][j]) => Average(f, a, ind, "weighted", w, j) = s
      /\ RLe(RProd(in), RPow(s, Len(in)))
      /\ (Least(in) = Most(in)) => /\ IsGeometric(s, in) /\ Average(f, a, ind, "medial", w, j) = s
                                   /\ Average(f, a, ind, "weighted", w, j) = s
      /\ (Len(in) <= 2) => Average(f, a, ind, "medial", w, j) = s
\* Excluding a ratio moves the simple average away from it.
ExcludeMoves == Complete /\ ex # <<>> =>
  LET c == Steps[ex[Len(ex)]]  a == A
      before == Mean(Append(InSeq(c[2]), a.v[c[1]][c[2]]))
      after == Mean(InSeq(c[2])) IN
  In(c[2]) # {} => /\ RLt(before, a.v[c[1]][c[2]]) <=> RLt(after, before)
                   /\ RLt(a.v[c[1]][c[2]], before) <=> RLt(before, after)

(************************** C08, C09: projection ***************************)
WLdf == TLCEval([j \in 1..N |-> IF j = N THEN RQ(21, 20) ELSE Weighted(F, A, Ind, j, 0)])
Solid == \A j \in 1..(N - 1) : In(j) # {}
Projection == Complete /\ Solid =>
  LET f == F  l == WLdf  q == SquareUlt(f, l) IN
  /\ \A i \in 1..N : /\ \A j \in 1..(N + 1 - i) : q[i][j] = f.v[i][j]
                     /\ \A j \in 1..N : (j > N + 1 - i) => q[i][j] = RMul(q[i][j - 1], l[j - 1])
                     /\ q[i][N + 1] = RMul(q[i][N], l[N])
                     /\ q[i][N + 1] = RMul(Latest(f, i), CumFactor(l, LastCol(f, i)))
  /\ \A j \in 1..(N - 1) : CumFactor(l, j) = RMul(l[j], CumFactor(l, j + 1))
  \* money in another unit
  /\ SquareUlt(Scaled(3), l) = MkMat(N, N + 1, LAMBDA i, j : RMul(RI(3), q[i][j]))
  \* with nothing excluded, the weighted factors reproduce column totals
  /\ ex = <<>> => \A j \in 1..(N - 1) :
       RSum([i \in 1..(N - j) |-> f.v[i][j + 1]]) = RMul(l[j], RSum([i \in 1..(N - j) |-> f.v[i][j]]))
  \* all-ones factors: no reserve
  /\ LET one == [j \in 1..N |-> R1] IN \A i \in 1..N : SquareUlt(f, one)[i][N + 1] = Latest(f, i)

(************************** C10, C11: Mack *********************************)
MLdf(f, a2) == TLCEval([j \in 1..N |-> IF j = N THEN R1 ELSE MackFactor(f, A, Ind, a2, j)])
Squared(f, a2, j, x) == LET s == SortedLabels(In(j)) IN
   RSum([k \in 1..Len(s) |-> RMul(PowH(f.v[s[k]][j], a2), RPow(RSub(A.v[s[k]][j], x), 2))])
MackLaws == Complete =>
  LET f == F IN \A a2 \in {0, 2, 4} :
    LET l == MLdf(f, a2)  v == MackVar(f, A, Ind, a2, l)
        g == Scaled(9)  lg == MLdf(g, a2)  vg == MackVar(g, A, Ind, a2, lg) IN
    /\ a2 = 2 => \A j \in 1..(N - 1) : l[j] = Weighted(f, A, Ind, j, 0)
    /\ a2 = 0 => \A j \in 1..(N - 1) : l[j] = Average(f, A, Ind, "simple", 0, j)
    \* the factor minimises the weighted squared deviations
    /\ \A j \in 1..(N - 1) : \A h \in {RQ(1, 8), RQ(-1, 8)} :
         RLt(Squared(f, a2, j, l[j]), Squared(f, a2, j, RAdd(l[j], h)))
    /\ \A j \in 1..(N - 2) : /\ RLe(R0, v[j])
                             /\ (v[j] = R0) <=> (Least(InSeq(j)) = Most(InSeq(j)))
    \* the last variance is no greater than the two before it
    /\ RLe(v[N - 1], v[N - 2]) /\ RLe(v[N - 1], v[N - 3]) /\ RLe(R0, v[N - 1])
    \* money in another unit
    /\ lg = l /\ \A j \in 1..(N - 1) : vg[j] = RMul(PowH(RI(9), a2), v[j])
FVar(f, a2, v) == TLCEval([j \in 1..(N - 1) |-> RDiv(v[j], MackWeight(f, A, Ind, a2, j))])
Proc(f, l, v, a2, i) == LET k == N + 1 - i IN
   ProcErr(Square(f, l), l, v, a2, i, k + 1, RMul(PowH(Square(f, l)[i][k], 4 - a2), v[k]))
Param(f, l, fv, i) == LET k == N + 1 - i IN
   ParamErr(Square(f, l), l, fv, i, k + 1, RMul(RPow(Square(f, l)[i][k], 2), fv[k]))
RECURSIVE ProdFV(_, _, _, _)
ProdFV(l, fv, j, n) == IF j > n THEN R1 ELSE RMul(RAdd(RPow(l[j], 2), fv[j]), ProdFV(l, fv, j + 1, n))
MackErrors == Complete =>
  LET f == F IN \A a2 \in {0, 2, 4} :
    LET l == MLdf(f, a2)  v == MackVar(f, A, Ind, a2, l)  fv == FVar(f, a2, v)  sq == Square(f, l)
        mse == TLCEval([i \in 1..N |-> IF i = 1 THEN R0 ELSE RAdd(Proc(f, l, v, a2, i), Param(f, l, fv, i))])
        ult == [i \in 1..N |-> sq[i][N]] IN
    /\ \A i \in 2..N :
         LET k == N + 1 - i IN
         \* Mack's closed forms
         /\ Proc(f, l, v, a2, i) = RSum([q \in 1..(i - 1) |->
              LET j == k + q - 1 IN
              RMul(RMul(PowH(sq[i][j], 4 - a2), v[j]), RPow(RProd(SubSeq(l, j + 1, N)), 2))])
         /\ Param(f, l, fv, i) = RMul(RPow(Latest(f, i), 2),
                RSub(ProdFV(l, fv, k, N - 1), RPow(RProd(SubSeq(l, k, N)), 2)))
         /\ RLe(R0, mse[i])
         /\ (\A j \in k..(N - 1) : v[j] = R0) => mse[i] = R0
    \* origins are positively correlated: the total is at least the sum
    /\ RLe(RSum(mse), TotalMse(mse, ult, l, fv))
    \* money in another unit
    /\ LET g == Scaled(9)  vg == MackVar(g, A, Ind, a2, l)  fg == FVar(g, a2, vg) IN
       \A i \in 2..N : /\ Proc(g, l, vg, a2, i) = RMul(RI(81), Proc(f, l, v, a2, i))
                       /\ Param(g, l, fg, i) = RMul(RI(81), Param(f, l, fv, i))

(************************** C13, C14: tests ********************************)
NoTies(j) == \A p \in Observed(A, j) : \A q \in Observed(A, j) : p # q => A.v[p][j] # A.v[q][j]
RankLaws == Complete /\ ex = <<>> =>
  \A k \in 2..(N - 2) :
    LET m == N - k IN
    /\ RSum([i \in 1..m |-> RankS(A, k, i)]) = RQ(m * (m + 1), 2)
    /\ RSum([i \in 1..m |-> RankR(A, k, i)]) = RQ(m * (m + 1), 2)
    /\ \A i \in 1..m : \A x \in {RankS(A, k, i), RankR(A, k, i)} : RLe(R1, x) /\ RLe(x, RI(m))
    /\ \A i \in 1..m : \A q \in 1..m :
         /\ RLt(A.v[i][k], A.v[q][k]) => RLt(RankR(A, k, i), RankR(A, k, q))
         /\ A.v[i][k] = A.v[q][k] => RankR(A, k, i) = RankR(A, k, q)
    /\ RLe(SpearmanT(A, k), R1)
    \* equal orderings: 1; reversed orderings without ties: -1
    /\ (\A i \in 1..m : RankR(A, k, i) = RankS(A, k, i)) => SpearmanT(A, k) = R1
    /\ (NoTies(k) /\ \A i \in 1..m : RankR(A, k, i) = RSub(RI(m + 1), RankS(A, k, i))) => SpearmanT(A, k) = RI(-1)
CorrLaws == Complete /\ ex = <<>> =>
  /\ RLe(DevpCorr(A), R1)
  /\ (\A k \in 2..(N - 2) : SpearmanT(A, k) = R1) => DevpCorr(A) = R1
ClassLaws == Complete /\ ex = <<>> =>
  /\ \A j \in 1..(N - 1) :
       LET c(x) == Cardinality({i \in 1..(N - j) : ClassOf(A, j, i) = x}) IN
       /\ 2 * c(1) <= N - j /\ 2 * c(-1) <= N - j
       /\ \A p \in 1..(N - j) : \A q \in 1..(N - j) : RLe(A.v[p][j], A.v[q][j]) => ClassOf(A, j, p) <= ClassOf(A, j, q)
       /\ (Least(InSeq(j)) = Most(InSeq(j))) => c(0) = N - j
  /\ LET t == CyTotals(A) IN /\ RLe(R0, t.z) /\ RLe(R0, t.e) /\ RLe(R0, t.v)
                             /\ RLe(t.z, RSum([j \in 1..(N - 2) |-> RQ(j + 1, 2)]))
\* Expectation and variance of min(small, large) by enumeration.
Min2(a, b) == IF a < b THEN a ELSE b
BruteE(n) == RDiv(RSum([k \in 1..(n + 1) |-> RI(Binom(n, k - 1) * Min2(k - 1, n - k + 1))]), RPow(RI(2), n))
BruteM2(n) == RDiv(RSum([k \in 1..(n + 1) |-> RI(Binom(n, k - 1) * Min2(k - 1, n - k + 1) * Min2(k - 1, n - k + 1))]), RPow(RI(2), n))
ASSUME \A n \in 1..12 : \A s \in 0..n :
         LET t == CyOf(s, n - s) IN
         /\ t.z = RI(Min2(s, n - s)) /\ t.e = BruteE(n)
         /\ t.v = RSub(BruteM2(n), RMul(BruteE(n), BruteE(n)))

(************************** C15: the fit ***********************************)
FitLaws == Complete /\ Solid =>
  LET f == F  l == [j \in 1..N |-> IF j = N THEN R1 ELSE Weighted(f, A, Ind, j, 0)]
      fc == FitCum(f, l)  fi == Diffs(fc)  x == Diffs(f.v) IN
  /\ \A i \in 1..N : /\ RSumV(fi[i]) = Latest(f, i)
                     /\ \A j \in 1..(N - i) : fc[i][j + 1] = RMul(fc[i][j], l[j])
  \* with nothing excluded the fit reproduces every period's total
  /\ ex = <<>> => \A j \in 1..N : RSumV(Col(fi, j)) = RSumV(Col(x, j))
  \* refitting the fit changes nothing
  /\ ex = <<>> => LET g == MkFrame(Lb, Lb, LAMBDA i, j : fc[i][j])
                      lg == [j \in 1..N |-> IF j = N THEN R1 ELSE Weighted(g, A2A(g), Ind, j, 0)] IN
                  lg = l /\ FitCum(g, lg) = fc

Emit == Complete => PrintT("IN " \o ToJson([base |-> SubSeq(base, 1, N), ch |-> ch,
                                            ex |-> [k \in 1..Len(ex) |-> Steps[ex[k]]]]))
==============================================================================
