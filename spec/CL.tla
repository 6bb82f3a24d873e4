---------------------------------- MODULE CL ----------------------------------
(***************************************************************************)
(* Chain ladder estimates of a staircase cumulative triangle f (n origins, *)
(* n periods; origin i last observed at period n + 1 - i).                 *)
(***************************************************************************)
EXTENDS Dev

\* Product of the factors from period j to ultimate (ldf has n entries).
CumFactor(ldf, j) == RProd(SubSeq(ldf, j, Len(ldf)))

\* Completed square without / with the ultimate column.
RECURSIVE FillFwd(_, _, _)
FillFwd(row, ldf, acc) ==
    LET j == Len(acc) + 1
    IN  IF j > Len(row) THEN acc
        ELSE FillFwd(row, ldf, Append(acc, IF Some(row[j]) \/ j = 1 THEN row[j]
                                           ELSE RMul(acc[j - 1], ldf[j - 1])))
Square(f, ldf) == TLCEval([i \in 1..NRows(f) |-> FillFwd(f.v[i], ldf, <<>>)])
SquareUlt(f, ldf) ==
    LET s == Square(f, ldf)  n == NCols(f)
    IN  TLCEval([i \in 1..NRows(f) |-> Append(s[i], RMul(s[i][n], ldf[n]))])

(***************************************************************************)
(* Mack's model with variance exponent alpha, given as a2 = 2 * alpha.     *)
(* c: cells, a: ratio frame, ind: indicator.                               *)
(***************************************************************************)
PowH(x, h) == IF h % 2 = 0 THEN RPow(x, h \div 2)
              ELSE RMul(RPow(x, (h - 1) \div 2), RSqrt(x))

\* Positions of the ratios of period j taking part.
Parts(a, ind, j) == SelectSeq([i \in 1..NRows(a) |-> i],
                              LAMBDA i : Some(a.v[i][j]) /\ ind[i][j] = 1)
MackWeight(f, a, ind, a2, j) ==
    LET q == Parts(a, ind, j) IN RSum([k \in 1..Len(q) |-> PowH(f.v[q[k]][j], a2)])
MackFactor(f, a, ind, a2, j) ==
    LET q == Parts(a, ind, j)
    IN  RDiv(RSum([k \in 1..Len(q) |-> RMul(a.v[q[k]][j], PowH(f.v[q[k]][j], a2))]),
             MackWeight(f, a, ind, a2, j))
\* The last variance parameter, from the two before it (x nearer, y farther).
LastVar(x, y) == IF y = R0 THEN R0 ELSE RMin(RDiv(RMul(x, x), y), RMin(x, y))
\* Variance parameters of periods 1..n-1, given the factors.
MackVar(f, a, ind, a2, ldf) ==
    LET n == NCols(f)
        s(j) == LET q == Parts(a, ind, j)
                IN  RDiv(RSum([k \in 1..Len(q) |->
                          RMul(PowH(f.v[q[k]][j], a2), RPow(RSub(a.v[q[k]][j], ldf[j]), 2))]),
                         RI(n - j - 1))
        v == TLCEval([j \in 1..(n - 2) |-> s(j)])
    IN  Append(v, LastVar(v[n - 2], v[n - 3]))
\* Process error of origin i at ultimate: accumulated along its row of sq.
RECURSIVE ProcErr(_, _, _, _, _, _, _)
ProcErr(sq, ldf, var, a2, i, j, p) ==     \* p: error of the amount at period j
    IF j >= Len(ldf) THEN p
    ELSE ProcErr(sq, ldf, var, a2, i, j + 1,
                 RAdd(RMul(RPow(ldf[j], 2), p), RMul(PowH(sq[i][j], 4 - a2), var[j])))
RECURSIVE ParamErr(_, _, _, _, _, _)
ParamErr(sq, ldf, fv, i, j, q) ==
    IF j >= Len(ldf) THEN q
    ELSE ParamErr(sq, ldf, fv, i, j + 1,
                  RAdd(RAdd(RMul(RPow(ldf[j], 2), q), RMul(RPow(sq[i][j], 2), fv[j])),
                       RMul(fv[j], q)))
\* Squared error of the total reserve.  mse, ult: per origin.
TotalMse(mse, ult, ldf, fv) ==
    LET n == Len(ult)
        quo == TLCEval([j \in 1..(n - 1) |-> RDiv(fv[j], RPow(ldf[j], 2))])
        cov(i) == RMul(RMul(RI(2), ult[i]),
                       RMul(RSum(SubSeq(ult, i + 1, n)), RSum(SubSeq(quo, n + 1 - i, n - 1))))
    IN  RSum([i \in 1..(n - 1) |-> RAdd(mse[i + 1], cov(i + 1))])

(***************************************************************************)
(* Tests of the model's assumptions.                                       *)
(***************************************************************************)
\* Columns s_k, r_k (k = 2..n-2) of the table of ranks; rows 1..n-2.
RankS(a, k, i) == LET S == 1..(NRows(a) + 1 - k) IN IF i \in S THEN Rank(a, k - 1, S, i) ELSE RNaN
RankR(a, k, i) == LET S == Observed(a, k) IN IF i \in S THEN Rank(a, k, S, i) ELSE RNaN
SpearmanT(a, k) ==
    LET n == NRows(a) + 1
        dd == RSum([i \in 1..(n - k) |-> RPow(RSub(RankR(a, k, i), RankS(a, k, i)), 2)])
        m == n - k
    IN  RSub(R1, RDiv(RMul(RI(6), dd), RI(m * m * m - m)))
DevpCorr(a) ==
    LET n == NRows(a) + 1
    IN  RDiv(RSum([k \in 1..(n - 3) |-> RMul(RI(n - k - 2), SpearmanT(a, k + 1))]),
             RSum([k \in 1..(n - 3) |-> RI(n - k - 2)]))
DevpVar(a) == LET n == NRows(a) + 1 IN RQ((n - 2) * (n - 3), 2)

RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1
               ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
\* Small and large ratios on the diagonal with j ratios.
DiagCount(a, j, c) == Cardinality({i \in 1..j : ClassOf(a, j + 1 - i, i) = c})
CyOf(s, l) ==
    LET n == s + l  m == (n - 1) \div 2
        z == IF s < l THEN s ELSE l
        p2 == RPow(RI(2), n)
        e == RSub(RQ(n, 2), RDiv(RI(Binom(n - 1, m) * n), p2))
        v == RSub(RAdd(RSub(RQ(n * (n - 1), 4), RDiv(RI(Binom(n - 1, m) * n * (n - 1)), p2)), e),
                  RMul(e, e))
    IN  IF n = 0 THEN [z |-> R0, e |-> R0, v |-> R0] ELSE [z |-> RI(z), e |-> e, v |-> v]
CyTotals(a) ==
    LET n == NRows(a) + 1
        t == TLCEval([j \in 1..(n - 2) |-> CyOf(DiagCount(a, j + 1, -1), DiagCount(a, j + 1, 1))])
    IN  [z |-> RSum([j \in 1..(n - 2) |-> t[j].z]), e |-> RSum([j \in 1..(n - 2) |-> t[j].e]),
         v |-> RSum([j \in 1..(n - 2) |-> t[j].v])]
==============================================================================
