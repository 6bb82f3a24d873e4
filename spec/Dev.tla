--------------------------------- MODULE Dev ---------------------------------
(***************************************************************************)
(* Link ratios of a cumulative triangle, which of them take part           *)
(* (inclusion indicator), and the tabulated averages of them.              *)
(***************************************************************************)
EXTENDS Tri

\* Ratios, without the periods and then the origins that have none.
A2A(f) ==
    LET n == NCols(f)
        r(i, j) == IF j < n THEN RDiv(f.v[i][j + 1], f.v[i][j]) ELSE RNaN
        cs == SelectSeq([j \in 1..n |-> j], LAMBDA j : \E i \in 1..NRows(f) : Some(r(i, j)))
        rs == SelectSeq([i \in 1..NRows(f) |-> i],
                        LAMBDA i : \E k \in 1..Len(cs) : Some(r(i, cs[k])))
    IN  MkFrame([i \in 1..Len(rs) |-> f.o[rs[i]]], [j \in 1..Len(cs) |-> f.d[cs[j]]],
                LAMBDA i, j : r(rs[i], cs[j]))

\* Indicator matrices hold 0 and 1.
FullInd(a) == TLCEval([i \in 1..NRows(a) |-> TLCEval([j \in 1..NCols(a) |->
                 IF Some(a.v[i][j]) THEN 1 ELSE 0])])

(***************************************************************************)
(* Averages.  a: link-ratio frame, ind: its indicator, f: the triangle.    *)
(***************************************************************************)
\* Position of the last ratio of the block of ratios a column starts with.
BlockEnd(a, j) == LET e == {i \in 1..NRows(a) : Empty(a.v[i][j])}
                  IN  IF e = {} THEN NRows(a) ELSE MinOf(e) - 1
\* Window of the last k ratios; k = 0: all of them.
Window(a, j, k) == LET b == BlockEnd(a, j)
                   IN  IF k = 0 \/ k >= b THEN 1..b ELSE (b - k + 1)..b
Included(a, ind, j, k) ==
    LET b == BlockEnd(a, j)
        s == IF k = 0 \/ k >= b THEN 1 ELSE b - k + 1
        idx == SelectSeq([i \in 1..b |-> i],
                         LAMBDA i : i >= s /\ ind[i][j] = 1 /\ RLt(R0, a.v[i][j]))
    IN  [i \in 1..Len(idx) |-> a.v[idx[i]][j]]

Mean(s) == IF s = <<>> THEN RNaN ELSE RDiv(RSum(s), RI(Len(s)))
Medial(s) ==
    IF s = <<>> THEN RNaN
    ELSE LET t == RSort(s)  lo == t[1]  hi == t[Len(t)]
             mid == SelectSeq(t, LAMBDA x : x # lo /\ x # hi)
         IN  IF lo = hi THEN lo
             ELSE IF Len(t) = 2 THEN Mean(t)
             ELSE Mean(mid)
\* x is the geometric mean of s when its Len(s)-th power is the product.
IsGeometric(x, s) ==
    IF s = <<>> THEN RIsNaN(x)
    ELSE RIsFin(x) /\ RNearTol(RPow(x, Len(s)), RProd(s), R0, Len(s), 1000000000)
Weighted(f, a, ind, j, k) ==
    LET b == BlockEnd(a, j)
        w == SelectSeq([i \in 1..b |-> i], LAMBDA i : i \in Window(a, j, k) /\ ind[i][j] = 1)
        num == RSum([i \in 1..Len(w) |-> f.v[w[i]][j + 1]])
        den == RSum([i \in 1..Len(w) |-> f.v[w[i]][j]])
    IN  RDiv(num, den)

Methods == <<"simple", "geometric", "medial", "weighted">>
\* <<label, method, window>> of every row of the table of averages.
AvgRows(a) ==
    LET m == NRows(a)
        one(t) == [k \in 1..m |-> IF k < m THEN <<t \o "-" \o ToString(k), t, k>>
                                 ELSE <<"all-" \o t, t, 0>>]
    IN  one("simple") \o one("geometric") \o one("medial") \o one("weighted")
Average(f, a, ind, t, k, j) ==
    CASE t = "simple"   -> Mean(Included(a, ind, j, k))
      [] t = "medial"   -> Medial(Included(a, ind, j, k))
      [] t = "weighted" -> Weighted(f, a, ind, j, k)
AvgOK(x, f, a, ind, t, k, j) ==
    IF t = "geometric" THEN IsGeometric(x, Included(a, ind, j, k))
    ELSE RClose(x, Average(f, a, ind, t, k, j))

(***************************************************************************)
(* Ranks and classes of link ratios (tests of Mack 1994/1997).             *)
(***************************************************************************)
\* Rank of position i among positions S of column j, ties sharing the mean.
Rank(a, j, S, i) ==
    LET lo == Cardinality({k \in S : RLt(a.v[k][j], a.v[i][j])})
        eq == Cardinality({k \in S : a.v[k][j] = a.v[i][j]})
    IN  RQ(2 * lo + eq + 1, 2)
Observed(a, j) == {i \in 1..NRows(a) : Some(a.v[i][j])}
Median(s) == LET t == RSort(s)  m == Len(t)
             IN  IF m % 2 = 1 THEN t[(m + 1) \div 2]
                 ELSE RDiv(RAdd(t[m \div 2], t[(m \div 2) + 1]), RI(2))
ColMedian(a, j) == Median(LET S == Observed(a, j) IN
                     LET q == SortedLabels(S) IN [k \in 1..Len(q) |-> a.v[q[k]][j]])
\* 1, -1 and 0: above, below, at the period's median.
ClassOf(a, j, i) == LET m == ColMedian(a, j) IN
                    IF RNearTol(a.v[i][j], m, R0, 1, 100000) THEN 0
                    ELSE IF RLt(m, a.v[i][j]) THEN 1 ELSE -1
==============================================================================
