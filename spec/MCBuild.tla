-------------------------------- MODULE MCBuild -------------------------------
(***************************************************************************)
(* Exhaustive model of triangle construction: loss records arrive one by   *)
(* one (any cell, any amount, any order, repeats allowed); every reachable *)
(* sequence of records is a state.  The invariants are the laws of C01-C05 *)
(* stated independently of how Tri defines the frames.  Every state in the *)
(* domain is printed, and replayed into the real library.                  *)
(*                                                                         *)
(* Mode "seq":  arbitrary record sequences up to MaxLen.                   *)
(* Mode "grid": at most one record per cell of the staircase, in cell      *)
(*              order (all gap and sign patterns).                         *)
(***************************************************************************)
EXTENDS Dev, Json
CONSTANTS NO, ND, Amounts, MaxLen, Mode
VARIABLE recs

ASmall == {-2, 3, 999}
AGrid == {-2, 3}
AWide == {-2, 0, 3, 999}
Hole == 999                             \* a record without an amount
Amt(x) == IF x = Hole THEN RNaN ELSE RI(x)
R == TLCEval([k \in 1..Len(recs) |-> <<recs[k][1], recs[k][2], Amt(recs[k][3])>>])
Cells == IF Mode = "seq" THEN (1..NO) \X (1..ND)
         ELSE {c \in (1..NO) \X (1..ND) : c[1] + c[2] <= NO + 1}
Pos(c) == c[1] * 100 + c[2]
Init == recs = <<>>
Next == /\ Len(recs) < MaxLen
        /\ \E c \in Cells : \E x \in Amounts :
             /\ Mode = "grid" => \A k \in 1..Len(recs) : Pos(recs[k]) < Pos(c)
             /\ recs' = Append(recs, <<c[1], c[2], x>>)
Spec == Init /\ [][Next]_recs

\* Inputs in the library's domain: every origin and period named has an amount.
Has1(S) == \E k \in 1..Len(R) : R[k][1] \in S /\ Some(R[k][3])
Domain == /\ recs # <<>>
          /\ \A k \in 1..Len(R) : /\ \E q \in 1..Len(R) : R[q][1] = R[k][1] /\ Some(R[q][3])
                                  /\ \E q \in 1..Len(R) : R[q][2] = R[k][2] /\ Some(R[q][3])
II == IncrFrame(R)
CC == CumFrame(R)
TT == Totals(R)

\* Total of the amounts of a cell, by recursion over the records.
RECURSIVE CellSum(_, _, _)
CellSum(s, a, b) ==
    IF s = <<>> THEN R0
    ELSE LET x == Head(s)  t == CellSum(Tail(s), a, b) IN
         IF x[1] = a /\ x[2] = b /\ Some(x[3]) THEN RAdd(x[3], t) ELSE t
Recorded(a, b) == \E k \in 1..Len(R) : R[k][1] = a /\ R[k][2] = b /\ Some(R[k][3])

\* C01
IncrIsTotals == Domain =>
    /\ Range1(II.o) = {R[k][1] : k \in 1..Len(R)} /\ Range1(II.d) = {R[k][2] : k \in 1..Len(R)}
    /\ \A i \in 1..NRows(II) : \A j \in 1..NCols(II) :
         LET x == II.v[i][j]  s == CellSum(R, II.o[i], II.d[j]) IN
         IF ~Recorded(II.o[i], II.d[j]) THEN Empty(x)
         ELSE IF j = 1 /\ RLe(s, R0) THEN x = R1 ELSE x = s
    /\ \A i \in 1..(NRows(II) - 1) : II.o[i] < II.o[i + 1]
    /\ \A j \in 1..(NCols(II) - 1) : II.d[j] < II.d[j + 1]
\* Order and splitting of records.
Perm(f) == [k \in 1..Len(R) |-> R[f[k]]]
OrderFree == Domain /\ Mode = "seq" =>
    \A f \in Permutations(1..Len(R)) : IncrFrame(Perm(f)) = II /\ CumFrame(Perm(f)) = CC
SplitFree == Domain =>
    LET x == R[1]
        s == <<<<x[1], x[2], RSub(x[3], RI(7))>>>> \o Tail(R) \o <<<<x[1], x[2], RI(7)>>>>
    IN  Some(x[3]) => IncrFrame(s) = II /\ CumFrame(s) = CC
\* C02
RECURSIVE UpTo(_, _)
UpTo(i, j) == IF j = 0 THEN R0 ELSE RAdd(CellSum(R, CC.o[i], CC.d[j]), UpTo(i, j - 1))
CumIsRunning == Domain =>
    \A i \in 1..NRows(CC) : \A j \in 1..NCols(CC) :
      LET x == CC.v[i][j] IN
      IF Recorded(CC.o[i], CC.d[j])
      THEN IF j = 1 /\ RLe(UpTo(i, 1), R0) THEN x = R1 ELSE x = UpTo(i, j)
      ELSE IF j = 1 THEN x = R1
      ELSE IF \E k \in i..NRows(CC) : Recorded(CC.o[k], CC.d[j])
           THEN x = CC.v[i][j - 1] ELSE Empty(x)
CumHasNoHole == Domain => GapFree(CC) \/ \E i \in 1..NRows(CC) : \E j \in 1..NCols(CC) : ToForecast(CC, i, j) = 1
\* C03: the same losses in each format denote the same totals.
RunGrid == MkFrame(TT.o, TT.d, LAMBDA i, j : IF Empty(TT.v[i][j]) THEN RNaN ELSE RSumV(SubSeq(TT.v[i], 1, j)))
Formats == Domain =>
    LET cells == FrameRecs(RunGrid, LAMBDA i, j : RunGrid.v[i][j]) IN
    /\ Totals(TabCumRecs(cells)) = TT
    /\ Totals(GridCumRecs(RunGrid)) = TT
    /\ Totals(GridIncrRecs(TT)) = TT
    /\ CumFrame(TabCumRecs(Reverse(cells))) = CC
\* C04
RoundTrip == Domain =>
    /\ (GapFree(CC) /\ \A i \in 1..NRows(CC) : RLt(R0, CC.v[i][1])) =>
         /\ ToCum(ToIncr(CC)) = CC
         /\ \A i \in 1..NRows(CC) : RSumV(ToIncr(CC).v[i]) = Latest(CC, i)
    /\ IncrFrame(TblRecs(II)) = II
    /\ (\A i \in 1..NRows(CC) : RLt(R0, CC.v[i][1])) => CumFrame(TabCumRecs(TblRecs(CC))) = CC
\* C05
Geometry == Domain =>
    /\ \A i \in 1..NRows(CC) : \A j \in 1..NCols(CC) : (ToForecast(CC, i, j) = 0) <=> Some(CC.v[i][j])
    /\ \A i \in 1..NRows(CC) : LastCol(CC, i) >= 1
    /\ \A f \in {II, CC} : \A i \in 1..NRows(f) : \A j \in 1..NCols(f) :
         /\ (ToForecast(f, i, j) = 1) => Empty(f.v[i][j])
         /\ i > 1 => ToForecast(f, i - 1, j) <= ToForecast(f, i, j)
    /\ NbrCells(II) = Cardinality({<<R[k][1], R[k][2]>> : k \in {q \in 1..Len(R) : Some(R[q][3])}})
\* C06
Ratios == Domain =>
    LET a == A2A(CC) IN
    \A i \in 1..NRows(CC) : \A j \in 1..(NCols(CC) - 1) :
      LET x == CC.v[i][j]  y == CC.v[i][j + 1] IN
      (Some(x) /\ Some(y) /\ ~(x = R0 /\ y = R0)) =>
         \E p \in 1..NRows(a) : \E q \in 1..NCols(a) :
            a.o[p] = CC.o[i] /\ a.d[q] = CC.d[j] /\ a.v[p][q] = RDiv(y, x)

Emit == Domain => PrintT("IN " \o ToJson([recs |-> recs]))
==============================================================================
