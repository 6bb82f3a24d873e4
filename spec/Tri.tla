--------------------------------- MODULE Tri ---------------------------------
(***************************************************************************)
(* Loss triangles: what they contain, how they are built from data in      *)
(* every accepted format, how they convert into one another, and the       *)
(* geometry they report.                                                   *)
(*                                                                         *)
(* A frame is a labelled matrix  [o |-> row labels, d |-> column labels,   *)
(* v |-> sequence of rows]  whose cells are extended rationals (module     *)
(* Rat); an empty cell is NaN.  A record is <<origin, dev, amount>>.       *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, SequencesExt

Range1(s) == {s[i] : i \in 1..Len(s)}
SortedLabels(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
MaxOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOf(S)  == CHOOSE x \in S : \A y \in S : x <= y
Empty(x)  == RIsNaN(x)
Some(x)   == ~RIsNaN(x)

MkMat(m, n, F(_, _)) ==
    TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> F(i, j)])])
MkFrame(o, d, F(_, _)) == [o |-> o, d |-> d, v |-> MkMat(Len(o), Len(d), F)]
NRows(f) == Len(f.o)
NCols(f) == Len(f.d)

(***************************************************************************)
(* Construction.  recs is any sequence of records: unordered, possibly     *)
(* several for one cell, possibly with empty amounts.                      *)
(***************************************************************************)
RecOrigins(recs) == SortedLabels({recs[k][1] : k \in 1..Len(recs)})
RecDevs(recs)    == SortedLabels({recs[k][2] : k \in 1..Len(recs)})

\* Amounts of one cell taken together; empty when no amount was recorded.
CellTotal(recs, a, b) ==
    LET s == SelectSeq(recs, LAMBDA r : r[1] = a /\ r[2] = b /\ Some(r[3]))
    IN  IF s = <<>> THEN RNaN ELSE RSum([k \in 1..Len(s) |-> s[k][3]])

\* The labelled matrix of cell totals of a sequence of records.
Totals(recs) ==
    LET o == RecOrigins(recs)  d == RecDevs(recs)
    IN  MkFrame(o, d, LAMBDA i, j : CellTotal(recs, o[i], d[j]))

\* First-period amounts which are zero or negative are shown as 1.
Floor1(j, x) == IF j = 1 /\ Some(x) /\ RLe(x, R0) THEN R1 ELSE x

IncrOf(tot) == MkFrame(tot.o, tot.d, LAMBDA i, j : Floor1(j, tot.v[i][j]))

LastRow(f, j) == MaxOr0({i \in 1..NRows(f) : Some(f.v[i][j])})
LastCol(f, i) == MaxOr0({j \in 1..NCols(f) : Some(f.v[i][j])})

\* Accumulated totals before gaps are filled.
Accum(tot) ==
    MkFrame(tot.o, tot.d, LAMBDA i, j :
        IF Empty(tot.v[i][j]) THEN RNaN
        ELSE Floor1(j, RSumV(SubSeq(tot.v[i], 1, j))))

\* One row of a cumulative triangle, gaps filled from the left; due[j] says
\* whether an equally late or later origin has an amount for period j.
RECURSIVE FillRow(_, _, _)
FillRow(row, due, acc) ==
    LET j == Len(acc) + 1
    IN  IF j > Len(row) THEN acc
        ELSE FillRow(row, due,
               Append(acc, IF Some(row[j]) THEN row[j]
                           ELSE IF j = 1 THEN R1
                           ELSE IF due[j] THEN acc[j - 1] ELSE RNaN))
CumOf(tot) ==
    LET c == Accum(tot)
        last == TLCEval([j \in 1..NCols(c) |-> LastRow(c, j)])
    IN  [c EXCEPT !.v = TLCEval([i \in 1..NRows(c) |->
            FillRow(c.v[i], [j \in 1..NCols(c) |-> i <= last[j]], <<>>)])]

IncrFrame(recs) == IncrOf(Totals(recs))
CumFrame(recs)  == CumOf(Totals(recs))
BuildFrame(kind, recs) == IF kind = "incr" THEN IncrFrame(recs) ELSE CumFrame(recs)

(***************************************************************************)
(* Other input formats, as incremental records.                            *)
(***************************************************************************)
\* Increment of position j of a row of cumulative amounts: the difference
\* from the previous present amount.
RowIncrement(row, j) ==
    IF Empty(row[j]) THEN RNaN
    ELSE LET p == MaxOr0({k \in 1..(j - 1) : Some(row[k])})
         IN  IF p = 0 THEN row[j] ELSE RSub(row[j], row[p])

\* The records of the non-empty cells of a frame, each cell given by F.
FrameRecs(f, F(_, _)) ==
    LET cell(k) == <<((k - 1) \div NCols(f)) + 1, ((k - 1) % NCols(f)) + 1>>
        all == TLCEval([k \in 1..(NRows(f) * NCols(f)) |->
                 <<f.o[cell(k)[1]], f.d[cell(k)[2]], F(cell(k)[1], cell(k)[2])>>])
    IN  SelectSeq(all, LAMBDA r : Some(r[3]))

\* Tabular cumulative data (records in any order, repeated records add up).
TabCumRecs(recs) ==
    LET tot == Totals(recs)
    IN  FrameRecs(tot, LAMBDA i, j : RowIncrement(tot.v[i], j))

\* Triangle-shaped data: rows and columns in the order of their labels.
OrderedGrid(g) ==
    LET o == SortedLabels(Range1(g.o))  d == SortedLabels(Range1(g.d))
        ri == TLCEval([i \in 1..Len(o) |-> CHOOSE k \in 1..Len(g.o) : g.o[k] = o[i]])
        ci == TLCEval([j \in 1..Len(d) |-> CHOOSE k \in 1..Len(g.d) : g.d[k] = d[j]])
    IN  MkFrame(o, d, LAMBDA i, j : g.v[ri[i]][ci[j]])
GridIncrRecs(g) == LET f == OrderedGrid(g) IN FrameRecs(f, LAMBDA i, j : f.v[i][j])
\* An increment is the difference from the origin's previous present amount,
\* whatever the order the columns came in.
GridCumRecs(g)  == LET f == OrderedGrid(g) IN FrameRecs(f, LAMBDA i, j : RowIncrement(f.v[i], j))

(***************************************************************************)
(* Conversions.                                                            *)
(***************************************************************************)
TblRecs(f) == FrameRecs(f, LAMBDA i, j : f.v[i][j])
ToCum(f)   == CumFrame(TblRecs(f))
\* Increments of a cumulative triangle (neighbouring periods both observed).
DiffRecs(f) == FrameRecs(f, LAMBDA i, j :
                  IF j = 1 THEN f.v[i][1] ELSE RSub(f.v[i][j], f.v[i][j - 1]))
ToIncr(f)  == IncrFrame(DiffRecs(f))
\* Rows of the tabulated triangle: <<origin, dev, amount>>, sorted.
Table(f, dropna) ==
    LET all == TLCEval([k \in 1..(NRows(f) * NCols(f)) |->
                 LET i == ((k - 1) \div NCols(f)) + 1  j == ((k - 1) % NCols(f)) + 1
                 IN <<f.o[i], f.d[j], f.v[i][j]>>])
    IN  IF dropna THEN SelectSeq(all, LAMBDA r : Some(r[3])) ELSE all

(***************************************************************************)
(* Geometry.                                                               *)
(***************************************************************************)
ToForecast(f, i, j) == IF i <= LastRow(f, j) THEN 0 ELSE 1
MaturityCol(f, i) == MaxOr0({j \in 1..NCols(f) : ToForecast(f, i, j) = 0})
NbrCells(f) == Cardinality({<<i, j>> \in (1..NRows(f)) \X (1..NCols(f)) : Some(f.v[i][j])})
Latest(f, i) == f.v[i][LastCol(f, i)]
\* Positions of the calendar diagonal at offset k <= 0 of an n x n triangle.
DiagRows(f, k) == LET n == NRows(f) IN SelectSeq([i \in 1..n |-> <<i, n + 1 - i + k>>],
                                                 LAMBDA p : p[2] >= 1)

\* Shape predicates.
IsStaircase(f) == /\ NRows(f) = NCols(f)
                  /\ \A i \in 1..NRows(f) : LastCol(f, i) = NRows(f) + 1 - i
GapFree(f) == \A i \in 1..NRows(f) : \A j \in 1..LastCol(f, i) : Some(f.v[i][j])
Positive(f) == \A i \in 1..NRows(f) : \A j \in 1..NCols(f) : Some(f.v[i][j]) => RLt(R0, f.v[i][j])
==============================================================================
