-------------------------------- MODULE EvTable --------------------------------
(***************************************************************************)
(* A triangle is an ordinary table (C28): what a program of table          *)
(* operations, applied to a triangle or to the tables an estimate returns, *)
(* answers.  Tables are frames with textual labels; an operation is a      *)
(* record whose field k names it.                                          *)
(***************************************************************************)
EXTENDS EvMore

Text(f) == [o |-> [i \in 1..Len(f.o) |-> ToString(f.o[i])],
            d |-> [j \in 1..Len(f.d) |-> ToString(f.d[j])], v |-> f.v]
Map(f, F(_)) == MkFrame(f.o, f.d, LAMBDA i, j : F(f.v[i][j]))
Sub(f, rows, cols) == MkFrame([i \in 1..Len(rows) |-> f.o[rows[i]]], [j \in 1..Len(cols) |-> f.d[cols[j]]],
                              LAMBDA i, j : f.v[rows[i]][cols[j]])
Upto(a, b) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + k - 1]
Least(a, b) == IF a < b THEN a ELSE b
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Rev(n) == [k \in 1..n |-> n + 1 - k]
\* The nearest present amount on the left, or none.
LeftOf(r, j) == LET p == MaxOr0({k \in 1..j : Some(r[k])}) IN IF p = 0 THEN RNaN ELSE r[p]
Both(x, y, z) == IF Empty(x) \/ Empty(y) THEN RNaN ELSE z
\* Labels of two tables together: the first's, then those it lacks.
Joined(a, b) == a \o SelectSeq(b, LAMBDA x : x \notin Range1(a))
At(f, x, y) == IF x \in Range1(f.o) /\ y \in Range1(f.d) THEN f.v[PosIn(f.o, x)][PosIn(f.d, y)] ELSE RNaN
\* Two tables combined cell by cell, matched by label.
Align(f, g, F(_, _)) ==
    LET o == Joined(f.o, g.o)  d == Joined(f.d, g.d) IN
    MkFrame(o, d, LAMBDA i, j : LET x == At(f, o[i], d[j])  y == At(g, o[i], d[j]) IN
                                IF Empty(x) \/ Empty(y) THEN RNaN ELSE F(x, y))
\* Reductions skip empty cells; a reduction to one figure per label is a
\* table of one column.
OneCol(l, F(_)) == MkFrame(l, <<"">>, LAMBDA i, j : F(i))
Present(s) == SelectSeq(s, Some)
Largest(s) == LET r == Present(s) IN IF r = <<>> THEN RNaN ELSE r[CHOOSE k \in 1..Len(r) : \A q \in 1..Len(r) : RLe(r[q], r[k])]
Transpose(f) == MkFrame(f.d, f.o, LAMBDA i, j : f.v[j][i])
Apply(f, op, g) ==
    CASE op.k = "copy"   -> f
      [] op.k = "iloc"   -> Sub(f, Upto(op.r0 + 1, Least(op.r1, NRows(f))), Upto(op.c0 + 1, Least(op.c1, NCols(f))))
      [] op.k = "loc"    -> Sub(f, [i \in 1..Len(op.o) |-> PosIn(f.o, op.o[i])], [j \in 1..Len(op.d) |-> PosIn(f.d, op.d[j])])
      [] op.k = "locrange" -> Sub(f, Upto(PosIn(f.o, op.o[1]), PosIn(f.o, op.o[2])), Upto(PosIn(f.d, op.d[1]), PosIn(f.d, op.d[2])))
      [] op.k = "T"      -> Transpose(f)
      [] op.k = "fillna" -> Map(f, LAMBDA x : IF Empty(x) THEN RParse(op.x) ELSE x)
      [] op.k = "mul"    -> Map(f, LAMBDA x : IF Empty(x) THEN x ELSE RMul(x, RParse(op.x)))
      [] op.k = "div"    -> Map(f, LAMBDA x : IF Empty(x) THEN x ELSE RDiv(x, RParse(op.x)))
      [] op.k = "add"    -> Map(f, LAMBDA x : IF Empty(x) THEN x ELSE RAdd(x, RParse(op.x)))
      [] op.k = "where"  -> Map(f, LAMBDA x : IF Some(x) /\ RLt(RParse(op.x), x) THEN x ELSE RNaN)
      [] op.k = "isna"   -> Map(f, LAMBDA x : IF Empty(x) THEN R1 ELSE R0)
      [] op.k = "ffill"  -> MkFrame(f.o, f.d, LAMBDA i, j : LeftOf(f.v[i], j))
      [] op.k = "diff"   -> MkFrame(f.o, f.d, LAMBDA i, j : IF j = 1 THEN RNaN
                              ELSE Both(f.v[i][j], f.v[i][j - 1], RSub(f.v[i][j], f.v[i][j - 1])))
      [] op.k = "cumsum" -> MkFrame(f.o, f.d, LAMBDA i, j : IF Empty(f.v[i][j]) THEN RNaN ELSE RSumV(SubSeq(f.v[i], 1, j)))
      [] op.k = "shift"  -> MkFrame(f.o, f.d, LAMBDA i, j : IF j = 1 THEN RNaN ELSE f.v[i][j - 1])
      [] op.k = "latest_first" -> Sub(f, Rev(NRows(f)), Upto(1, NCols(f)))
      [] op.k = "dropna" -> Sub(f, Upto(1, NRows(f)), SelectSeq(Upto(1, NCols(f)), LAMBDA j : \A i \in 1..NRows(f) : Some(f.v[i][j])))
      [] op.k = "minus"  -> Align(f, g, RSub)
      [] op.k = "ratio"  -> Align(f, g, RDiv)
      [] op.k = "sumrows" -> OneCol(f.o, LAMBDA i : RSumV(f.v[i]))
      [] op.k = "sumcols" -> OneCol(f.d, LAMBDA j : RSumV(Col(f.v, j)))
      [] op.k = "maxrows" -> OneCol(f.o, LAMBDA i : Largest(f.v[i]))
      [] op.k = "countcols" -> OneCol(f.d, LAMBDA j : RI(Len(Present(Col(f.v, j)))))
      [] op.k = "column" -> OneCol(f.o, LAMBDA i : f.v[i][PosIn(f.d, op.d[1])])
      [] op.k = "row"    -> OneCol(f.d, LAMBDA j : f.v[PosIn(f.o, op.o[1])][j])
      [] op.k = "total"  -> MkFrame(<<"">>, <<"">>, LAMBDA i, j : RSum([q \in 1..NRows(f) |-> RSumV(f.v[q])]))
RECURSIVE Run(_, _, _)
Run(f, prog, g) == IF prog = <<>> THEN f ELSE Run(TLCEval(Apply(f, Head(prog), g)), Tail(prog), g)
\* The largest figure met on the way (the library computes in floating point).
FrameScale(f) == MaxAbs([i \in 1..NRows(f) |-> MaxAbs(f.v[i])])
RECURSIVE RunScale(_, _, _)
RunScale(f, prog, g) == IF prog = <<>> \/ Head(prog).k = "ratio" THEN FrameScale(f)
                        ELSE RMax(FrameScale(f), RunScale(TLCEval(Apply(f, Head(prog), g)), Tail(prog), g))
\* The other table of a program which combines two: another triangle.
Partner(e) == IF e.h2 = 0 THEN MkFrame(<<>>, <<>>, LAMBDA i, j : RNaN) ELSE Text(objs[e.h2].tri)
Source(e, b) == IF Has(e, "base") THEN PF(e.base) ELSE Text(b.tri)
ProgText(prog) == FoldSeq(LAMBDA op, a : a \o "." \o op.k, "", prog)
TableOpClauses(p, e, b) ==
    LET nm == "." \o e.what \o ProgText(e.prog) IN
    IF Raised(e) THEN {p \o ".raised" \o nm \o "." \o e.out.exc}
    ELSE LET f == Run(Source(e, b), e.prog, Partner(e)) IN
         UNION {Guard(FrameShapeOK(e.out), p \o ".shape" \o nm,
                      UNION {Chk(p \o ".labels" \o nm, e.out.o = f.o /\ e.out.d = f.d),
                             IF e.out.o = f.o /\ e.out.d = f.d THEN LET x == PF(e.out).v
                                         s == IF \E k \in 1..Len(e.prog) : e.prog[k].k = "ratio" THEN FrameScale(f)
                                              ELSE RunScale(Source(e, b), e.prog, Partner(e)) IN
                                     Chk(p \o ".figures" \o nm, \A i \in 1..NRows(f) : \A j \in 1..NCols(f) : RNear(x[i][j], f.v[i][j], s))
                                  ELSE {}}),
                Chk(p \o ".table" \o nm, e.out.table),
                Chk(p \o ".numeric" \o nm, e.out.numeric),
                \* what is done to the answer does not reach the triangle
                Chk(p \o ".triangle_changed" \o nm, ObjSame(e.src, b))}
\* The newest k origins over the first k periods are again a triangle.
CornerClauses(p, e, b) ==
    LET n == NRows(b.tri)  f == Sub(b.tri, Upto(n + 1 - e.k, n), Upto(1, e.k)) IN
    TriClauses(p, e.out, b.kind, <<"origin", "dev", "value">>, f)
==============================================================================
