--------------------------------- MODULE EvTri --------------------------------
(***************************************************************************)
(* Construction, conversion and geometry events.                           *)
(*                                                                         *)
(* An object (live triangle) is                                            *)
(*   [kind |-> "incr" | "cum", names |-> <<origin, dev, value>>,           *)
(*    tri |-> frame, ind |-> indicator matrix (<<>> for incremental)]      *)
(***************************************************************************)
EXTENDS Ev

\* The records an input denotes, in every accepted format and shape.
InputRecs(in) ==
    CASE in.shape = "tabular"  /\ in.fmt = "incr" -> PRecs(in.recs)
      [] in.shape = "tabular"  /\ in.fmt = "cum"  -> TabCumRecs(PRecs(in.recs))
      [] in.shape = "triangle" /\ in.fmt = "incr" -> GridIncrRecs(PF(in.grid))
      [] in.shape = "triangle" /\ in.fmt = "cum"  -> GridCumRecs(PF(in.grid))
NamesOf(in) == IF in.shape = "triangle" THEN <<"origin", "dev", "value">> ELSE in.names

\* A recorded triangle response against what it should be.
TriClauses(p, out, kind, names, f) ==
    IF Has(out, "exc") THEN {p \o ".raised"}
    ELSE Guard(FrameShapeOK(out), p \o ".shape",
           LET x == PF(out) IN
           UNION {Chk(p \o ".kind", out.kind = kind),
                  Chk(p \o ".names", out.names = names),
                  Chk(p \o ".origins", x.o = f.o),
                  Chk(p \o ".periods", x.d = f.d),
                  IF x.o = f.o /\ x.d = f.d THEN Chk(p \o ".cells", MatNear(x.v, f.v)) ELSE {}})

BuildClauses(p, e) ==
    UNION {TriClauses(p, e.out, e.in.kind, NamesOf(e.in), BuildFrame(e.in.kind, InputRecs(e.in))),
           Chk(p \o ".input_altered", e.unaltered)}

\* Object a recorded construction creates (the response is adopted).
ObjOf(out) == LET x == PF(out) IN
    [kind |-> out.kind, names |-> out.names, tri |-> x,
     ind |-> IF out.kind = "cum" THEN FullInd(A2A(x)) ELSE <<>>]

ConvertClauses(p, e, b) ==
    LET f == IF e.op = "to_cum" THEN ToCum(b.tri) ELSE ToIncr(b.tri)
    IN  TriClauses(p, e.out, IF e.op = "to_cum" THEN "cum" ELSE "incr", b.names, f)
        \cup Chk(p \o ".source_altered", Has(e, "src") /\ FrameSame(PF(e.src), b.tri))

\* Reversibility: a recorded conversion chain returns to where it began.
RoundTripClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised"}
    ELSE Guard(FrameShapeOK(e.out), p \o ".shape",
               Chk(p \o ".roundtrip", FrameNear(PF(e.out), b.tri) /\ e.out.names = b.names))

TableClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised"}
    ELSE LET t == Table(b.tri, e.dropna)
             r == PRecs(e.out.rows)
         IN  UNION {Chk(p \o ".table.columns", e.out.cols = b.names),
                    Chk(p \o ".table.length", Len(r) = Len(t)),
                    IF Len(r) = Len(t)
                    THEN UNION {Chk(p \o ".table.keys", \A k \in 1..Len(r) : r[k][1] = t[k][1] /\ r[k][2] = t[k][2]),
                                Chk(p \o ".table.amounts", \A k \in 1..Len(r) : r[k][3] = t[k][3])}
                    ELSE {}}

(***************************************************************************)
(* Geometry responses.                                                     *)
(***************************************************************************)
GeomClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  g == e.out  m == NRows(f)  n == NCols(f)
             lc == TLCEval([i \in 1..m |-> LastCol(f, i)])
             lr == TLCEval([j \in 1..n |-> LastRow(f, j)])
             lat == TLCEval([i \in 1..m |-> f.v[i][lc[i]]])
             lv == RParseSeq(g.latest.v)
             dv == RParseSeq(g.latest_by_devp.v)
         IN UNION {
            Chk(p \o ".latest.columns", g.latest.cols = <<"origin", "dev", "latest">>),
            Chk(p \o ".latest.origins", g.latest.o = f.o),
            Chk(p \o ".latest.periods", g.latest.d = [i \in 1..m |-> f.d[lc[i]]]),
            Chk(p \o ".latest.amounts", lv = lat),
            Chk(p \o ".latest_by_origin", g.latest_by_origin.idx = f.o /\ RParseSeq(g.latest_by_origin.v) = lat),
            Chk(p \o ".latest_by_devp",
                LET key == [k \in 1..Len(dv) |-> <<g.latest_by_devp.idx[k], dv[k]>>]
                    want == {<<f.d[lc[i]], lat[i]>> : i \in 1..m}
                IN  /\ Len(dv) = m
                    /\ \A k \in 1..(m - 1) : key[k][1] <= key[k + 1][1]
                    /\ {key[k] : k \in 1..m} = want),
            Chk(p \o ".rlvi", g.rlvi.idx = f.o /\ g.rlvi.dev = [i \in 1..m |-> f.d[lc[i]]]
                              /\ g.rlvi.off = [i \in 1..m |-> lc[i] - 1]),
            Chk(p \o ".clvi", g.clvi.idx = f.d /\ g.clvi.origin = [j \in 1..n |-> f.o[lr[j]]]
                              /\ g.clvi.off = [j \in 1..n |-> lr[j] - 1]),
            Chk(p \o ".triind", g.triind.o = f.o /\ g.triind.d = f.d /\ Rect(g.triind.v, m, n)
                                /\ \A i \in 1..m : \A j \in 1..n : g.triind.v[i][j] = IF i <= lr[j] THEN 0 ELSE 1),
            Chk(p \o ".maturity", g.maturity.idx = f.o
                                  /\ g.maturity.v = [i \in 1..m |-> f.d[MaxOr0({j \in 1..n : i <= lr[j]})]]),
            Chk(p \o ".origins", g.origins = f.o),
            Chk(p \o ".devp", g.devp = f.d),
            Chk(p \o ".nbr_cells", g.nbr = NbrCells(f))}

DiagClauses(p, e, b) ==
    LET f == b.tri  n == NRows(f) IN
    IF e.offset < -(n - 1) THEN Chk(p \o ".diagonal.rejects", Raised(e) /\ e.out.exc = "ValueError")
    ELSE IF Raised(e) THEN {p \o ".diagonal.raised"}
    ELSE LET t == DiagRows(f, e.offset)  r == PRecs(e.out.rows)
         IN UNION {Chk(p \o ".diagonal.columns", e.out.cols = <<"origin", "dev", "value">>),
                   Chk(p \o ".diagonal", r = [k \in 1..Len(t) |-> <<f.o[t[k][1]], f.d[t[k][2]], f.v[t[k][1]][t[k][2]]>>])}

(***************************************************************************)
(* Link ratios and indicator.                                              *)
(***************************************************************************)
A2AClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".a2a.raised"}
    ELSE Guard(FrameShapeOK(e.out), p \o ".a2a.shape",
               LET a == A2A(b.tri)  x == PF(e.out)
               IN UNION {Chk(p \o ".a2a.labels", x.o = a.o /\ x.d = a.d),
                         IF x.o = a.o /\ x.d = a.d THEN Chk(p \o ".a2a.ratios", MatClose(x.v, a.v)) ELSE {}})
IndClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".a2aind.raised"}
    ELSE LET a == A2A(b.tri)
         IN UNION {Chk(p \o ".a2aind.labels", e.out.o = a.o /\ e.out.d = a.d),
                   Chk(p \o ".a2aind.values", e.out.v = b.ind)}
\* Assignment to the entry labelled (o, d).
SetInd(b, o, d, x) ==
    LET a == A2A(b.tri)
        i == CHOOSE k \in 1..Len(a.o) : a.o[k] = o
        j == CHOOSE k \in 1..Len(a.d) : a.d[k] = d
    IN  [b EXCEPT !.ind = TLCEval([k \in 1..Len(a.o) |-> TLCEval([c \in 1..Len(a.d) |->
            IF k = i /\ c = j THEN x ELSE b.ind[k][c]])])]
\* The object's observable state after a call: cells, names and indicator.
ObjSame(x, b) == /\ FrameShapeOK(x)
                 /\ FrameSame(PF(x), b.tri) /\ x.kind = b.kind /\ x.names = b.names
                 /\ (Has(x, "ind") => x.ind = b.ind)
==============================================================================
