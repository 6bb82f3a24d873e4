--------------------------------- MODULE EvDev --------------------------------
(***************************************************************************)
(* Averages and base chain ladder events.                                  *)
(***************************************************************************)
EXTENDS EvTri

AvgsClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised"}
    ELSE LET f == b.tri  a == A2A(f)  rows == AvgRows(a)
             labels == [k \in 1..Len(rows) |-> rows[k][1]]
         IN  UNION {
              Chk(p \o ".rows", Range1(e.out.idx) = Range1(labels) /\ Len(e.out.idx) = Len(labels)),
              Chk(p \o ".periods", e.out.d = a.d),
              IF Range1(e.out.idx) = Range1(labels) /\ Len(e.out.idx) = Len(labels)
                 /\ e.out.d = a.d /\ Rect(e.out.v, Len(labels), Len(a.d))
              THEN LET m == RParseMat(e.out.v) IN
                   UNION {LET q == CHOOSE r \in 1..Len(e.out.idx) : e.out.idx[r] = rows[k][1]
                          IN UNION {Chk(p \o "." \o rows[k][1],
                                        AvgOK(m[q][j], f, a, b.ind, rows[k][2], rows[k][3], j))
                                    : j \in 1..Len(a.d)}
                          : k \in 1..Len(rows)}
              ELSE {p \o ".shape"}}

(***************************************************************************)
(* Base chain ladder.  e.sel.by: "name" (a row of the averages), "values"  *)
(* (list or array), "labels" (series: values by period label).             *)
(***************************************************************************)
FactorOK(x, sel, f, a, ind, j) ==
    CASE sel.by = "name" ->
           LET rows == AvgRows(a)
               r == CHOOSE k \in 1..Len(rows) : rows[k][1] = sel.name
           IN  AvgOK(x, f, a, ind, rows[r][2], rows[r][3], j)
      [] sel.by = "values" -> RClose(x, RParse(sel.v[j]))
      [] sel.by = "labels" ->
           LET q == CHOOSE k \in 1..Len(sel.idx) : sel.idx[k] = f.d[j]
           IN  RClose(x, RParse(sel.v[q]))

SummaryShape(s, n) == /\ Len(s.idx) = n + 1
                      /\ \A c \in {"maturity", "cldf", "emergence", "latest", "ultimate", "reserve"} :
                            Has(s.col, c) /\ Len(s.col[c]) = n + 1

\* Clauses common to the summaries of all methods, given the factors used.
CommonSummary(p, s, f, ldf) ==
    LET n == NRows(f)
        P(c) == RParseSeq(s.col[c])
        cl == P("cldf")  em == P("emergence")  la == P("latest")
    IN UNION {
        Chk(p \o ".index", s.idx = [i \in 1..(n + 1) |-> IF i <= n THEN ToString(f.o[i]) ELSE "total"]),
        Chk(p \o ".maturity", \A i \in 1..n : s.col["maturity"][i] = ToString(f.d[LastCol(f, i)])),
        Chk(p \o ".total.maturity", s.col["maturity"][n + 1] = ""),
        Chk(p \o ".cldf", \A i \in 1..n : RClose(cl[i], CumFactor(ldf, LastCol(f, i)))),
        Chk(p \o ".total.cldf", RIsNaN(cl[n + 1]) /\ RIsNaN(em[n + 1])),
        Chk(p \o ".emergence", \A i \in 1..n : RClose(em[i], RDiv(R1, cl[i]))),
        Chk(p \o ".latest", \A i \in 1..n : la[i] = Latest(f, i)),
        Chk(p \o ".total.latest", RNear(la[n + 1], RSumV(SubSeq(la, 1, n)), R0))}
\* Ultimates by factor (base and Mack).
FactorUltimates(p, s, f) ==
    LET n == NRows(f)
        P(c) == RParseSeq(s.col[c])
        cl == P("cldf")  la == P("latest")  ul == P("ultimate")  re == P("reserve")
    IN UNION {
        Chk(p \o ".ultimate", \A i \in 1..n : RClose(ul[i], RMul(la[i], cl[i]))),
        Chk(p \o ".reserve", \A i \in 1..n : RNear(re[i], RSub(ul[i], la[i]), la[i])),
        Chk(p \o ".total.ultimate", RNear(ul[n + 1], RSumV(SubSeq(ul, 1, n)), MaxAbs(ul))),
        Chk(p \o ".total.reserve", RNear(re[n + 1], RSumV(SubSeq(re, 1, n)), MaxAbs(ul)))}

BaseClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  a == A2A(f)  n == NRows(f)  o == e.out
             ldf == RParseSeq(o.ldfs.v)  tail == RParse(e.tail)
         IN Guard(SummaryShape(o.summary, n) /\ Len(ldf) = n, p \o ".shape", UNION {
              Chk(p \o ".ldfs.labels", o.ldfs.idx = f.d),
              Chk(p \o ".ldfs", \A j \in 1..(n - 1) : FactorOK(ldf[j], e.sel, f, a, b.ind, j)),
              Chk(p \o ".tail", RClose(ldf[n], tail)),
              CommonSummary(p, o.summary, f, ldf),
              FactorUltimates(p, o.summary, f),
              Chk(p \o ".attr.tail", RClose(RParse(o.tail), tail)),
              Chk(p \o ".attr.sel", IF e.sel.by = "name" THEN o.sel = e.sel.name
                                    ELSE /\ Len(o.sel) >= n - 1
                                         /\ \A j \in 1..(n - 1) : FactorOK(RParse(o.sel[j]), e.sel, f, a, b.ind, j)),
              UNION {Chk(p \o ".attr." \o q[1], o.attrs[q[1]] = o.summary.col[q[2]]) :
                     q \in {<<"latest", "latest">>, <<"ultimate", "ultimate">>, <<"reserve", "reserve">>,
                            <<"cldfs", "cldf">>, <<"emergence", "emergence">>, <<"maturity", "maturity">>}},
              Chk(p \o ".attr.tri", ObjSame(o.tri, b))})

SquareClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised"}
    ELSE LET f == b.tri  n == NRows(f)  o == e.out
             ldf == RParseSeq(o.ldfs.v)  sq == RParseMat(o.trisqrd.v)
             want == SquareUlt(f, ldf)
         IN Guard(Len(ldf) = n /\ Rect(sq, n, n + 1), p \o ".shape", UNION {
              Chk(p \o ".origins", o.trisqrd.o = f.o),
              Chk(p \o ".periods", o.trisqrd.d = [j \in 1..(n + 1) |-> IF j <= n THEN ToString(f.d[j]) ELSE "ultimate"]),
              Chk(p \o ".observed", \A i \in 1..n : \A j \in 1..n : Some(f.v[i][j]) => sq[i][j] = f.v[i][j]),
              Chk(p \o ".forecast", \A i \in 1..n : \A j \in 1..n : Empty(f.v[i][j]) => RClose(sq[i][j], want[i][j])),
              Chk(p \o ".ultimate", \A i \in 1..n : RClose(sq[i][n + 1], want[i][n + 1])),
              Chk(p \o ".empty_cell", \A i \in 1..n : \A j \in 1..(n + 1) : RIsFin(sq[i][j])),
              IF e.op = "base" THEN Chk(p \o ".summary_ultimate",
                  LET ul == RParseSeq(o.summary.col["ultimate"]) IN
                  Len(ul) = n + 1 /\ \A i \in 1..n : RClose(sq[i][n + 1], ul[i])) ELSE {},
              Chk(p \o ".source_altered", ObjSame(e.src, b))})
==============================================================================
