--------------------------------- MODULE MCTable --------------------------------
(***************************************************************************)
(* Exhaustive model of the table operations: two triangles, the second a   *)
(* later valuation of the first, and every program of up to Depth          *)
(* operations on the first.  Invariants: laws of tables (sums agree both   *)
(* ways, transposing twice, differences accumulate back, labels are        *)
(* matched, nothing is invented where nothing is known).  Every program is *)
(* replayed.                                                               *)
(***************************************************************************)
EXTENDS EvTable, Json
CONSTANTS Depth
VARIABLES prog, done

V == <<<<100, 150, 175>>, <<120, 168>>, <<90>>>>
W == <<<<100, 150, 175, 180>>, <<120, 168, 200>>, <<90, 144>>, <<130>>>>
Tr(R) == LET n == Len(R) IN MkFrame([i \in 1..n |-> 2000 + i], [j \in 1..n |-> j],
                                    LAMBDA i, j : IF j <= Len(R[i]) THEN RI(R[i][j]) ELSE RNaN)
F0 == Text(Tr(V))
G0 == Text(Tr(W))
N0 == <<>>
Ops == {[k |-> "T"], [k |-> "fillna", x |-> "0"], [k |-> "mul", x |-> "2"], [k |-> "add", x |-> "1"],
        [k |-> "isna"], [k |-> "ffill"], [k |-> "diff"], [k |-> "cumsum"], [k |-> "shift"],
        [k |-> "latest_first"], [k |-> "dropna"], [k |-> "minus"], [k |-> "ratio"],
        [k |-> "iloc", r0 |-> 0, r1 |-> 2, c0 |-> 1, c1 |-> 3], [k |-> "copy"]}
Ends == {[k |-> "sumrows"], [k |-> "sumcols"], [k |-> "countcols"], [k |-> "maxrows"], [k |-> "total"]}
F == TLCEval(Run(F0, prog, G0))

Init == SInit /\ prog = N0 /\ done = FALSE
Op == /\ ~done /\ NRows(F) > 0 /\ NCols(F) > 0 /\ Len(prog) < Depth
      /\ \E q \in Ops : prog' = Append(prog, q) /\ UNCHANGED done
End == /\ ~done /\ NRows(F) > 0 /\ NCols(F) > 0 /\ \E q \in Ends : prog' = Append(prog, q) /\ done' = TRUE
Next == (Op \/ End) /\ Look
Spec == Init /\ [][Next]_<<prog, done, svars>>

\* What is known: cells present.
Known(f) == {<<f.o[i], f.d[j]>> : <<i, j>> \in {q \in (1..NRows(f)) \X (1..NCols(f)) : Some(f.v[q[1]][q[2]])}}
Fin(f) == \A i \in 1..NRows(f) : \A j \in 1..NCols(f) : Empty(f.v[i][j]) \/ RIsFin(f.v[i][j])
Tot(f) == Run(f, <<[k |-> "total"]>>, G0).v[1][1]
ColSum(f) == RSum([i \in 1..NRows(f) |-> f.v[i][1]])
Laws == ~done =>
    /\ Apply(Apply(F, [k |-> "T"], G0), [k |-> "T"], G0) = F
    /\ Fin(F) => LET a == Apply(F, [k |-> "sumrows"], G0)  b == Apply(F, [k |-> "sumcols"], G0) IN
                 ColSum(a) = Tot(F) /\ ColSum(b) = Tot(F)
    /\ Known(Apply(F, [k |-> "minus"], G0)) = Known(F) \cap Known(G0)
    /\ Known(Apply(F, [k |-> "cumsum"], G0)) = Known(F)
    /\ Known(Apply(F, [k |-> "diff"], G0)) \subseteq Known(F)
    /\ Known(F) \subseteq Known(Apply(F, [k |-> "ffill"], G0))
    /\ Cardinality(Known(Apply(F, [k |-> "fillna", x |-> "0"], G0))) = NRows(F) * NCols(F)
    /\ Fin(F) => Tot(Apply(F, [k |-> "fillna", x |-> "0"], G0)) = Tot(F)
    /\ Fin(F) => Tot(Apply(F, [k |-> "mul", x |-> "2"], G0)) = RMul(RI(2), Tot(F))
    /\ LET c == Apply(F, [k |-> "countcols"], G0) IN ColSum(c) = RI(Cardinality(Known(F)))
\* Of the triangle itself: an earlier valuation less itself leaves nothing;
\* increments accumulate back to it.
OfTriangle == prog = N0 =>
    /\ Tot(Apply(F, [k |-> "minus"], F)) = R0
    /\ LET d == Apply(F, [k |-> "diff"], G0)  i == MkFrame(F.o, F.d, LAMBDA a, b : IF b = 1 THEN F.v[a][1] ELSE d.v[a][b]) IN
       Apply(i, [k |-> "cumsum"], G0) = F /\ i.v = ToIncr(Tr(V)).v
    /\ Known(F) \subseteq Known(G0)
Emit == done => PrintT("IN " \o ToJson([kind |-> "prog", prog |-> prog, f |-> V, g |-> W]))
==============================================================================
