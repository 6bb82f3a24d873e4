--------------------------------- MODULE MCReq --------------------------------
(***************************************************************************)
(* Exhaustive model of request sequences: any kind of request, admissible  *)
(* or not, in any order.  A refused request leaves the triangle as it was  *)
(* and does not make a later admissible one refused.  The boundary of      *)
(* admissibility is enumerated around its edges in the assumptions.        *)
(***************************************************************************)
EXTENDS EvMisc, Json
CONSTANTS Kinds, Sizes, MaxLen
VARIABLES size, reqs, answers, state

AllKinds == {"levels", "offset", "factors", "selection", "dist", "procdist", "interpolation", "glm", "data_format", "data_shape",
             "totri_kind", "columns", "frame", "dataset", "tri_type"}
ThreeSizes == {4, 5, 6}
OneSize == {4}
Init == SInit /\ size \in Sizes /\ reqs = <<>> /\ answers = <<>> /\ state = 0
Refuse(k) == reqs' = Append(reqs, <<k, "bad">>) /\ answers' = Append(answers, "error") /\ UNCHANGED <<size, state>>
Answer(k) == reqs' = Append(reqs, <<k, "good">>) /\ answers' = Append(answers, "result") /\ UNCHANGED <<size, state>>
Next == Len(reqs) < MaxLen /\ \E k \in Kinds : Refuse(k) \/ (k # "glm" /\ Answer(k))
Spec == Init /\ [][Next /\ Look]_<<size, reqs, answers, state, svars>>
Judged == \A k \in 1..Len(reqs) : (answers[k] = "error") <=> (reqs[k][2] = "bad")
Unmoved == state = 0
\* Edges of the numeric requests.
ASSUME \A x \in {RQ(-1, 1000000), RQ(1000001, 1000000), RI(-1), RI(2), RNaN, RInf} : ~InUnit(<<RQ(1, 2), x>>)
ASSUME \A x \in {R0, R1, RQ(1, 1000000), RQ(999999, 1000000)} : InUnit(<<x>>)
ASSUME \A n \in 2..6 : LET f == MkFrame([i \in 1..n |-> i], [i \in 1..n |-> i], LAMBDA i, j : IF i + j <= n + 1 THEN RI(i + j) ELSE RNaN) IN
         /\ Len(DiagRows(f, 0)) = n /\ Len(DiagRows(f, 1 - n)) = 1 /\ DiagRows(f, -n) = <<>>
         /\ Cardinality({AvgRows(A2A(f))[k][1] : k \in 1..(4 * (n - 1))}) = 4 * (n - 1)
Emit == Len(reqs) = MaxLen => PrintT("IN " \o ToJson([n |-> size, reqs |-> reqs]))
==============================================================================
