-------------------------------- MODULE MCLevels ------------------------------
(***************************************************************************)
(* Exhaustive model of quantile requests: levels are asked for one by one  *)
(* (any order, repeats allowed), one- or two-sidedly.  The invariants are  *)
(* the laws of the levels actually tabulated, of their headings, and of    *)
(* percentiles under each interpolation; every request is replayed.        *)
(***************************************************************************)
EXTENDS EvBoot, Json
CONSTANTS Pool, MaxLen
VARIABLES q, two

Small == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<3, 4>>, <<1, 3>>, <<1, 100>>, <<199, 200>>}
Wide == Small \cup {<<1, 4>>, <<11, 100>>, <<12, 100>>, <<22, 100>>, <<23, 100>>, <<19, 20>>, <<13, 16>>, <<1, 1000>>}
Init == q = <<>> /\ two \in BOOLEAN
Next == Len(q) < MaxLen /\ \E x \in Pool : q' = Append(q, x) /\ UNCHANGED two
Spec == Init /\ [][Next]_<<q, two>>

Q == TLCEval([k \in 1..Len(q) |-> RQ(q[k][1], q[k][2])])
L == Levels(Q, two)
Half == RQ(1, 2)
Asked == q # <<>>
InRange(s) == \A k \in 1..Len(s) : RLe(R0, s[k]) /\ RLe(s[k], R1)
Ascending == Asked => \A k \in 1..(Len(L) - 1) : RLt(L[k], L[k + 1])
InsideUnit == Asked => InRange(L)
OneSided == (Asked /\ ~two) => Range1(L) = Range1(Q)
\* Both tails of each level, and the levels are symmetric.
TwoSided == (Asked /\ two) =>
   /\ \A x \in Range1(Q) : \E a \in Range1(L) : \E b \in Range1(L) : RSub(b, a) = x /\ RAdd(a, b) = R1
   /\ \A x \in Range1(L) : RSub(R1, x) \in Range1(L)
   /\ Len(L) <= 2 * Len(Q)
OrderFree == Asked => \A p \in Permutations(1..Len(Q)) : Levels([k \in 1..Len(Q) |-> Q[p[k]]], two) = L
\* Headings tell levels apart.
Head5(x) == RDec5(RMul(RI(100), x))
Headings == Asked => \A i \in 1..Len(L) : \A k \in 1..Len(L) : i # k => Head5(L[i]) # Head5(L[k])
ASSUME Suffix(RI(1)) = "st" /\ Suffix(RI(2)) = "nd" /\ Suffix(RI(3)) = "rd" /\ Suffix(RI(4)) = "th" /\ Suffix(RI(11)) = "th"
       /\ Suffix(RI(12)) = "th" /\ Suffix(RI(13)) = "th" /\ Suffix(RI(21)) = "st" /\ Suffix(RI(92)) = "nd" /\ Suffix(RI(100)) = "th"
       /\ Suffix(RQ(199, 2)) = "th"
\* Percentiles of sorted samples.
Sample(m) == [k \in 1..m |-> RI(k * k - 3)]
Interps == {"linear", "lower", "higher", "midpoint", "nearest"}
Only(S) == CHOOSE x \in S : TRUE
Exact(t, u, m) == QuantCands(t, u, m)
Percentiles == (Asked /\ Len(q) = 1) =>
   \A m \in {1, 2, 3, 5, 8} : LET t == Sample(m)  u == Q[1] IN
     /\ \A i \in Interps : \A x \in Exact(t, u, i) : RLe(t[1], x) /\ RLe(x, t[m])
     /\ u = R0 => \A i \in {"lower", "nearest"} : QuantOK(t[1], t, u, i)
     /\ u = R1 => \A i \in {"higher", "nearest"} : QuantOK(t[m], t, u, i)
     \* lower <= linear <= higher and midpoint is between them
     /\ \A i \in Interps : \E a \in Exact(t, u, "lower") : \E b \in Exact(t, u, "higher") :
          \A x \in Exact(t, u, i) : \E y \in {a, b} : RLe(a, x) \/ RLe(x, b)
     \* at least the share u of the sample is at or below "higher"
     /\ \E x \in Exact(t, u, "higher") : RLe(RMul(u, RI(m - 1)), RI(Cardinality({k \in 1..m : RLe(t[k], x)})))
     /\ \E x \in Exact(t, u, "lower") : RLe(RI(Cardinality({k \in 1..m : RLt(t[k], x)})), RMul(u, RI(m - 1)))
Monotone == (Asked /\ Len(q) = 2 /\ RLe(Q[1], Q[2])) =>
   \A m \in {1, 3, 5} : \A i \in Interps : \E x \in Exact(Sample(m), Q[1], i) : \E y \in Exact(Sample(m), Q[2], i) : RLe(x, y)
\* The normal's median is its mean; its levels order its quantiles.
Normal == (Asked /\ Len(q) = 1 /\ q[1] = <<1, 2>>) =>
   /\ IsQuantile(RI(7), "norm", RI(7), RI(2), Half) /\ ~IsQuantile(RI(8), "norm", RI(7), RI(2), Half)
   /\ IsQuantile(RNeg(RInf), "norm", RI(7), RI(2), R0) /\ IsQuantile(RInf, "norm", RI(7), RI(2), R1)
   /\ IsQuantile(R0, "lognorm", RI(7), RI(2), R0) /\ RIsNaN(RNaN) /\ IsQuantile(RNaN, "lognorm", RI(-7), RI(2), Half)
   /\ ~IsQuantile(RI(7), "lognorm", RI(7), RI(2), Half)
Emit == Asked => PrintT("IN " \o ToJson([q |-> q, two |-> two]))
==============================================================================
