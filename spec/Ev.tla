---------------------------------- MODULE Ev ----------------------------------
(***************************************************************************)
(* Reading recorded events: decoding of numerals, shape guards (so that a  *)
(* malformed response is a named failure and not an evaluation error), and *)
(* the comparison of recorded with specified values.                       *)
(***************************************************************************)
EXTENDS CL

Has(r, k) == k \in DOMAIN r
Raised(e) == Has(e.out, "exc")
\* {} when cond holds, else the clause's name.
Chk(name, cond) == IF cond THEN {} ELSE {name}
\* Clauses which only make sense once the guard holds.
Guard(g, name, S) == IF g THEN S ELSE {name}

Rect(m, r, c) == Len(m) = r /\ \A i \in 1..Len(m) : Len(m[i]) = c
FrameShapeOK(x) == Has(x, "o") /\ Has(x, "d") /\ Has(x, "v") /\ Rect(x.v, Len(x.o), Len(x.d))
PF(x) == [o |-> x.o, d |-> x.d, v |-> RParseMat(x.v)]
PRecs(s) == TLCEval([k \in 1..Len(s) |-> <<s[k][1], s[k][2], RParse(s[k][3])>>])

MaxAbs(s) == FoldLeft(LAMBDA a, x : IF RIsFin(x) THEN RMax(RAbs(x), a) ELSE a, R0, s)
VecNear(a, b) == /\ Len(a) = Len(b)
                 /\ LET s == MaxAbs(b) IN \A i \in 1..Len(a) : RNear(a[i], b[i], s)
VecClose(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i])
MatNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VecNear(a[i], b[i])
MatClose(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VecClose(a[i], b[i])
\* Recorded frame x against specified frame f.
FrameNear(x, f) == x.o = f.o /\ x.d = f.d /\ MatNear(x.v, f.v)
FrameClose(x, f) == x.o = f.o /\ x.d = f.d /\ MatClose(x.v, f.v)
FrameSame(x, f) == x.o = f.o /\ x.d = f.d /\ x.v = f.v
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
==============================================================================
