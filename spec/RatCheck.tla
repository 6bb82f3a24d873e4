------------------------------- MODULE RatCheck -------------------------------
(* Compares the unbounded overrides of Rat with Rat's own definitions (as     *)
(* RatPure, a textual copy under another name that nothing overrides) on a    *)
(* grid of small operands, and the real functions with their defining series. *)
EXTENDS Integers, Sequences, TLC, Rat
P == INSTANCE RatPure
N == -4..4
D == 0..4
Small == {P!RQ(n, d) : n \in N, d \in D}
Up(a) == RQ(a[1], a[2])
Same(x, y) == x = Up(y)
ASSUME \A a \in Small :
    /\ RIsNaN(Up(a)) = P!RIsNaN(a) /\ RIsFin(Up(a)) = P!RIsFin(a) /\ RSgn(Up(a)) = P!RSgn(a)
    /\ Same(RNeg(Up(a)), P!RNeg(a)) /\ Same(RAbs(Up(a)), P!RAbs(a))
    /\ \A k \in 0..3 : Same(RPow(Up(a), k), P!RPow(a, k))
ASSUME \A a, b \in Small :
    /\ Same(RAdd(Up(a), Up(b)), P!RAdd(a, b))
    /\ Same(RSub(Up(a), Up(b)), P!RSub(a, b))
    /\ Same(RMul(Up(a), Up(b)), P!RMul(a, b))
    /\ Same(RDiv(Up(a), Up(b)), P!RDiv(a, b))
    /\ Same(RMax(Up(a), Up(b)), P!RMax(a, b)) /\ Same(RMin(Up(a), Up(b)), P!RMin(a, b))
    /\ RLt(Up(a), Up(b)) = P!RLt(a, b) /\ RLe(Up(a), Up(b)) = P!RLe(a, b)
    /\ \A s \in {P!RI(0), P!RI(7), P!RNaN} :
          RNearTol(Up(a), Up(b), Up(s), 1, 3) = P!RNearTol(a, b, s, 1, 3)
Tiny == {P!RQ(0,0), P!RQ(1,0), P!RQ(-1,2), P!RQ(0,1), P!RQ(2,3), P!RQ(3,1)}
ASSUME \A a, b, c \in Tiny :
    LET s == <<a, b, c>>  u == <<Up(a), Up(b), Up(c)>> IN
    /\ Same(RSum(u), P!RSum(s)) /\ Same(RProd(u), P!RProd(s)) /\ Same(RSumV(u), P!RSumV(s))
    /\ Same(RDot(u, <<Up(b), Up(c), Up(a)>>), P!RDot(s, <<b, c, a>>))
    /\ (~P!RIsNaN(a) /\ ~P!RIsNaN(b) /\ ~P!RIsNaN(c)) =>
          RSort(u) = [i \in 1..3 |-> Up(P!RSort(s)[i])]
ASSUME /\ RParse("-12.50") = RQ(-25, 2) /\ RParse("1e3") = RI(1000) /\ RParse("2.5E-1") = RQ(1, 4)
       /\ RParse("nan") = RNaN /\ RParse("inf") = RInf /\ RParse("-inf") = RNeg(RInf)
       /\ RParseMat(<<<<"1", "2">>, <<"3">>>>) = <<<<RI(1), RI(2)>>, <<RI(3)>>>>
(***************************************************************************)
(* Real functions: the overrides against truncated series over rationals.  *)
(***************************************************************************)
RECURSIVE ExpSer(_, _, _, _)
ExpSer(x, t, k, acc) == IF k > 40 THEN acc ELSE ExpSer(x, RDiv(RMul(t, x), RI(k)), k + 1, RAdd(acc, t))
ExpS(x) == ExpSer(x, R1, 1, R0)
\* ln(x) = 2 artanh((x-1)/(x+1)), |x| within [1/3, 3]
LnS(x) == LET y == RDiv(RSub(x, R1), RAdd(x, R1))
          IN  RMul(RI(2), RSum([k \in 1..40 |-> RDiv(RPow(y, 2 * k - 1), RI(2 * k - 1))]))
RECURSIVE OddSer(_, _, _, _)
OddSer(x, t, k, acc) == IF k > 40 THEN acc
                        ELSE OddSer(x, RDiv(RMul(t, RMul(x, x)), RI(2 * k + 1)), k + 1, RAdd(acc, t))
Pi == RParse("3.14159265358979323846264338327950288")
PhiS(x) == RAdd(RQ(1, 2), RDiv(RMul(OddSer(x, x, 1, R0), RExp(RDiv(RMul(x, x), RI(-2)))), RSqrt(RMul(RI(2), Pi))))
Near12(a, b) == RNearTol(a, b, R0, 1, 2000000000) /\ RNearTol(RMul(RI(1000), RSub(a, b)), R0, b, 1, 1000000000)
Grid == {RQ(n, 4) : n \in -8..8}
ASSUME \A x \in Grid : Near12(RExp(x), ExpS(x))
ASSUME \A x \in {RQ(n, 8) : n \in 3..23} : Near12(RLn(x), LnS(x))
ASSUME \A x \in Grid : Near12(RPhi(x), PhiS(x))
ASSUME \A n \in 0..30 : Near12(RMul(RSqrt(RQ(n, 7)), RSqrt(RQ(n, 7))), RQ(n, 7))
ASSUME RPhi(R0) = RQ(1, 2) /\ RLn(R1) = R0 /\ RExp(R0) = R1
ASSUME PrintT("RATCHECK OK")
===============================================================================
