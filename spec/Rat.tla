--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Extended rational numbers: the carrier of every amount, factor and      *)
(* statistic in the trikit specification.                                  *)
(*                                                                         *)
(* A number is <<n, d>>, n and d integers, d >= 0, in lowest terms:        *)
(*   d > 0          the rational n/d                                       *)
(*   <<0, 0>>       NaN ("no value": an empty cell, an undefined average)  *)
(*   <<1,0>>,<<-1,0>>  plus and minus infinity                             *)
(* which makes the arithmetic below follow IEEE conventions (0/0 is NaN,   *)
(* x/0 is infinite) exactly where the implementation relies on them.       *)
(* Numbers are unique representations, so "=" is equality (and NaN = NaN). *)
(*                                                                         *)
(* The definitions are executable for small operands.  TLC's integers have *)
(* 32 bits, so java/Rat.java overrides every operator below with the same  *)
(* function over unbounded integers (an integer is then held as the        *)
(* sequence <<sign, limb, limb, ...>> in radix 2^30); RatCheck.tla         *)
(* compares the two on a grid of operands.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Abs(n) == IF n < 0 THEN -n ELSE n
LOCAL Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
LOCAL GCD[m \in Nat, n \in Nat] == IF n = 0 THEN m ELSE GCD[n, m % n]
LOCAL Norm(n, d) == IF d = 0 THEN <<Sgn(n), 0>>
                    ELSE LET s == Sgn(d)  g == GCD[Abs(n), Abs(d)]
                         IN  <<s * (Abs(n) \div g) * Sgn(n), Abs(d) \div g>>

RI(n) == <<n, 1>>                      \* the integer n
RQ(n, d) == Norm(n, d)                 \* the quotient n/d
RNaN == RQ(0, 0)
RInf == RQ(1, 0)
R0 == RI(0)
R1 == RI(1)

RIsNaN(a) == a = <<0, 0>>
RIsFin(a) == a[2] # 0                  \* neither NaN nor infinite
RSgn(a)   == Sgn(a[1])                 \* -1, 0, 1  (0 for NaN)

RNeg(a) == <<-a[1], a[2]>>
RAbs(a) == <<Abs(a[1]), a[2]>>
RAdd(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN <<0, 0>>
              ELSE IF a[2] = 0 /\ b[2] = 0 THEN IF a = b THEN a ELSE <<0, 0>>
              ELSE Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN <<0, 0>>
              ELSE Norm(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN <<0, 0>>
              ELSE IF b[2] = 0 THEN IF a[2] = 0 THEN <<0, 0>> ELSE <<0, 1>>
              ELSE IF b[1] = 0 THEN <<Sgn(a[1]), 0>>
              ELSE Norm(a[1] * b[2], a[2] * b[1])
\* Comparisons are FALSE when a side is NaN.
RLt(a, b) == /\ ~RIsNaN(a) /\ ~RIsNaN(b)
             /\ IF a[2] = 0 /\ b[2] = 0 THEN a[1] < b[1] ELSE a[1] * b[2] < b[1] * a[2]
RLe(a, b) == RLt(a, b) \/ (a = b /\ ~RIsNaN(a))
RMax(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN <<0, 0>> ELSE IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RIsNaN(a) \/ RIsNaN(b) THEN <<0, 0>> ELSE IF RLt(b, a) THEN b ELSE a

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(a, RPow(a, k - 1))
RECURSIVE RSum(_)                      \* sum of a sequence of numbers
RSum(s) == IF s = <<>> THEN <<0, 1>> ELSE RAdd(Head(s), RSum(Tail(s)))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN <<1, 1>> ELSE RMul(Head(s), RProd(Tail(s)))
RDot(s, t) == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
\* Sum of the numbers of a sequence that are not NaN (what a column total is).
RSumV(s) == RSum(SelectSeq(s, LAMBDA x : ~RIsNaN(x)))
\* The sequence in ascending order (NaN-free sequences).
RECURSIVE RSort(_)
RSort(s) == IF s = <<>> THEN <<>>
            ELSE LET p == Head(s)
                     lo == SelectSeq(Tail(s), LAMBDA x : RLt(x, p))
                     hi == SelectSeq(Tail(s), LAMBDA x : ~RLt(x, p))
                 IN  RSort(lo) \o <<p>> \o RSort(hi)

(***************************************************************************)
(* Tolerant comparison.  The implementation computes in binary floating    *)
(* point; the specification is exact.  RNear(a, b, s) holds when a and b   *)
(* are both NaN, or the same infinity, or differ by at most 1e-9 of the    *)
(* largest of |a|, |b|, |s| (s: the scale of the quantities a and b were   *)
(* computed from, for differences that cancel), or by 1e-300.              *)
(***************************************************************************)
RNearTol(a, b, s, num, den) ==
    \/ a = b
    \/ /\ RIsFin(a) /\ RIsFin(b)
       /\ LET m == RMax(RMax(RAbs(a), RAbs(b)), IF RIsFin(s) THEN RAbs(s) ELSE <<0, 1>>)
          IN  RLe(RAbs(RSub(a, b)), RMul(<<num, den>>, m))
RNear(a, b, s) == RNearTol(a, b, s, 1, 1000000000)
RClose(a, b)   == RNearTol(a, b, <<0, 1>>, 1, 1000000000)

(***************************************************************************)
(* Numerals and labels of recorded traces.                                 *)
(* RParse(str): the number a decimal numeral such as "-12.5e3" denotes;    *)
(* "nan", "inf" and "-inf" denote NaN and the infinities.  TLC cannot take *)
(* strings apart, so this one has no executable definition here.           *)
(***************************************************************************)
RParse(str) == CHOOSE r : TRUE
(* RParseSeq, RParseMat: the same over a sequence, a sequence of sequences. *)
RParseSeq(s) == [i \in 1..Len(s) |-> RParse(s[i])]
RParseMat(m) == [i \in 1..Len(m) |-> RParseSeq(m[i])]

(***************************************************************************)
(* Real functions, to within a relative error of 1e-14 (natural logarithm, *)
(* exponential, square root, standard normal distribution function).  Only *)
(* used where the implementation's output is defined through them; the     *)
(* series that define them are in RealFns.tla, which RatCheck compares     *)
(* with the overrides.                                                     *)
(***************************************************************************)
RLn(a)   == CHOOSE r : TRUE
RExp(a)  == CHOOSE r : TRUE
RSqrt(a) == CHOOSE r : TRUE
RPhi(a)  == CHOOSE r : TRUE
RShow(a) == ToString(a)
\* Decimal numeral with at most 5 places, no trailing zeros.
RDec5(a) == ToString(a)
==============================================================================
