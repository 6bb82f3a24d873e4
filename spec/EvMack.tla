-------------------------------- MODULE EvMack --------------------------------
(***************************************************************************)
(* Mack chain ladder events.                                               *)
(***************************************************************************)
EXTENDS EvDev

\* Factors and variances (e.a2: twice the variance exponent).
MackFactorClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  a == A2A(f)  n == NRows(f)  o == e.out
             ldf == RParseSeq(o.ldfs.v)  var == RParseSeq(o.devpvar.v)  fv == RParseSeq(o.ldfvar.v)
         IN Guard(Len(ldf) = n /\ Len(var) = n - 1 /\ Len(fv) = n - 1, p \o ".shape",
              LET want == MackVar(f, a, b.ind, e.a2, ldf) IN UNION {
              Chk(p \o ".labels", o.ldfs.idx = f.d /\ o.devpvar.idx = SubSeq(f.d, 1, n - 1)
                                  /\ o.ldfvar.idx = SubSeq(f.d, 1, n - 1)),
              Chk(p \o ".ldfs", \A j \in 1..(n - 1) : RClose(ldf[j], MackFactor(f, a, b.ind, e.a2, j))),
              Chk(p \o ".tail", ldf[n] = R1),
              \* A variance is compared on the scale of the squared factor it
              \* is a deviation from (differences of near-equal numbers).
              Chk(p \o ".devpvar", \A j \in 1..(n - 2) :
                    RNearTol(var[j], want[j],
                             RDiv(MackWeight(f, a, b.ind, e.a2, j), RI(1000000)), 1, 10000000)),
              Chk(p \o ".devpvar.last", RNearTol(var[n - 1], LastVar(var[n - 2], var[n - 3]), R0, 1, 100000000)),
              Chk(p \o ".ldfvar", \A j \in 1..(n - 1) :
                    RClose(fv[j], RDiv(var[j], MackWeight(f, a, b.ind, e.a2, j)))),
              Chk(p \o ".attr.alpha", RClose(RMul(RI(2), RParse(o.alpha)), RI(e.a2)))})

\* x is the square root of m, where m is a sum of terms of scale s: none
\* when m is negative (amounts of both signs can have such an error).
IsRoot(x, m, s) == IF m = R0 THEN x = R0
                   ELSE IF RNearTol(m, R0, s, 1, 100000000) THEN TRUE
                   ELSE IF RLt(m, R0) THEN RIsNaN(x)
                   ELSE RNear(RPow(x, 2), m, s)
MackErrorClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  n == NRows(f)  o == e.out  s == o.summary
             ldf == RParseSeq(o.ldfs.v)  var == RParseSeq(o.devpvar.v)  fv == RParseSeq(o.ldfvar.v)
             pe == RParseSeq(o.process_error.v)  qe == RParseSeq(o.parameter_error.v)
             P(c) == RParseSeq(s.col[c])
             sq == Square(f, ldf)
             se == P("std_error")  cv == P("cv")  re == P("reserve")  ul == P("ultimate")
             mse == RParseSeq(o.mse.v)  got == RParseMat(o.trisqrd.v)
         IN Guard(/\ Len(ldf) = n /\ Len(var) = n - 1 /\ Len(fv) = n - 1
                  /\ Len(pe) = n /\ Len(qe) = n /\ Len(mse) = n + 1 /\ Rect(got, n, n)
                  /\ SummaryShape(s, n) /\ Has(s.col, "std_error") /\ Has(s.col, "cv"), p \o ".shape",
              UNION {
              CommonSummary(p, s, f, ldf),
              FactorUltimates(p, s, f),
              Chk(p \o ".square", o.trisqrd.o = f.o /\ o.trisqrd.d = [j \in 1..n |-> ToString(f.d[j])]
                                  /\ MatClose(got, sq)),
              Chk(p \o ".labels", o.process_error.idx = f.o /\ o.parameter_error.idx = f.o),
              Chk(p \o ".oldest", pe[1] = R0 /\ qe[1] = R0 /\ se[1] = R0 /\ RIsNaN(cv[1])),
              Chk(p \o ".process_error", \A i \in 2..n :
                    LET k == n + 1 - i IN
                    RClose(pe[i], ProcErr(sq, ldf, var, e.a2, i, k + 1, RMul(PowH(sq[i][k], 4 - e.a2), var[k])))),
              Chk(p \o ".parameter_error", \A i \in 2..n :
                    LET k == n + 1 - i IN
                    RClose(qe[i], ParamErr(sq, ldf, fv, i, k + 1, RMul(RPow(sq[i][k], 2), fv[k])))),
              Chk(p \o ".std_error", \A i \in 1..n : IsRoot(se[i], RAdd(pe[i], qe[i]), R0)),
              Chk(p \o ".mse", \A i \in 1..(n + 1) : RClose(mse[i], RPow(se[i], 2))),
              Chk(p \o ".cv", \A i \in 2..n : RClose(cv[i], RDiv(se[i], re[i]))),
              Chk(p \o ".total.std_error",
                    LET mm == [i \in 1..n |-> RAdd(pe[i], qe[i])]
                        uu == SubSeq(ul, 1, n)
                        all(v) == [i \in DOMAIN v |-> RAbs(v[i])]
                    IN  IsRoot(se[n + 1], TotalMse(mm, uu, ldf, fv), TotalMse(all(mm), all(uu), ldf, all(fv)))),
              Chk(p \o ".total.cv", RClose(cv[n + 1], RDiv(se[n + 1], re[n + 1]))),
              UNION {Chk(p \o ".attr." \o c, o.attrs[c] = s.col[c]) :
                     c \in {"ultimate", "reserve", "latest", "std_error", "cv"}}})

(***************************************************************************)
(* Reserve distributions and quantile headings.                            *)
(***************************************************************************)
\* Levels actually used: both tails when two-sided; distinct, ascending.
RECURSIVE Distinct(_)
Distinct(s) == IF Len(s) <= 1 THEN s
               ELSE IF RNearTol(s[1], s[2], R1, 1, 1000000000) THEN Distinct(Tail(s))
               ELSE <<s[1]>> \o Distinct(Tail(s))
Levels(q, two) ==
    LET h == RQ(1, 2)
        lo == [i \in 1..Len(q) |-> RMul(h, RSub(R1, q[i]))]
        hi == [i \in 1..Len(q) |-> RMul(h, RAdd(R1, q[i]))]
    IN  Distinct(RSort(IF two THEN lo \o hi ELSE q))
\* "75%" / "75th": recorded as <<numeral, suffix>>.
PctHeading(h, x) == h[2] = "%" /\ h[1] = RDec5(RMul(RI(100), x))
Suffix(x) ==    \* of a level in percent, already rounded to 5 places
    IF x[2] # R1[2] THEN "th"
    ELSE LET k == CHOOSE z \in 0..100 : RI(z) = x
         IN  IF k % 100 \in 11..13 THEN "th"
             ELSE CASE k % 10 = 1 -> "st" [] k % 10 = 2 -> "nd" [] k % 10 = 3 -> "rd" [] OTHER -> "th"
OrdHeading(h, x) == LET num == RDec5(RMul(RI(100), x))
                    IN  h[1] = num /\ h[2] = Suffix(RParse(num))

\* The lognormal's variance is computed as log(1 + cv^2), which for a tiny
\* cv keeps few digits: tolerances grow with 1/cv^2 accordingly.
Slack(r, s) == RDiv(RPow(RDiv(r, s), 2), RI(1000000))
Degenerate(r, s) == RLt(RMul(s, RI(10000000)), r)
\* x is the level-u quantile of the distribution with mean r and standard
\* deviation s.
IsQuantile(x, dist, r, s, u) ==
    IF ~RIsFin(r) \/ ~RIsFin(s) \/ RLe(s, R0) THEN RIsNaN(x)
    ELSE IF dist = "norm" THEN
        IF u = R0 THEN x = RNeg(RInf) ELSE IF u = R1 THEN x = RInf
        ELSE RIsFin(x) /\ RNearTol(RPhi(RDiv(RSub(x, r), s)), u, RMax(R1, Slack(r, s)), 1, 100000000)
    ELSE IF RLe(r, R0) THEN RIsNaN(x)
    ELSE IF Degenerate(r, s) THEN TRUE
    ELSE LET s2 == RLn(RAdd(R1, RPow(RDiv(s, r), 2)))
             mu == RSub(RLn(r), RMul(RQ(1, 2), s2))
         IN  IF u = R0 THEN x = R0 ELSE IF u = R1 THEN x = RInf
             ELSE /\ RIsFin(x) /\ RLt(R0, x)
                  /\ RNearTol(RPhi(RDiv(RSub(RLn(x), mu), RSqrt(s2))), u, RMax(R1, Slack(r, s)), 1, 100000000)

MackDistClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  n == NRows(f)  o == e.out  s == o.summary
             P(c) == RParseSeq(s.col[c])
             re == P("reserve")  se == P("std_error")
             mean == RParseSeq(o.rvs.mean)  sd == RParseSeq(o.rvs.std)
             u == Levels(RParseSeq(e.q), e.two)
             T == RParseMat(o.qtl.v)                \* one row per heading
             undef(i) == i = 1 \/ se[i] = R0 \/ (e.dist = "lognorm" /\ (RLe(re[i], R0) \/ Degenerate(re[i], se[i])))
         IN Guard(/\ Len(re) = n + 1 /\ Len(se) = n + 1 /\ Len(mean) = n + 1 /\ Len(sd) = n + 1
                  /\ Len(o.qtl.h) = Len(T) /\ \A k \in 1..Len(T) : Len(T[k]) = n + 1, p \o ".shape",
              UNION {
              Chk(p \o ".mean", \A i \in 2..(n + 1) : undef(i) \/ RNearTol(mean[i], re[i], R0, 1, 100000000)),
              Chk(p \o ".std", \A i \in 2..(n + 1) : undef(i) \/ RNearTol(sd[i], se[i], RMul(se[i], RMul(RQ(1, 100), Slack(re[i], se[i]))), 1, 10000000)),
              Chk(p \o ".levels", Len(T) = Len(u)),
              Chk(p \o ".headings", Len(T) = Len(u) => \A k \in 1..Len(u) : PctHeading(o.qtl.h[k], u[k])),
              Chk(p \o ".quantiles", Len(T) = Len(u) =>
                     \A k \in 1..Len(u) : \A i \in 2..(n + 1) : IsQuantile(T[k][i], e.dist, re[i], se[i], u[k])),
              Chk(p \o ".oldest", \A k \in 1..Len(T) : RIsNaN(T[k][1])),
              Chk(p \o ".attr.dist", o.dist = e.dist),
              Chk(p \o ".index", o.rvs.idx = s.idx)})
\* Quantiles requested from the result.
MackGetClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET n == NRows(b.tri)  o == e.out
             re == RParseSeq(o.reserve)  se == RParseSeq(o.std_error)
             u == Levels(RParseSeq(e.q), FALSE)
             T == RParseMat(o.qtl.v)
         IN Guard(/\ Len(o.qtl.h) = Len(T) /\ \A k \in 1..Len(T) : Len(T[k]) = n + 1, p \o ".shape",
              UNION {
              Chk(p \o ".levels", Len(T) = Len(u)),
              Chk(p \o ".headings", Len(T) = Len(u) => \A k \in 1..Len(u) : OrdHeading(o.qtl.h[k], u[k])),
              Chk(p \o ".quantiles", Len(T) = Len(u) =>
                     \A k \in 1..Len(u) : \A i \in 1..(n + 1) : IsQuantile(T[k][i], e.dist, re[i], se[i], u[k])),
              Chk(p \o ".index", o.idx = [i \in 1..(n + 1) |-> IF i <= n THEN ToString(b.tri.o[i]) ELSE "total"])})

(***************************************************************************)
(* Tests of the model's assumptions.                                       *)
(***************************************************************************)
RanksClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".ranks.raised"}
    ELSE LET a == A2A(b.tri)  n == NRows(b.tri)  x == RParseMat(e.out.v)
             names == [c \in 1..(2 * (n - 3)) |->
                        (IF c % 2 = 1 THEN "s_" ELSE "r_") \o ToString(2 + ((c - 1) \div 2))]
         IN Guard(Rect(x, n - 2, 2 * (n - 3)), p \o ".ranks.shape", UNION {
              Chk(p \o ".ranks.columns", e.out.cols = names),
              Chk(p \o ".ranks.origins", e.out.o = SubSeq(b.tri.o, 1, n - 2)),
              Chk(p \o ".ranks", \A i \in 1..(n - 2) : \A k \in 2..(n - 2) :
                    /\ x[i][2 * (k - 2) + 1] = RankS(a, k, i)
                    /\ x[i][2 * (k - 2) + 2] = RankR(a, k, i))})
NormalLevel(z, u) == RIsFin(z) /\ RNearTol(RPhi(z), u, R1, 1, 100000000)
DevpCorrClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET a == A2A(b.tri)
             lb == RParse(e.out.lb)  ub == RParse(e.out.ub)  x == RParse(e.out.stat)
             sd == RSqrt(DevpVar(a))
             u == RMul(RQ(1, 2), RAdd(R1, RParse(e.level)))
         IN UNION {
              Chk(p \o ".statistic", RNear(x, DevpCorr(a), R1)),
              Chk(p \o ".symmetric", RNear(RNeg(lb), ub, R0)),
              Chk(p \o ".bounds", NormalLevel(RMul(ub, sd), u))}
ClassClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".class.raised"}
    ELSE LET a == A2A(b.tri) IN
         Guard(e.out.o = a.o /\ e.out.d = a.d /\ Rect(e.out.v, Len(a.o), Len(a.d)), p \o ".class.shape",
           LET x == RParseMat(e.out.v) IN
           Chk(p \o ".class", \A i \in 1..Len(a.o) : \A j \in 1..Len(a.d) :
                 IF Empty(a.v[i][j]) THEN RIsNaN(x[i][j]) ELSE x[i][j] = RI(ClassOf(a, j, i))))
CyClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET a == A2A(b.tri)  t == CyTotals(a)
             lb == RParse(e.out.lb)  ub == RParse(e.out.ub)
             half == RMul(RQ(1, 2), RSub(ub, lb))
             u == RMul(RQ(1, 2), RParse(e.level))
         IN UNION {
              Chk(p \o ".statistic", RParse(e.out.stat) = t.z),
              Chk(p \o ".centre", RNear(RMul(RQ(1, 2), RAdd(lb, ub)), t.e, R1)),
              Chk(p \o ".halfwidth", IF RNear(t.v, R0, R1) THEN RNearTol(half, R0, R1, 1, 10000)
                                     ELSE NormalLevel(RNeg(RDiv(half, RSqrt(t.v))), u))}
==============================================================================
