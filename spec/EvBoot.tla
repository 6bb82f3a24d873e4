-------------------------------- MODULE EvBoot --------------------------------
(***************************************************************************)
(* Bootstrap chain ladder: fit, simulations, summary, probability laws.    *)
(***************************************************************************)
EXTENDS EvMack

(***************************************************************************)
(* The over-dispersed Poisson fit of a staircase triangle f.               *)
(***************************************************************************)
\* Volume-weighted factors entering the fit, given as observed (ldf).
\* Fitted cumulative amount: divide the latest amount back.
RECURSIVE Back(_, _, _, _)
Back(f, ldf, i, j) == IF j = LastCol(f, i) THEN f.v[i][j] ELSE RDiv(Back(f, ldf, i, j + 1), ldf[j])
FitCum(f, ldf) == MkMat(NRows(f), NCols(f), LAMBDA i, j :
                     IF j > LastCol(f, i) THEN RNaN ELSE Back(f, ldf, i, j))
Diffs(m) == MkMat(Len(m), Len(m[1]), LAMBDA i, j : IF j = 1 THEN m[i][1] ELSE RSub(m[i][j], m[i][j - 1]))
\* Observed increments (first period as in the incremental triangle).
ObsIncr(f) == LET t == ToIncr(f) IN t.v
ResidNum(f, fit) == LET x == ObsIncr(f) IN MkMat(NRows(f), NCols(f), LAMBDA i, j : RSub(x[i][j], fit[i][j]))
DegFree(f) == NbrCells(f) - (NCols(f) - 1) + NRows(f)
Flat(m) == IF m = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, b : a \o b, <<>>, m)
SumSq(m) == RSumV([k \in 1..Len(Flat(m)) |-> LET x == Flat(m)[k] IN RMul(x, x)])

\* r is num / sqrt(den), den >= 0: sign, square and emptiness agree.
IsRootQuot(r, num, den, scale) ==
    IF RIsNaN(num) \/ RIsNaN(den) THEN RIsNaN(r)
    ELSE IF den = R0 THEN ~RIsFin(r)
    ELSE RIsFin(r) /\ RNear(RMul(r, RSqrt(den)), num, scale)

FitClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  n == NRows(f)  o == e.out  a == A2A(f)
             ldf == RParseSeq(o.ldfs.v)
             fc == RParseMat(o.fit_cum.v)  fi == RParseMat(o.fit_incr.v)
             us == RParseMat(o.unscaled.v)  aj == RParseMat(o.adjusted.v)
             sd == RParseSeq(o.sampling_dist)
             scale == RParse(o.scale_param)
             big == MaxAbs(Flat(f.v))
         IN Guard(/\ Len(ldf) = n /\ Rect(fc, n, n) /\ Rect(fi, n, n) /\ Rect(us, n, n) /\ Rect(aj, n, n), p \o ".shape",
            LET num == ResidNum(f, fi)  fac == RSqrt(RQ(NbrCells(f), DegFree(f)))
                inner == SelectSeq([k \in 1..(n * n) |->
                            LET i == ((k - 1) \div n) + 1  j == ((k - 1) % n) + 1
                            IN IF i < n /\ j < n THEN aj[i][j] ELSE RNaN], LAMBDA x : Some(x) /\ x # R0)
            IN UNION {
              Chk(p \o ".labels", \A x \in {o.fit_cum, o.fit_incr, o.unscaled, o.adjusted} : x.o = f.o /\ x.d = f.d),
              Chk(p \o ".ldfs", ldf[n] = R1 /\ \A j \in 1..(n - 1) : RClose(ldf[j], Weighted(f, a, b.ind, j, 0))),
              Chk(p \o ".fitted_cum", MatClose(fc, FitCum(f, ldf))),
              Chk(p \o ".fitted_latest", \A i \in 1..n : fc[i][LastCol(f, i)] = Latest(f, i)),
              Chk(p \o ".fitted_incr", \A i \in 1..n : \A j \in 1..n : RNear(fi[i][j], Diffs(fc)[i][j], big)),
              Chk(p \o ".unscaled", \A i \in 1..n : \A j \in 1..n :
                    IsRootQuot(us[i][j], num[i][j], RAbs(fi[i][j]), big)),
              Chk(p \o ".dof", RParse(o.dof) = RI(DegFree(f))),
              Chk(p \o ".scale_param", RClose(scale, RDiv(SumSq(us), RI(DegFree(f))))),
              Chk(p \o ".adjusted", \A i \in 1..n : \A j \in 1..n : RClose(aj[i][j], RMul(us[i][j], fac))),
              IF e.parametric THEN Chk(p \o ".sampling_dist.none", ~o.has_dist)
              ELSE Chk(p \o ".sampling_dist", o.has_dist /\ Len(sd) = Len(inner) /\ RSort(sd) = RSort(inner)),
              CommonSummary(p, o.summary, f, ldf)})

\* Statistics of a sequence of residuals.
CMoment(s, m, k) == RDiv(RSum([i \in 1..Len(s) |-> RPow(RSub(s[i], m), k)]), RI(Len(s)))
ModeOf(s) == LET t == RSort(s)
                 cnt(x) == Cardinality({i \in 1..Len(t) : t[i] = x})
                 best == CHOOSE i \in 1..Len(t) : \A k \in 1..Len(t) :
                            cnt(t[k]) < cnt(t[i]) \/ (cnt(t[k]) = cnt(t[i]) /\ ~RLt(t[k], t[i]))
             IN t[best]
DetailClauses(p, col, s) ==
    LET n == Len(s)  m == Mean(s)  m2 == CMoment(s, m, 2)  m3 == CMoment(s, m, 3)  m4 == CMoment(s, m, 4)
        sc == MaxAbs(s)
        P(k) == RParse(col[k])
        near(x, y, z) == RNearTol(x, y, z, 1, 10000000)
    IN UNION {
        Chk(p \o ".size", P("size") = RI(n)),
        Chk(p \o ".sum", near(P("sum"), RSum(s), RMul(sc, RI(n)))),
        Chk(p \o ".sum_of_squares", near(P("sum_of_squares"), RSum([i \in 1..n |-> RMul(s[i], s[i])]), R0)),
        Chk(p \o ".minimum", P("minimum") = RSort(s)[1]),
        Chk(p \o ".maximum", P("maximum") = RSort(s)[n]),
        Chk(p \o ".mean", near(P("mean"), m, sc)),
        Chk(p \o ".variance", near(P("variance"), RMul(m2, RQ(n, n - 1)), R0)),
        Chk(p \o ".standard_deviation", near(RPow(P("standard_deviation"), 2), RMul(m2, RQ(n, n - 1)), R0)),
        Chk(p \o ".median", near(P("median"), Median(s), sc)),
        Chk(p \o ".mode", P("mode") = ModeOf(s)),
        Chk(p \o ".skew", near(P("skew"), RDiv(m3, RMul(m2, RSqrt(m2))), R1)),
        Chk(p \o ".kurtosis", near(P("kurtosis"), RSub(RDiv(m4, RMul(m2, m2)), RI(3)), R1)),
        Chk(p \o ".cov", near(RMul(P("cov"), m), RSqrt(m2), RSqrt(m2)))}
ResidDetailClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".detail.raised." \o e.out.exc}
    ELSE LET nz(m) == SelectSeq(Flat(RParseMat(m.v)), LAMBDA x : Some(x) /\ x # R0)
         IN  DetailClauses(p \o ".detail.unscaled", e.out.detail.unscaled, nz(e.out.unscaled))
             \cup DetailClauses(p \o ".detail.adjusted", e.out.detail.adjusted, nz(e.out.adjusted))

(***************************************************************************)
(* One simulation: n x n matrices of the columns recorded for it.          *)
(* fi: fitted increments, dist: sampling distribution (<<>> when           *)
(* parametric), phi: scale parameter.                                      *)
(***************************************************************************)
SimClauses(p, s, f, fi, dist, phi) ==
    LET n == NRows(f)
        M(c) == RParseMat(s[c])
        inc == M("incr")  rs == M("resid")  si == M("samp_incr")  sc == M("samp_cum")
        ld == M("ldf")  fin == M("final_incr")  ult == M("ultimate")  lat == M("latest")  res == M("reserve")
        L(i) == n + 1 - i
        A == {<<i, j>> \in (1..n) \X (1..n) : j <= n + 1 - i}
        B == ((1..n) \X (1..n)) \ A
        big == RMax(MaxAbs(Flat(sc)), MaxAbs(Flat(ult)))
        baseinc(i, j) == IF j = 1 /\ RLt(fi[i][j], R0) THEN R1 ELSE fi[i][j]
        resid == Range1(dist)
        top(i, j) == RSum([k \in 1..(n - j) |-> sc[k][j + 1]])
        bot(j) == RSum([k \in 1..(n - j) |-> sc[k][j]])
        fac(j) == ld[1][j]
        proj(i, j) == RMul(sc[i][L(i)], RProd([k \in 1..(j - L(i)) |-> fac(L(i) + k - 1)]))
        \* The identities between projected amounts lose precision when a
        \* factor's denominator nearly vanishes; compare on that scale.
    IN UNION {
        Chk(p \o ".rectype", \A c \in (1..n) \X (1..n) :
              s.rectype[c[1]][c[2]] = IF c \in A THEN "actual" ELSE "forecast"),
        Chk(p \o ".incr", \A c \in (1..n) \X (1..n) :
              IF c \in A THEN RClose(inc[c[1]][c[2]], baseinc(c[1], c[2])) ELSE RIsNaN(inc[c[1]][c[2]])),
        IF Has(s, "incr_sqrt") THEN
          Chk(p \o ".incr_sqrt", \A c \in A : RClose(RPow(RParse(s.incr_sqrt[c[1]][c[2]]), 2), RAbs(inc[c[1]][c[2]])))
        ELSE {},
        Chk(p \o ".resid", \A c \in (1..n) \X (1..n) :
              IF c \in A THEN RIsFin(rs[c[1]][c[2]]) /\ (dist # <<>> => rs[c[1]][c[2]] \in resid)
              ELSE RIsNaN(rs[c[1]][c[2]])),
        Chk(p \o ".samp_incr", \A c \in A :
              RNear(si[c[1]][c[2]], RAdd(inc[c[1]][c[2]], RMul(rs[c[1]][c[2]], RSqrt(RAbs(inc[c[1]][c[2]])))), big)),
        Chk(p \o ".samp_cum", \A c \in A : RNear(sc[c[1]][c[2]], RSum(SubSeq(si[c[1]], 1, c[2])), big)),
        Chk(p \o ".ldf", \A i \in 1..n : \A j \in 1..n :
              IF j = n THEN RIsNaN(ld[i][j])
              ELSE RNearTol(RMul(ld[i][j], bot(j)), top(i, j), big, 1, 100000000)),
        Chk(p \o ".forecast", \A c \in B :
              RNearTol(sc[c[1]][c[2]], proj(c[1], c[2]), big, 1, 100000000)),
        Chk(p \o ".forecast_incr", \A c \in B :
              RNear(si[c[1]][c[2]], RSub(sc[c[1]][c[2]], sc[c[1]][c[2] - 1]), big)),
        IF Has(s, "var") THEN Chk(p \o ".var", \A c \in B :
              RNear(RParse(s.var[c[1]][c[2]]), RAbs(RMul(si[c[1]][c[2]], phi)), RMul(big, phi))) ELSE {},
        IF Has(s, "sign") THEN Chk(p \o ".sign", \A c \in B :
              RParse(s.sign[c[1]][c[2]]) = IF RSgn(si[c[1]][c[2]]) > 0 THEN R1 ELSE RI(-1)) ELSE {},
        IF Has(s, "param1") /\ Has(s, "param2") THEN Chk(p \o ".process_params", \A c \in B :
              LET k == RParse(s.param1[c[1]][c[2]])  t == RParse(s.param2[c[1]][c[2]])
              IN  /\ RClose(RMul(k, t), RAbs(si[c[1]][c[2]]))
                  /\ RClose(RMul(RMul(k, t), t), RAbs(RMul(si[c[1]][c[2]], phi)))) ELSE {},
        Chk(p \o ".final_actual", \A c \in A : fin[c[1]][c[2]] = si[c[1]][c[2]]),
        Chk(p \o ".final_sign", \A c \in B : /\ RIsFin(fin[c[1]][c[2]])
              /\ (RSgn(fin[c[1]][c[2]]) = 0 \/ RSgn(fin[c[1]][c[2]]) = RSgn(si[c[1]][c[2]]))),
        Chk(p \o ".ultimate", \A c \in (1..n) \X (1..n) :
              RNear(ult[c[1]][c[2]], RSum(SubSeq(fin[c[1]], 1, c[2])), big)),
        Chk(p \o ".latest", \A i \in 2..n : \A j \in 1..n :
              IF j >= L(i) THEN lat[i][j] = sc[i][L(i)] ELSE RIsNaN(lat[i][j])),
        Chk(p \o ".latest.oldest", \A j \in 1..n : RIsNaN(lat[1][j])),
        Chk(p \o ".reserve", \A i \in 2..n : \A j \in L(i)..n :
              RNear(res[i][j], RSub(ult[i][j], lat[i][j]), big))}

SimsClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  n == NRows(f)  o == e.out
             fi == RParseMat(o.fit_incr.v)
             dist == IF e.parametric THEN <<>> ELSE RParseSeq(o.sampling_dist)
             phi == RParse(o.scale_param)
             rd == o.reserve_dist
         IN  UNION {
              Chk(p \o ".rows", o.nrows = e.sims * n * n /\ o.complete /\ Len(o.sims) = e.sims),
              UNION {IF Len(o.sims[k].rectype) = n /\ o.sims[k].ok
                     THEN SimClauses(p, o.sims[k], f, fi, dist, phi) ELSE {p \o ".simshape"}
                     : k \in 1..Len(o.sims)},
              \* the reserve distribution repeats the simulations' outcomes
              Chk(p \o ".reserve_dist", Len(o.sims) = e.sims /\ \A k \in 1..e.sims : \A i \in 1..n :
                   LET u == RParse(o.sims[k].ultimate[i][n])  r == RParse(o.sims[k].reserve[i][n])
                       l == RParse(o.sims[k].latest[i][n])
                   IN  /\ RParse(rd.ultimate[i][k]) = u
                       /\ IF i = 1 THEN RParse(rd.reserve[1][k]) = R0 /\ RParse(rd.latest[1][k]) = u
                          ELSE RParse(rd.reserve[i][k]) = r /\ RParse(rd.latest[i][k]) = l)}

(***************************************************************************)
(* Summary of the simulations.  rd.c[i][k]: column c of origin i (n + 1:   *)
(* total) in simulation k.                                                 *)
(***************************************************************************)
SVar(s) == LET m == Mean(s) IN
           IF Len(s) < 2 THEN RNaN
           ELSE RDiv(RSum([i \in 1..Len(s) |-> RPow(RSub(s[i], m), 2)]), RI(Len(s) - 1))
\* Floor of a non-negative rational below 10000.
Floor(x) == LET h == CHOOSE k \in 0..99 : RLe(RI(100 * k), x) /\ RLt(x, RI(100 * k + 100)) IN
            CHOOSE k \in (100 * h)..(100 * h + 99) : RLe(RI(k), x) /\ RLt(x, RI(k + 1))
\* Quantile level u of sorted t under an interpolation method.  Positions
\* within 1e-9 of a tie may be resolved to either side.
QuantCands(t, u, method) ==
    LET pos == RMul(u, RI(Len(t) - 1))
        at(k) == t[IF k >= Len(t) THEN Len(t) ELSE k + 1]
        one(q) == LET k == Floor(q)  r == RSub(q, RI(k)) IN
                  CASE method = "linear" -> RAdd(at(k), RMul(r, RSub(at(k + 1), at(k))))
                    [] method = "lower" -> at(k)
                    [] method = "higher" -> IF r = R0 THEN at(k) ELSE at(k + 1)
                    [] method = "midpoint" -> IF r = R0 THEN at(k) ELSE RMul(RQ(1, 2), RAdd(at(k), at(k + 1)))
                    [] method = "nearest" -> IF RLt(r, RQ(1, 2)) THEN at(k)
                                             ELSE IF RLt(RQ(1, 2), r) THEN at(k + 1)
                                             ELSE IF k % 2 = 0 THEN at(k) ELSE at(k + 1)
        eps == RQ(1, 1000000000)
    IN  {one(q) : q \in {pos, RMax(RSub(pos, eps), R0), RMin(RAdd(pos, eps), RI(Len(t) - 1))}}
SpreadOf(t) == RMax(RAbs(t[1]), RAbs(t[Len(t)]))
QuantOK(x, t, u, method) == \E y \in QuantCands(t, u, method) : RNear(x, y, SpreadOf(t))
\* Some admissible quantile is at or below the bound.
QuantAtMost(lb, t, u, method) ==
    \E y \in QuantCands(t, u, method) : RLe(y, lb) \/ RNear(y, lb, SpreadOf(t))

BootSummaryClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".raised." \o e.out.exc}
    ELSE LET f == b.tri  n == NRows(f)  o == e.out  s == o.summary  rd == o.reserve_dist
             U == RParseMat(rd.ultimate)  R == RParseMat(rd.reserve)  Lt == RParseMat(rd.latest)
             od == o.origin_dist
             P(c) == RParseSeq(s.col[c])
             ldf == RParseSeq(o.ldfs.v)
             la == P("latest")  ul == P("ultimate")  re == P("reserve")  se == P("std_error")  cv == P("cv")
             mse == RParseSeq(o.mse)
             big == MaxAbs(Flat(U))
             u == Levels(RParseSeq(e.q), e.two)
             T == RParseMat(o.qtl.v)
             srt == TLCEval([i \in 1..(n + 1) |-> RSort(R[i])])
             okdist == Rect(U, n + 1, e.sims) /\ Rect(R, n + 1, e.sims) /\ Rect(Lt, n + 1, e.sims)
         IN Guard(/\ SummaryShape(s, n) /\ Has(s.col, "std_error") /\ Has(s.col, "cv") /\ Len(ldf) = n
                  /\ okdist /\ Len(mse) = n + 1 /\ Len(o.qtl.h) = Len(T) /\ \A k \in 1..Len(T) : Len(T[k]) = n + 1,
                  p \o ".shape", UNION {
              CommonSummary(p, s, f, ldf),
              Chk(p \o ".dist.total", \A k \in 1..e.sims :
                    /\ RNear(U[n + 1][k], RSum([i \in 1..n |-> U[i][k]]), big)
                    /\ RNear(R[n + 1][k], RSum([i \in 1..n |-> R[i][k]]), big)
                    /\ RNear(Lt[n + 1][k], RSum([i \in 1..n |-> Lt[i][k]]), big)),
              Chk(p \o ".dist.reserve", \A k \in 1..e.sims : \A i \in 1..n : RNear(R[i][k], RSub(U[i][k], Lt[i][k]), big)),
              Chk(p \o ".ultimate", ul[1] = la[1] /\ \A i \in 2..n : RNear(ul[i], Mean(U[i]), big)),
              Chk(p \o ".reserve", \A i \in 1..n : RNear(re[i], RSub(ul[i], la[i]), big)),
              Chk(p \o ".total", RNear(ul[n + 1], RSum(SubSeq(ul, 1, n)), big) /\ RNear(re[n + 1], RSum(SubSeq(re, 1, n)), big)),
              Chk(p \o ".std_error", \A i \in 1..(n + 1) :
                    IF e.sims < 2 THEN RIsNaN(se[i])
                    ELSE RNearTol(RPow(se[i], 2), SVar(R[i]), RMul(RQ(1, 1000000000), RMul(big, big)), 1, 10000000)),
              Chk(p \o ".cv", \A i \in 2..(n + 1) : RClose(cv[i], RDiv(se[i], re[i]))),
              Chk(p \o ".levels", Len(T) = Len(u)),
              Chk(p \o ".headings", Len(T) = Len(u) => \A k \in 1..Len(u) : PctHeading(o.qtl.h[k], u[k])),
              Chk(p \o ".quantiles", Len(T) = Len(u) =>
                     \A k \in 1..Len(u) : \A i \in 1..(n + 1) : QuantOK(T[k][i], srt[i], u[k], e.interp)),
              Chk(p \o ".origin_dist", od.latest = rd.latest /\ od.ultimate = rd.ultimate /\ od.reserve = rd.reserve),
              Chk(p \o ".attr.mse", \A i \in 1..(n + 1) : RClose(mse[i], RPow(se[i], 2))),
              Chk(p \o ".attr.args", o.args.sims = e.sims /\ o.args.parametric = e.parametric /\ o.args.interpolation = e.interp
                                     /\ o.args.procdist = e.procdist),
              UNION {Chk(p \o ".attr." \o c, o.attrs[c] = s.col[c]) :
                     c \in {"ultimate", "reserve", "latest", "std_error", "cv"}}})
BootGetClauses(p, e, b) ==
    IF Raised(e) THEN {p \o ".get.raised." \o e.out.exc}
    ELSE LET n == NRows(b.tri)  o == e.out
             u == Levels(RParseSeq(e.q), FALSE)
             T == RParseMat(o.qtl.v)  R == RParseMat(o.reserve)
             srt == TLCEval([i \in 1..(n + 1) |-> RSort(R[i])])
             lb == RParse(e.lb)
             ok(x, i, k) == IF Empty(lb) THEN QuantOK(x, srt[i], u[k], e.interp)
                            ELSE IF x = lb
                            THEN QuantAtMost(lb, srt[i], u[k], e.interp)
                            ELSE RLt(lb, x) /\ QuantOK(x, srt[i], u[k], e.interp)
         IN Guard(/\ Len(o.qtl.h) = Len(T) /\ \A k \in 1..Len(T) : Len(T[k]) = n + 1, p \o ".get.shape", UNION {
              Chk(p \o ".get.levels", Len(T) = Len(u)),
              Chk(p \o ".get.headings", Len(T) = Len(u) => \A k \in 1..Len(u) : OrdHeading(o.qtl.h[k], u[k])),
              Chk(p \o ".get.index", o.idx = [i \in 1..(n + 1) |-> IF i <= n THEN ToString(b.tri.o[i]) ELSE "total"]),
              Chk(p \o ".get.quantiles", Len(T) = Len(u) =>
                     \A k \in 1..Len(u) : \A i \in 1..(n + 1) : ok(T[k][i], i, k))})
==============================================================================
