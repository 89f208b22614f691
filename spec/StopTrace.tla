------------------------------ MODULE StopTrace ------------------------------
(***************************************************************************)
(* Validates recorded runs of the solvers against the loop of StopModel.   *)
(* A line is a fit (as in FitTrace, tol the gradient tolerance itself) and *)
(*   what    : "rows" a solver with diagnostics, "none" one without,       *)
(*             "path" several alphas                                       *)
(*   rows    : the diagnostics [norm, step, icpt, cycles, obj, l1, l2]     *)
(*   idx     : the iteration numbers of the rows                           *)
(*   niter, lim, stk ("none" or "given"), steptol, warned, lsfail          *)
(*   ref     : rows of the same fit with a larger limit and no step rule   *)
(*   cert    : the gradient may be recomputed at the returned point        *)
(*   want    : what the model says: k, conv ("" if it does not say)        *)
(*   begin   : where the iterations have to begin ("zero": all             *)
(*             coefficients but the intercept; "given": start_params)        *)
(*   views   : the diagnostics as attribute and as formatted               *)
(*   mono    : the monotonic solver, which also goes on while constraints  *)
(*             are violated (viol: by how much at the end)                 *)
(***************************************************************************)
EXTENDS FitTrace
SM == INSTANCE StopModel WITH MaxIter <- 1, StepTols <- {}, lim <- l, steptol <- l, rows <- l, phase <- l, conv <- l

\* ---- the abstraction of a recorded row
NormOf(e, r) == IF ~RIsFinite(r.norm) THEN "nan" ELSE IF RLt(r.norm, e.tol) THEN "lo" ELSE "hi"
StepOf(e, r) == IF e.stk = "given" /\ RIsFinite(r.step) /\ RLt(r.step, e.steptol) THEN "small" ELSE "big"
MetR(e, k) == LET r == e.rows[k + 1] IN NormOf(e, r) = "lo" \/ (k >= 1 /\ e.stk = "given" /\ StepOf(e, r) = "small")

\* the gradient is not computed accurately where a probability is close to 0 or 1
Extreme(e, alpha, b, w) ==
  /\ e.fam.name = "binomial"
  /\ LET P == Problem(e, alpha)
         eta == Eta(P, b, w)
     IN \E i \in 1..Len(eta) : LET m == Inv(e.link, eta[i]) IN RLt(m, "1e-8") \/ RLt(1 -- m, "1e-8")

\* ---- the (sub)gradient on standardised predictors
StdGrad(e, alpha, b, w) ==
  LET P == Problem(e, alpha)
      sd == Stds(e)
      m == IF e.fi THEN Means(e) ELSE Force([j \in 1..Dim(e) |-> Zero])
      r == RowScore(P, Eta(P, b, w))
      g == Grad(P, r, w)
      g0 == GradIntercept(P, r)
  IN [int |-> IF e.fi THEN RAbs(g0) ELSE Zero,
      w |-> Force([j \in 1..Dim(e) |->
              MinNormSub((g[j] -- (IF e.fi THEN m[j] ** g0 ELSE Zero)) // sd[j], P.l1pen[j] // sd[j], w[j] ** sd[j],
                         P.lb[j] ** sd[j], P.ub[j] ** sd[j], "1e-9")]),
      size |-> RSum(Force([i \in 1..Len(r) |-> RAbs(r[i]) **
                 (1 ++ RSum(Force([j \in 1..Dim(e) |-> RAbs(e.X[i][j] -- m[j]) // sd[j]])))]))
               ++ RSum(Force([j \in 1..Dim(e) |-> RAbs(g[j]) // sd[j]]))]
L1Norm(k) == k.int ++ RSum(k.w)
MaxNorm(k) == LET RECURSIVE M(_, _)
                  M(j, acc) == IF j > Len(k.w) THEN acc ELSE M(j + 1, RMax(acc, k.w[j]))
              IN M(1, k.int)
Near(a, b, rtol, atol) == RLe(RAbs(a -- b), (R(rtol) ** RAbs(b)) ++ atol)

RowClauses(e) ==
  LET n == Len(e.rows) K == n - 1 IN
  (IF e.idx = [i \in 1..n |-> i - 1] THEN {} ELSE {<<"iterations-not-consecutive">>})
  \cup (IF e.niter = K THEN {} ELSE {<<"n_iter-and-diagnostics-differ", e.niter, K>>})
  \cup (IF K <= e.lim THEN {} ELSE {<<"more-iterations-than-the-limit", K>>})
  \cup UNION {IF (MetR(e, k) /\ ~e.mono) \/ NormOf(e, e.rows[k + 1]) = "nan" THEN {<<"went-on-after-a-stop", k>>} ELSE {} : k \in 0..(K - 1)}
  \cup (IF MetR(e, K) /\ e.warned /\ ~(e.mono /\ RLt("1e-6", e.viol)) THEN {<<"warned-although-tolerance-met", RStr(e.rows[n].norm)>>} ELSE {})
  \cup (IF ~MetR(e, K) /\ ~e.warned THEN {<<"silent-although-tolerance-not-met", RStr(e.rows[n].norm)>>} ELSE {})
  \cup (IF ~MetR(e, K) /\ NormOf(e, e.rows[n]) # "nan" /\ e.finite /\ K # e.lim THEN {<<"gave-up-before-the-limit", K>>} ELSE {})
  \cup UNION {IF e.rows[i].cycles <= e.rows[i + 1].cycles THEN {} ELSE {<<"cycles-decrease", i>>} : i \in 1..K}
  \cup UNION {IF e.lsfail \/ RLe(e.rows[i + 1].obj, e.rows[i].obj ++ (R(e.orel) ** RMax(1, RAbs(e.rows[i].obj))))
                 \/ e.mono \/ ~RIsFinite(e.rows[i].obj) THEN {} ELSE {<<"objective-increases", i>>} : i \in 1..K}

\* a run that is cut short visits the same points
PrefixClauses(e) ==
  IF e.ref = <<>> THEN {}
  ELSE IF Len(e.ref) < Len(e.rows) THEN {<<"longer-run-stopped-earlier">>}
  ELSE UNION {IF Near(e.rows[i].norm, e.ref[i].norm, "1e-7", "1e-9") /\ Near(e.rows[i].icpt, e.ref[i].icpt, "1e-9", "1e-9")
              THEN {} ELSE {<<"other-points-than-the-longer-run", i>>} : i \in {i \in 1..Len(e.rows) : RIsFinite(e.ref[i].norm)}}

\* the diagnostics describe the returned point
CertClauses(e) ==
  IF ~e.cert \/ Extreme(e, e.alpha, e.b, e.w) THEN {} ELSE
  LET g == StdGrad(e, e.alpha, e.b, e.w)
      last == e.rows[Len(e.rows)]
      sd == Stds(e)
      ws == Force([j \in 1..Dim(e) |-> sd[j] ** e.w[j]])
      b0 == IF e.fi THEN e.b ++ RDot(Means(e), e.w) ELSE Zero
  IN (IF Near(last.norm, L1Norm(g), "1e-6", R("1e-11") ** (1 ++ g.size)) THEN {}
      ELSE {<<"recorded-gradient-norm", RStr(last.norm), RStr(L1Norm(g))>>})
     \cup (IF Near(last.l1, RAbs(b0) ++ RSum(Force([j \in 1..Dim(e) |-> RAbs(ws[j])])), "1e-8", "1e-10") THEN {}
           ELSE {<<"recorded-L1(coef)">>})
     \cup (IF Near(last.l2, RSqrt(Sq(b0) ++ RDot(ws, ws)), "1e-8", "1e-10") THEN {} ELSE {<<"recorded-L2(coef)">>})
     \cup (IF ~e.fi \/ Near(last.icpt, b0, "1e-8", "1e-10") THEN {} ELSE {<<"recorded-intercept">>})

\* the first row describes the start, moved into the bounds
BeginClauses(e) ==
  IF e.begin.kind = "none" THEN {} ELSE
  LET r == e.rows[1]
      sd == Stds(e)
      P == Problem(e, e.alpha)
      s0 == e.begin.w
      ws == Force([j \in 1..Dim(e) |-> sd[j] ** RMax(P.lb[j], RMin(P.ub[j], s0[j]))])
      b0 == IF ~e.fi THEN Zero ELSE IF e.begin.kind = "zero" THEN r.icpt ELSE e.begin.b ++ RDot(Means(e), s0)
  IN (IF ~e.fi \/ Near(r.icpt, b0, "1e-8", "1e-10") THEN {} ELSE {<<"starts-elsewhere", "intercept", RStr(r.icpt), RStr(b0)>>})
     \cup (IF Near(r.l1, RAbs(b0) ++ RSum(Force([j \in 1..Dim(e) |-> RAbs(ws[j])])), "1e-8", "1e-9") THEN {}
           ELSE {<<"starts-elsewhere", "L1(coef)", RStr(r.l1)>>})
     \cup (IF Near(r.l2, RSqrt(Sq(b0) ++ RDot(ws, ws)), "1e-8", "1e-9") THEN {} ELSE {<<"starts-elsewhere", "L2(coef)", RStr(r.l2)>>})

\* the formatted diagnostics are views of the recorded ones
Unfit == "Model has not been fit, so no diagnostics exist."
Default == <<"convergence", "n_cycles", "iteration_runtime", "intercept">>
SameNum(a, b) == (~RIsFinite(a) /\ ~RIsFinite(b)) \/ (RIsFinite(a) /\ RIsFinite(b) /\ REq(a, b))
ViewClauses(e) ==
  LET v == e.views IN
  (IF v.unfit = Unfit THEN {} ELSE {<<"diagnostics-of-an-unfitted-estimator">>})
  \cup (IF ~v.have THEN {<<"no-diagnostics-but-a-table">> : q \in {q \in 1..Len(v.text) : v.text[q] # "solver does not report diagnostics"}}
        ELSE LET names == v.raw[1].names
                 full == Append(SelectSeq(names, LAMBDA c : c # "n_iter"), "intercept")
                 At(k, c) == v.raw[k].vals[CHOOSE q \in 1..Len(names) : names[q] = c]
                 Cell(k, c) == IF c = "intercept" THEN (IF e.fi THEN At(k, "first_coef") ELSE "nan") ELSE At(k, c)
                 TabClauses(t) ==
                   LET cols == IF t.ask = <<>> THEN Default ELSE IF t.ask = <<"*">> THEN full ELSE t.ask
                   IN IF t.cols # cols THEN {<<"other-columns-than-asked-for", t.ask, t.cols>>}
                      ELSE (IF Len(t.idx) = Len(v.raw) /\ \A k \in 1..Len(t.idx) : REq(t.idx[k], At(k, "n_iter")) THEN {}
                            ELSE {<<"iterations-missing-from-the-view">>})
                           \cup UNION {IF \A k \in 1..Len(v.raw) : SameNum(t.vals[q][k], Cell(k, cols[q])) THEN {}
                                       ELSE {<<"view-differs", cols[q]>>} : q \in 1..Len(cols)}
             IN UNION {TabClauses(v.tabs[q]) : q \in 1..Len(v.tabs)}
                \cup (IF v.printed > Len(v.raw) THEN {} ELSE {<<"printed-report-is-short", v.printed>>}))

WantClauses(e) ==
  IF e.want.why = "" THEN {}
  ELSE (IF e.want.k = e.niter THEN {} ELSE {<<"stops-elsewhere-than-the-model", e.want.why, e.want.k, e.niter>>})
       \cup (IF e.want.conv = ~e.warned THEN {} ELSE {<<"other-verdict-than-the-model", e.want.why>>})

\* solvers without diagnostics
NoneClauses(e) ==
  (IF e.niter <= e.lim THEN {} ELSE {<<"more-iterations-than-the-limit", e.niter>>})
  \cup (IF e.warned \/ ~e.cert \/ Extreme(e, e.alpha, e.b, e.w) THEN {} ELSE
        LET g == StdGrad(e, e.alpha, e.b, e.w)
            x == IF e.norm = "l1" THEN L1Norm(g) ELSE MaxNorm(g)
        IN IF RLe(x, (R(e.tol) ** "1.000001") ++ (R("1e-12") ** (1 ++ g.size))) THEN {}
           ELSE {<<"silent-although-tolerance-not-met", RStr(x)>>})

\* several alphas: as many reports of failure as points that do not meet the tolerance
PathClauses(e) ==
  LET far(q) == LET g == StdGrad(e, q.alpha, q.b, q.w)
                    x == IF e.norm = "l1" THEN L1Norm(g) ELSE MaxNorm(g)
                    t == R(e.tol)
                    a == R("1e-12") ** (1 ++ g.size)
                IN IF Extreme(e, q.alpha, q.b, q.w) THEN "unclear"
                   ELSE IF RLt((t ** "1.000001") ++ a, x) THEN "no" ELSE IF RLt(x, (t ** "0.999999") -- a) THEN "yes" ELSE "unclear"
      met == Force([k \in 1..Len(e.points) |-> far(e.points[k])])
      no == Cardinality({k \in 1..Len(met) : met[k] = "no"})
      unclear == Cardinality({k \in 1..Len(met) : met[k] = "unclear"})
  IN (IF e.nwarn < no THEN {<<"silent-although-tolerance-not-met", no, e.nwarn>>} ELSE {})
     \cup (IF e.norm = "l1" /\ e.nwarn > 0 /\ no + unclear = 0 THEN {<<"warned-although-tolerance-met", no, e.nwarn>>} ELSE {})

StopClauses(raw) ==
  LET e == Canon(raw) IN
  CASE e.what = "rows" -> RowClauses(e) \cup PrefixClauses(e) \cup CertClauses(e) \cup BeginClauses(e) \cup ViewClauses(e) \cup WantClauses(e)
    [] e.what = "none" -> NoneClauses(e) \cup ViewClauses(e)
    [] e.what = "path" -> PathClauses(e)
=============================================================================
