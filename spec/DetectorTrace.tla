---------------------------- MODULE DetectorTrace ----------------------------
(* Recorded fits, preprocessings and applications of anomaly detectors against the  *)
(* specification.  Indexes are observed in millionths, levels compared in thousandths *)
(* (the centre of the error distribution is observed, not computed).                *)
EXTENDS Detector, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
Init == /\ k \in 1..Len(Trace) /\ i = 0
Fp(r) == (r[1] * 1000) \div r[2]
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
Million == 1000000
SeqToSet(q) == {q[j] : j \in 1..Len(q)}
T == Trace[k]
Recon == T.recon
W == T.w
Pred(s, j, l) == IF T.how = "observed" THEN s.preds[j][l] ELSE Predicted(T.how, s.before, j, l, W)
Err(s, j, l) == ErrorOf(T.metric, s.before[j].x[l], Pred(s, j, l))
FitErrs == [l \in SeqToSet(T.labels) |-> IF T.how = "observed" THEN T.errors[l] ELSE FitErrors(T.how, T.metric, T.fit, l, W, Recon)]
RECURSIVE Isqrt(_, _, _)
Isqrt(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN Isqrt(v, m, hi) ELSE Isqrt(v, lo, m)
SigmaFp(q) == LET v == Variance(q) r == (v[1] % v[2]) * 100
              IN 10 * Isqrt((v[1] \div v[2]) * 10000 + (r \div v[2]) * 100 + ((r % v[2]) * 100) \div v[2], 0, 40000)
Slack == IF T.how = "observed" THEN 3 ELSE 0
\* how far from the centre, in thousandths of the scale, the density is n times smaller than its peak
\* (normal: sqrt(2 ln n), Laplace: ln n, logistic: 2 acosh(sqrt n))
Times(dist, n) == CASE dist = "norm" -> IF n = 10 THEN 2146 ELSE 3717 [] dist = "laplace" -> IF n = 10 THEN 2303 ELSE 6908 [] OTHER -> IF n = 10 THEN 3637 ELSE 8294
\* a bound is [lo, hi], in thousandths: where it certainly is
Bound(b, l, fe) == CASE b.k = "num" -> LET v == Fp(b.v) IN <<v, v + 1>>
                     [] b.k = "avg" -> LET v == Fp(AvgErr(fe[l])) IN <<v - 1, v + 2>>
                     [] b.k = "max" -> LET v == Fp(MaxErr(fe[l])) IN <<v - Slack, v + 1 + Slack>>
                     [] b.k = "sigma" -> LET v == (SigmaFp(fe[l]) * b.v[1]) \div b.v[2] IN <<v - 11 * (1 + b.v[1] \div b.v[2]), v + 11 * (1 + b.v[1] \div b.v[2])>>
                     [] b.k = "adh" -> LET m == Times(T.dist, b.v[1]) IN <<T.loc[l] + (T.scale[l] * m) \div 1000 - 2, T.loc[l] + ((T.scale[l] + 1) * m) \div 1000 + 3>>
\* the level, as [lo, hi]; a dyadic one which is not reversed is exact
Left(e, l) == Signed(T.metric) /\ Fp(e) < T.loc[l] - 5
Right(e, l) == ~Signed(T.metric) \/ Fp(e) > T.loc[l] + 5
LevelFp(e, l) == IF Right(e, l) THEN <<Fp(e) - Slack, Fp(e) + 1 + Slack>>
                 ELSE IF Left(e, l) THEN <<Fp(RAbs(e)) + T.loc[l] - 2 - Slack, Fp(RAbs(e)) + T.loc[l] + 3 + Slack>>
                 ELSE <<-2000000000, 2000000000>>
Exact(e, b) == T.how # "observed" /\ T.metric \in {"E", "AE"} /\ b.k \in {"num", "max"}
ExactBound(b, l, fe) == IF b.k = "num" THEN b.v ELSE MaxErr(fe[l])
ClassOf(e, l, c, fe) == LET x == LevelFp(e, l) lo == Bound(c.lo, l, fe) hi == Bound(c.hi, l, fe)
                            xl == Right(e, l) /\ Exact(e, c.lo) xh == Right(e, l) /\ Exact(e, c.hi)
                            below == IF xl THEN RLe(e, ExactBound(c.lo, l, fe)) ELSE x[2] < lo[1]
                            above == IF xl THEN ~RLe(e, ExactBound(c.lo, l, fe)) ELSE x[1] > lo[2]
                            past == IF xh THEN RLe(ExactBound(c.hi, l, fe), e) ELSE x[1] > hi[2]
                            under == IF xh THEN ~RLe(ExactBound(c.hi, l, fe), e) ELSE x[2] < hi[1]
                        IN IF below THEN "zero" ELSE IF above /\ past THEN "one" ELSE IF above /\ under THEN "mid" ELSE "any"
CatZero(c) == c.cat = <<>> \/ RLt(Zero, c.cat[1])
\* the value of the index when its form is the straight line between the bounds (given as a function), in millionths, as [lo, hi]
Straight(e, l, c, fe) == LET x == LevelFp(e, l) lo == Bound(c.lo, l, fe) hi == Bound(c.hi, l, fe)
    a == IF hi[2] - lo[1] <= 0 THEN 0 ELSE ((x[1] - lo[2]) * 10000) \div (hi[2] - lo[1])
    b == IF hi[1] - lo[2] <= 0 THEN 10000 ELSE ((x[2] - lo[1]) * 10000) \div (hi[1] - lo[2]) + 1
    IN <<(a - 1) * 100, (b + 1) * 100>>
\* -- one application ------------------------------------------------------------------
EvSeq(s) == LET n == Len(s.before) IN IF n < W + 2 THEN <<>> ELSE [j \in 1..((IF Recon THEN n - W ELSE n) - W - 1) |-> W + 1 + j]
Ex(s) == LET ev == EvSeq(s) IN [j \in 1..Len(ev) |-> [n |-> ev[j], scored |-> Scored(s.before, ev[j], W, Recon, s.cfg.loss)]]
LabelIndexOk(s, e, l, v, fe) ==
    LET c == s.cfg cls == ClassOf(e, l, c, fe) IN
    /\ 0 <= v /\ v <= Million
    /\ c.cat # <<>> => v \in {0, Million}
    /\ cls = "zero" => v = (IF CatZero(c) THEN 0 ELSE Million)
    /\ cls = "one" => v = (IF c.cat # <<>> /\ RLt(One, c.cat[1]) THEN 0 ELSE Million)
    /\ (cls = "mid" /\ c.form = "straight" /\ c.cat = <<>>) => LET b == Straight(e, l, c, fe) IN b[1] <= v /\ v <= b[2]
    /\ (cls = "mid" /\ c.form = "straight" /\ c.cat # <<>>) => LET b == Straight(e, l, c, fe) t == (c.cat[1][1] * Million) \div c.cat[1][2] IN
            (b[2] < t => v = 0) /\ (b[1] > t => v = Million)
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1] + Total(Tail(q))
OverallOk(strategy, q, v) ==
    IF Len(q) = 1 THEN v = q[1]
    ELSE CASE strategy = "max" -> (\E j \in 1..Len(q) : q[j] = v) /\ \A j \in 1..Len(q) : q[j] <= v
           [] strategy = "min" -> (\E j \in 1..Len(q) : q[j] = v) /\ \A j \in 1..Len(q) : v <= q[j]
           [] strategy = "avg" -> Near(Len(q) * v, Total(q), Len(q))
           [] strategy = "first" -> v = q[1]
Names(s) == SeqToSet(T.labels) \cup {l \o "_" \o d : l \in SeqToSet(T.labels), d \in SeqToSet(s.cfg.details)}
DetailsOk(s, o, j, scored) == /\ DOMAIN o.x = Names(s)
    /\ \A l \in SeqToSet(T.labels), d \in SeqToSet(s.cfg.details) :
          LET v == o.x[l \o "_" \o d] IN
          IF ~scored THEN v = <<>>
          ELSE v # <<>> /\ (T.how # "observed" => (d = "pred" => v[1] = Pred(s, j, l)) /\ ((d = "err" /\ Right(Err(s, j, l), l)) => v[1] = Err(s, j, l)))
\* larger errors never get a smaller index: what was scored is {[l, e, v]}
Points(s, ex) == {[l |-> T.labels[m], e |-> Err(s, ex[j].n, T.labels[m]), v |-> s.idxs[j][m]] : j \in {n \in 1..Len(ex) : ex[n].scored}, m \in 1..Len(T.labels)}
Upto(a, b) == IF T.how = "observed" THEN Fp(a) + 5 < Fp(b) ELSE RLe(a, b)
Disordered(ps) == \E p, q \in ps : /\ p.l = q.l /\ p.v > q.v + 1
                                   /\ \/ Left(p.e, p.l) /\ Left(q.e, q.l) /\ Upto(RAbs(p.e), RAbs(q.e))
                                      \/ Right(p.e, p.l) /\ Right(q.e, q.l) /\ Upto(p.e, q.e)
\* the two forms of the index given by name are those of the documentation (computed by the functions given instead)
SameForm(s) == s.forms = <<>> \/ \A j \in 1..Len(s.idxs) : s.idxs[j] = <<>> \/ \A m \in 1..Len(T.labels) : Near(s.idxs[j][m], s.forms[j][m], 5)
ApplyClauses(s) ==
    IF s.err # "" THEN (IF s.refusable THEN {} ELSE {"refused"})
    ELSE LET ex == Ex(s) o == s.out fe == FitErrs IN
    IF Len(o) # Len(ex) THEN {"items"}
    ELSE (IF \E j \in 1..Len(o) : o[j].t # s.before[ex[j].n].t \/ o[j].rest # s.before[ex[j].n].rest \/ o[j].loss # s.before[ex[j].n].loss THEN {"items"} ELSE {}) \cup
         (IF \E j \in 1..Len(o) : ~DetailsOk(s, o[j], ex[j].n, ex[j].scored) THEN {"details"} ELSE {}) \cup
         (IF \E j \in 1..Len(o) : \E l \in SeqToSet(T.labels) : l \in DOMAIN o[j].x => o[j].x[l] # <<s.before[ex[j].n].x[l]>> THEN {"data"} ELSE {}) \cup
         (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
         (IF \E j \in 1..Len(o) : (o[j].idx # <<>>) # ex[j].scored THEN {"scored"}
          ELSE IF Len(s.idxs) # Len(ex) \/ \E j \in 1..Len(ex) : ex[j].scored /\ Len(s.idxs[j]) # Len(T.labels) THEN {"indexes"}
          ELSE (IF \E j \in 1..Len(o) : ex[j].scored /\ \E m \in 1..Len(T.labels) : ~LabelIndexOk(s, Err(s, ex[j].n, T.labels[m]), T.labels[m], s.idxs[j][m], fe) THEN {"index"} ELSE {}) \cup
               (IF \E j \in 1..Len(o) : ex[j].scored /\ ~OverallOk(s.cfg.strategy, s.idxs[j], o[j].idx[1]) THEN {"overall"} ELSE {}) \cup
               (IF Disordered(UNION ({Points(s, ex)} \cup {Points(Trace[k].steps[r], Ex(Trace[k].steps[r])) : r \in SeqToSet(s.like)})) THEN {"order"} ELSE {}) \cup
               (IF ~SameForm(s) THEN {"form"} ELSE {}))
PrepareClauses(s) == IF s.err # "" THEN {"refused"}
                     ELSE (IF s.out # s.before THEN {"items"} ELSE {}) \cup (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
                          (IF s.same # s.inplace THEN {"identity"} ELSE {})
FitClauses(s) == IF s.err # "" THEN {"refused"}
                 ELSE (IF s.after # T.fit THEN {"input-changed"} ELSE {}) \cup
                      (IF T.stored /\ \E l \in SeqToSet(T.labels) : T.how # "observed" /\ T.errors[l] # FitErrs[l] THEN {"errors"} ELSE {}) \cup
                      (IF T.stored /\ \E l \in SeqToSet(T.labels) : \/ T.kept[l].a # FitActual(T.fit, l, W, Recon)
                                                                    \/ T.how # "observed" /\ T.kept[l].p # FitPredicted(T.how, T.fit, l, W, Recon)
                                                                    \/ Len(T.kept[l].p) # Len(T.kept[l].a) THEN {"kept-values"} ELSE {})
Clauses(s) == CASE s.op = "apply" -> ApplyClauses(s) [] s.op = "prepare" -> PrepareClauses(s) [] s.op = "fit" -> FitClauses(s)
Expect(s) == IF s.op = "apply" /\ s.err = "" THEN [fit |-> FitErrs, lo |-> [l \in SeqToSet(T.labels) |-> Bound(s.cfg.lo, l, FitErrs)], hi |-> [l \in SeqToSet(T.labels) |-> Bound(s.cfg.hi, l, FitErrs)],
               items |-> [j \in 1..Len(Ex(s)) |-> <<Ex(s)[j].n, Ex(s)[j].scored, [l \in SeqToSet(T.labels) |-> IF Ex(s)[j].scored THEN <<Err(s, Ex(s)[j].n, l), ClassOf(Err(s, Ex(s)[j].n, l), l, s.cfg, FitErrs)>> ELSE <<>>]>>]]
             ELSE [fit |-> IF T.how = "observed" THEN <<>> ELSE FitErrs]
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.site, exp |-> Expect(s)]))
                /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
