------------------------------ MODULE NetworkTrace ------------------------------
(* Recorded lives of forecasters based on a network (its layers replaced by a        *)
(* recording stand-in) against the specification.                                    *)
EXTENDS Network, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* m: what the model was last fitted with, as a sequence of at most one [cfg, sc, min]
VARIABLES k, i, m
Init == /\ k \in 1..Len(Trace) /\ i = 0 /\ m = <<>>
T == Trace[k]
Item(o) == [x |-> o.x, hour |-> o.hour, loss |-> o.loss]
Items(q) == [j \in 1..Len(q) |-> Item(q[j])]
Lk(leak) == [m[1].cfg EXCEPT !.leak = leak]
\* ---- fitting ------------------------------------------------------------------------------
Fit(s) ==
    LET b == Items(s.before) IN
    (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
    (IF ~Fittable(b, s.cfg) THEN (IF s.err = "" THEN {"accepted"} ELSE {})
     ELSE IF s.err # "" THEN {"refused"}
     ELSE IF Len(s.log) # 1 THEN {"trainings"}
     ELSE LET g == s.log[1] IN
          (IF g.X # Inputs(b, s.cfg) THEN {"trained-inputs"} ELSE {}) \cup
          (IF g.y # Outputs(b, s.cfg) THEN {"trained-outputs"} ELSE {}) \cup
          (IF g.trainings # 1 THEN {"trained-before"} ELSE {}) \cup
          (IF g.trainings = 1 /\ g.loss # LossName(s.min) THEN {"loss"} ELSE {}) \cup
          (IF g.epochs # s.epochs THEN {"epochs"} ELSE {}) \cup
          (IF ~g.fits \/ g.neurons # s.neurons THEN {"network-shape"} ELSE {}))
\* ---- asking ---------------------------------------------------------------------------------
AskedSet(s) == {s.asked[j] : j \in 1..Len(s.asked)}
\* all the matrices that are to be asked for the forecast of the following items
RECURSIVE AskedFor(_, _, _, _, _)
AskedFor(b, hours, c, cfg, sc) ==
    IF hours = <<>> THEN <<>>
    ELSE LET it == Forecast(b, <<hours[1]>>, c, cfg, sc)[1] IN
         <<Asked(LastOf(b, cfg.w), [x |-> c, hour |-> hours[1], loss |-> <<>>], cfg, sc)>> \o AskedFor(Append(b, it), Tail(hours), c, cfg, sc)
Hours(s) == [j \in 1..Len(s.next) |-> s.next[j].hour]
\* whether the network was asked with all of what was given
Leaks(s, b) == s.full /\ AskedSet(s) = {Asked(LastOf(b, m[1].cfg.w), [x |-> s.c, hour |-> s.next[1].hour, loss |-> <<>>], Lk(TRUE), m[1].sc)}
LeaksAll(s, b) == s.full /\ LET q == AskedFor(b, Hours(s), s.c, Lk(TRUE), m[1].sc) IN AskedSet(s) = {q[j] : j \in 1..Len(q)}
Pre(s) ==
    LET b == Items(s.before) IN
    (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
    (IF m = <<>> \/ ~Predictable(b, s.given, m[1].cfg) THEN (IF s.err = "" THEN {"accepted"} ELSE {})
     ELSE IF s.err # "" THEN {"refused"}
     ELSE LET cfg == Lk(Leaks(s, b)) n == [x |-> s.c, hour |-> s.next[1].hour, loss |-> <<>>] IN
          (IF AskedSet(s) # {Asked(LastOf(b, cfg.w), n, cfg, m[1].sc)} THEN {"asked"} ELSE {}) \cup
          (IF s.out # Predicted(b, n, cfg, m[1].sc) THEN {"predicted"} ELSE {}))
\* forecasts, as an item or at the end of the series
For(s) ==
    LET b == Items(s.before) nb == Len(b)
        all == IF s.op = "apply" THEN (IF s.inplace THEN s.after ELSE s.out) ELSE s.out IN
    (IF ~(s.op = "apply" /\ s.inplace /\ s.err = "") /\ s.after # s.before THEN {"input-changed"} ELSE {}) \cup
    (IF m = <<>> \/ ~Forecastable(b, s.given, m[1].cfg) THEN (IF s.err = "" THEN {"accepted"} ELSE {})
     ELSE IF s.err # "" THEN {"refused"}
     ELSE IF Len(all) # Len(s.next) + (IF s.op = "apply" THEN nb ELSE 0) THEN {"number-of-items"}
     ELSE LET cfg == Lk(LeaksAll(s, b))
              q == AskedFor(b, Hours(s), s.c, cfg, m[1].sc)
              f == Forecast(b, Hours(s), s.c, cfg, m[1].sc)
              o == IF s.op = "apply" THEN SubSeq(all, nb + 1, Len(all)) ELSE all IN
          (IF AskedSet(s) # {q[j] : j \in 1..Len(q)} THEN {"asked"} ELSE {}) \cup
          (IF \E j \in 1..Len(f) : DOMAIN o[j].x # DOMAIN f[j].x THEN {"labels"}
           ELSE IF \E j \in 1..Len(f) : o[j].x # f[j].x THEN {"forecasted"} ELSE {}) \cup
          (IF \E j \in 1..Len(f) : o[j].t # s.next[j].t \/ o[j].e # s.next[j].e \/ o[j].kind # s.before[nb].kind THEN {"times"} ELSE {}) \cup
          (IF s.op = "apply" /\ \E j \in 1..Len(all) : all[j].flag # <<IF j > nb THEN One ELSE Zero>> THEN {"marks"} ELSE {}) \cup
          (IF s.op = "apply" /\ \E j \in 1..nb : [all[j] EXCEPT !.flag = <<>>] # s.before[j] THEN {"originals"} ELSE {}))
\* ---- evaluating ------------------------------------------------------------------------------
AskedOf(b, cfg, sc) == {Asked(SubSeq(b, j - cfg.w, j - 1), b[j], cfg, sc) : j \in (cfg.w + 1)..Len(b)}
Eva(s) ==
    LET b == Items(s.before) IN
    (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
    (IF m = <<>> THEN (IF s.err = "" THEN {"accepted"} ELSE {})
     ELSE IF Len(b) <= m[1].cfg.w THEN {}           \* nothing to evaluate
     ELSE IF s.err # "" THEN {"refused"}
     ELSE LET seen == AskedSet(s)
              leak == Context(m[1].cfg) # <<>> /\ seen # AskedOf(b, Lk(FALSE), m[1].sc) /\ seen = AskedOf(b, Lk(TRUE), m[1].sc)
              cfg == Lk(leak)
              p == Evaluated(b, cfg, m[1].sc)
              mets == IF s.metrics = <<>> THEN Auto(m[1].min) ELSE s.metrics
              names == {[n |-> l \o "_" \o mets[j], l |-> l, m |-> mets[j]] : l \in SeqSet(cfg.target), j \in 1..Len(mets)} IN
          (IF leak THEN {"target-in-context"} ELSE {}) \cup
          (IF ~leak /\ seen # AskedOf(b, cfg, m[1].sc) THEN {"asked"} ELSE {}) \cup
          (IF DOMAIN s.res # {x.n : x \in names} THEN {"metrics"}
           ELSE {x.m : x \in {x \in names : x.m \in {"MAE", "HAE", "MSE"} /\ s.res[x.n] # ErrorOf(x.m, Errs(b, x.l, p, cfg.w))}}))
\* ---- detectors: a network for all labels, or one for each with the others as context ---------------
DetCfg(s, l) == IF s.cfg.ctx THEN [s.cfg EXCEPT !.target = <<l>>, !.all = FALSE] ELSE s.cfg
DetCfgs(s) == IF s.cfg.ctx THEN [j \in 1..Len(s.cfg.labels) |-> DetCfg(s, s.cfg.labels[j])] ELSE <<s.cfg>>
DetAsked(s, b, leak) == UNION {{Asked(SubSeq(b, j - s.cfg.w, j - 1), b[j], [DetCfg(s, l) EXCEPT !.leak = leak], ScaleOf(s.cfg, b)) : j \in (s.cfg.w + 2)..Len(b)} : l \in SeqSet(s.cfg.labels)}
DetKept(s, b, leak) == [l \in SeqSet(s.cfg.labels) |-> [j \in 1..(Len(b) - s.cfg.w - 1) |->
                            Predicted(SubSeq(b, 1, s.cfg.w + j), b[s.cfg.w + j + 1], [DetCfg(s, l) EXCEPT !.leak = leak], ScaleOf(s.cfg, b))[l]]]
Det(s) ==
    LET b == Items(s.before) cs == DetCfgs(s) IN
    (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
    (IF \E j \in 1..Len(cs) : ~Fittable(b, cs[j]) THEN (IF s.err = "" THEN {"accepted"} ELSE {})
     ELSE IF s.err # "" THEN {"refused"}
     ELSE IF Len(s.log) # Len(cs) THEN {"trainings"}
     ELSE LET leak == s.cfg.ctx /\ AskedSet(s) # DetAsked(s, b, FALSE) /\ AskedSet(s) = DetAsked(s, b, TRUE) IN
          (IF \E j \in 1..Len(cs) : s.log[j].X # Inputs(b, cs[j]) THEN {"trained-inputs"} ELSE {}) \cup
          (IF \E j \in 1..Len(cs) : s.log[j].y # Outputs(b, cs[j]) THEN {"trained-outputs"} ELSE {}) \cup
          (IF \E j \in 1..Len(cs) : s.log[j].trainings # 1 THEN {"trained-before"} ELSE {}) \cup
          (IF leak THEN {"target-in-context"} ELSE IF AskedSet(s) # DetAsked(s, b, FALSE) THEN {"asked"} ELSE {}) \cup
          (IF s.kept # DetKept(s, b, leak) THEN {"predicted"} ELSE {}))
Clauses(s) == CASE s.op = "detect" -> Det(s)
                [] s.op = "fit" -> Fit(s)
                [] s.op = "predict" -> Pre(s)
                [] s.op \in {"forecast", "apply"} -> For(s)
                [] s.op = "evaluate" -> Eva(s)
                [] s.op = "load" -> (IF m # <<>> /\ s.err # "" THEN {"refused"} ELSE {})
                [] s.op = "cross" -> (IF s.err = "" /\ \E j \in 1..Len(s.trainings) : s.trainings[j] # 1 THEN {"trained-before"} ELSE {}) \cup (IF s.err # "" THEN {"refused"} ELSE {})
Site(s) == T.site \o "-" \o s.op
Exp(s) == CASE s.op = "fit" -> IF Fittable(Items(s.before), s.cfg) THEN <<Inputs(Items(s.before), s.cfg), Outputs(Items(s.before), s.cfg)>> ELSE <<>>
            [] s.op \in {"forecast", "apply"} -> IF m # <<>> /\ Forecastable(Items(s.before), s.given, m[1].cfg) THEN Forecast(Items(s.before), Hours(s), s.c, Lk(FALSE), m[1].sc) ELSE <<>>
            [] OTHER -> <<>>
Next == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1] bad == Clauses(s) IN
           /\ bad # {} => PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> Site(s), exp |-> Exp(s)]))
           /\ i' = IF bad = {} THEN i + 1 ELSE Len(T.steps) + 1
           /\ m' = IF s.op = "fit" /\ s.err = "" THEN <<[cfg |-> s.cfg, sc |-> ScaleOf(s.cfg, Items(s.before)), min |-> s.min]>> ELSE m
        /\ k' = k
=============================================================================
