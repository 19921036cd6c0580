------------------------------ MODULE ModelsTrace ------------------------------
(* Recorded reconstructions, forecasts and evaluations against the specification.  *)
EXTENDS Models, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
Init == /\ k \in 1..Len(Trace) /\ i = 0
T == Trace[k]
Item(o) == [t |-> o.t, dst |-> o.dst, n |-> o.n, x |-> o.x, loss |-> o.loss]
Items(q) == [j \in 1..Len(q) |-> Item(q[j])]
\* the model, as learned from what it was fitted on
M == CASE T.how \in {"linear", "stairs", "trend", "double"} -> [how |-> T.how]
       [] T.how = "reconstructor" -> [how |-> "periodic", P |-> T.P[CHOOSE l \in DOMAIN T.P : TRUE],
                                      pat |-> [l \in Labels(T.fit) |-> Pattern(T.fit, l, T.P[l], T.limit)]]
       [] T.how = "forecaster" -> [how |-> "periodic", P |-> T.P, w |-> T.w, pat |-> [l \in Labels(T.fit) |-> Pattern(T.fit, l, T.P[l], T.limit)]]
AsIs == IF T.how = "forecaster" THEN [M EXCEPT !.how = "asis"] ELSE M
Flag(b) == IF b THEN <<One>> ELSE <<Zero>>
\* ---- reconstruct ------------------------------------------------------------------------------------
Rec(s) ==
    LET b == Items(s.before) ok == Reconstructable(b, s.thr, M) IN
    IF ~ok THEN (IF s.err = "" THEN {"accepted"} ELSE {}) \cup (IF s.after # s.before THEN {"changed-by-refused"} ELSE {})
    ELSE IF s.err # "" THEN {"refused"} \cup (IF s.after # s.before THEN {"changed-by-refused"} ELSE {})
    ELSE LET r == Reconstruct(b, s.thr, M) o == IF s.inplace THEN s.after ELSE s.out IN
         (IF Len(o) # Len(r) THEN {"number-of-items"}
          ELSE (IF \E j \in 1..Len(r) : Lost(b[j], s.thr) /\ o[j].x # r[j].x THEN {"reconstructed-values"} ELSE {}) \cup
               (IF \E j \in 1..Len(r) : ~Lost(b[j], s.thr) /\ o[j].x # r[j].x THEN {"other-values"} ELSE {}) \cup
               (IF \E j \in 1..Len(r) : o[j].flag # Flag(Lost(b[j], s.thr)) THEN {"marks"} ELSE {}) \cup
               (IF \E j \in 1..Len(r) : o[j].t # s.before[j].t \/ o[j].e # s.before[j].e \/ o[j].rest # s.before[j].rest \/ o[j].loss # s.before[j].loss THEN {"rest"} ELSE {})) \cup
         (IF ~s.inplace /\ s.after # s.before THEN {"input-changed"} ELSE {})
\* ---- forecasts ----------------------------------------------------------------------------------------
\* o: the items beyond the known ones
New(s, o, e) ==
    (IF Len(o) # Len(e) THEN {"number-of-items"}
     ELSE (IF \E j \in 1..Len(o) : DOMAIN o[j].x # DOMAIN e[j].x THEN {"labels"}
           ELSE IF \E j \in 1..Len(o) : o[j].x # e[j].x THEN {"forecast-values"} ELSE {}) \cup
          (IF s.op # "predict" /\ \E j \in 1..Len(o) : o[j].t # s.grid[j].t \/ o[j].e # s.grid[j].e THEN {"times"} ELSE {}) \cup
          (IF s.op # "predict" /\ \E j \in 1..Len(o) : o[j].kind # s.before[Len(s.before)].kind THEN {"kind-unit-or-zone"} ELSE {}) \cup
          (IF s.op = "apply" /\ \E j \in 1..Len(o) : o[j].flag # <<One>> \/ o[j].others # "[]" THEN {"marks"} ELSE {}))
For(s) ==
    LET b == Items(s.before) n == Len(b) g == Items(s.grid)
        o == IF s.op = "apply" /\ s.inplace THEN s.after ELSE s.out IN
    IF ~Forecastable(b, g, M) THEN (IF s.op = "apply" /\ s.after # s.before /\ s.err # "" THEN {"changed-by-refused"} ELSE {})
    ELSE IF s.err # "" THEN {"refused"}
    ELSE IF s.op # "apply" THEN
         LET bad == New(s, o, Forecast(b, g, M)) IN
         (IF bad = {"forecast-values"} /\ New(s, o, Forecast(b, g, AsIs)) = {} THEN {"window-without-last-item"} ELSE bad) \cup
         (IF s.after # s.before THEN {"input-changed"} ELSE {})
    ELSE IF Len(o) < n THEN {"number-of-items"}
    ELSE LET bad == New(s, SubSeq(o, n + 1, Len(o)), Forecast(b, g, M)) IN
         (IF bad = {"forecast-values"} /\ New(s, SubSeq(o, n + 1, Len(o)), Forecast(b, g, AsIs)) = {} THEN {"window-without-last-item"} ELSE bad) \cup
         (IF \E j \in 1..n : o[j].x # s.before[j].x \/ o[j].t # s.before[j].t \/ o[j].rest # s.before[j].rest \/ o[j].loss # s.before[j].loss THEN {"originals"} ELSE {}) \cup
         (IF \E j \in 1..n : o[j].flag # <<Zero>> THEN {"marks"} ELSE {}) \cup
         (IF ~s.inplace /\ s.after # s.before THEN {"input-changed"} ELSE {})
\* ---- evaluations ----------------------------------------------------------------------------------------
\* of forecasters: from position start+1 on, each value against the one predicted from what precedes it
Guess(b, j, l) == IF T.how = "double" THEN RAdd(b[j - 1].x[l], One) ELSE Trend(SubSeq(b, 1, j - 1), l)
EvF(s) ==
    LET b == Items(s.before)
        pos == [j \in 1..(Len(b) - s.start) |-> s.start + j]
        act == [l \in Labels(b) |-> [j \in 1..Len(pos) |-> b[pos[j]].x[l]]]
        pre == [l \in Labels(b) |-> [j \in 1..Len(pos) |-> Guess(b, pos[j], l)]]
        names == {[n |-> l \o "_" \o s.metrics[m], l |-> l, m |-> s.metrics[m]] : l \in Labels(b), m \in 1..Len(s.metrics)} IN
    IF s.err # "" THEN {"refused"}
    ELSE (IF DOMAIN s.res # {x.n : x \in names} THEN {"metrics"}
          ELSE {x.m : x \in {x \in names : s.res[x.n] # Metric(x.m, act[x.l], pre[x.l])}}) \cup
         (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
         (IF s.series = <<>> THEN {}
          ELSE LET o == s.series[1] IN
               IF Len(o) # Len(pos) THEN {"results-series"}
               ELSE IF \E j \in 1..Len(o) : o[j].t # b[pos[j]].t \/ \E l \in Labels(b) : o[j].x[l] # act[l][j] \/ o[j].x[l \o "_pred"] # pre[l][j] THEN {"results-series"}
               ELSE IF \E j \in 1..Len(o) : \E l \in Labels(b) : \E p \in 1..Len(s.punctual) :
                         o[j].x[l \o "_" \o s.punctual[p]] # Punctual(s.punctual[p], act[l][j], pre[l][j]) THEN {"results-series-errors"} ELSE {})
\* of reconstructors: for every number of missing items, over all the positions where they can be tried
EvR(s) ==
    LET b == Items(s.before) l == CHOOSE l \in Labels(b) : TRUE
        q(n) == UpTo(Tried(b, n, s.window, s.thr), s.limit)
        act(n) == Flat([j \in 1..Len(q(n)) |-> [m \in 1..n |-> b[q(n)[j] + m - 1].x[l]]])
        pre(n) == Flat([j \in 1..Len(q(n)) |-> [m \in 1..n |-> Fill(b, q(n)[j], q(n)[j] + n - 1, q(n)[j] + m - 1, l, M)]])
        ns == {s.steps[j] : j \in 1..Len(s.steps)}
        can == \A n \in ns : q(n) # <<>>
        unknown == M.how = "periodic" /\ ~Knows(M.pat[l], b, M.P) IN
    IF unknown THEN {}
    ELSE IF ~can THEN (IF s.err = "" THEN {"accepted"} ELSE {})
    ELSE IF s.err # "" THEN {"refused"}
    ELSE (IF \E n \in ns : \E m \in 1..Len(s.metrics) : (s.metrics[m] \o "_" \o ToString(n) \o "_steps") \notin DOMAIN s.res THEN {"metrics"}
          ELSE {s.metrics[m] : m \in {m \in 1..Len(s.metrics) : \E n \in ns :
                  s.res[s.metrics[m] \o "_" \o ToString(n) \o "_steps"] # Metric(s.metrics[m], act(n), pre(n))}}) \cup
         (IF ~s.mean THEN {"mean-over-steps"} ELSE {}) \cup (IF s.after # s.before THEN {"input-changed"} ELSE {})
Clauses(s) == CASE s.op = "reconstruct" -> Rec(s)
                [] s.op \in {"apply", "forecast", "predict"} -> For(s)
                [] s.op = "evaluate" -> EvF(s)
                [] s.op = "evaluate-gaps" -> EvR(s)
Exp(s) == CASE s.op = "reconstruct" -> IF Reconstructable(Items(s.before), s.thr, M) THEN Reconstruct(Items(s.before), s.thr, M) ELSE <<>>
            [] s.op \in {"apply", "forecast", "predict"} -> IF Forecastable(Items(s.before), Items(s.grid), M) THEN Forecast(Items(s.before), Items(s.grid), M) ELSE <<>>
            [] OTHER -> <<>>
Step == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1]
               bad == Clauses(s)
           IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> T.site, exp |-> Exp(s)]))
                /\ i' = Len(T.steps) + 1
        /\ k' = k
Next == Step
=============================================================================
