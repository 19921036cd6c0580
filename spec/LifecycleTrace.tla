--------------------------- MODULE LifecycleTrace ---------------------------
(* Recorded lives of models of one class against the specification.  A trace is  *)
(* [class, total, series, probes, ref, steps]: probes the uses every model is       *)
(* tried on after each step (op, s, ctx), ref what a fresh model answers to them for  *)
(* each key; a step is [op, m, s, key, ctx, good, path, exists, err, out, left]:         *)
(* out the answers of every model afterwards, left whether a refused save left          *)
(* something, or changed what was at that path.                                           *)
EXTENDS Lifecycle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FACET == IOEnv.FACET
VARIABLES k, i, w
vars == <<k, i, w>>
T == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0 /\ w = [models |-> <<Fresh(Trace[k].class)>>, disk |-> [p \in {"~"} |-> Fresh(Trace[k].class)]]
Ref(key) == T.ref[CHOOSE j \in 1..Len(T.ref) : T.ref[j].key = key].out
HasRef(key) == \E j \in 1..Len(T.ref) : T.ref[j].key = key
\* what model m answers to probe j
Ans(m, j) == LET p == T.probes[j] IN
    IF Unready(m) THEN "NotFittedError"
    ELSE IF UseRefused(m, T.series[p.s], p.op = "predict" /\ p.ctx # m.ctx) THEN "refused"
    ELSE "answered"
Wrong(m, j, o) ==
    LET a == Ans(m, j) IN
    CASE a = "NotFittedError" -> (IF o.err = "" THEN {"used-before-fitted"} ELSE IF o.err # "NotFittedError" THEN {"error-before-fitted"} ELSE {})
      [] a = "refused" -> (IF o.err = "" THEN {"accepted-incompatible"} ELSE {})
      [] OTHER -> LET r == Ref(m.key)[j] IN
                  IF o.err # r.err THEN (IF o.err # "" /\ r.err # "" THEN {} ELSE {"refused-compatible"})
                  ELSE IF o.err = "" /\ o.val # r.val THEN {"answers-differ"} ELSE {}
\* a reference answering with an error to something compatible is fine for no class accepting everything
Total(m, j, o) == IF T.total /\ Ans(m, j) = "answered" /\ o.err # "" THEN {"refused-compatible"} ELSE {}
Answers(m, out) == UNION {Wrong(m, j, out[j]) \cup Total(m, j, out[j]) : j \in 1..Len(out)}
After(s) ==
    LET m == w.models[s.m] IN
    CASE s.op = "fit" -> IF FitRefused(m, T.series[s.s], s.good) THEN w ELSE [w EXCEPT !.models[s.m] = Fitted(m, T.series[s.s], s.key, s.ctx)]
      [] s.op = "save" -> IF SaveRefused(m, s.path, s.exists, s.good) THEN w ELSE [w EXCEPT !.disk = (s.path :> m) @@ w.disk]
      [] s.op = "load" -> [w EXCEPT !.models = Append(@, Loaded(w.disk[s.path]))]
      [] s.op = "cv" -> IF CvRefused(m, T.series[s.s], s.good) THEN w ELSE [w EXCEPT !.models[s.m] = Validated(m)]
      [] s.op = "new" -> [w EXCEPT !.models = Append(@, Fresh(T.class))]
      [] OTHER -> w
Refused(s) == LET m == w.models[s.m] IN
    CASE s.op = "fit" -> FitRefused(m, T.series[s.s], s.good)
      [] s.op = "save" -> SaveRefused(m, s.path, s.exists, s.good)
      [] s.op = "cv" -> CvRefused(m, T.series[s.s], s.good)
      [] s.op = "load" -> FALSE
      [] OTHER -> s.err # ""
\* what is wrong with step s
Outcome(s) ==
    IF Refused(s) # (s.err # "") THEN {(IF s.err = "" THEN "accepted-" ELSE "refused-") \o s.op} ELSE {}
All(s) == LET v == After(s) IN
    UNION {LET a == Answers(v.models[x], s.out[x]) IN
           IF a = {} THEN {}
           ELSE IF v.models[x].loaded THEN {"loaded-" \o b : b \in a}
           ELSE IF Refused(s) /\ x = s.m THEN {"changed-by-failed-" \o s.op}
           ELSE IF s.op = "save" /\ x = s.m THEN {"changed-by-save"}
           ELSE IF s.op = "fit" /\ x = s.m THEN {"fit-" \o b : b \in a}
           ELSE a : x \in 1..Len(v.models)}
OfSaving == {"loaded-used-before-fitted", "loaded-error-before-fitted", "loaded-accepted-incompatible", "loaded-refused-compatible", "loaded-answers-differ",
             "changed-by-save", "changed-by-failed-save", "left-by-save", "accepted-save", "refused-save", "refused-load"}
Clauses(s) ==
    LET o == Outcome(s)
        b == (IF o = {} THEN All(s) ELSE o) \cup (IF s.op = "save" /\ s.left THEN {"left-by-save"} ELSE {})
    IN b
Mine(b) == IF FACET = "S19" THEN b \cap OfSaving ELSE b \ OfSaving
Step == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1 /\ w' = After(s)
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> Mine(bad), site |-> T.tag, exp |-> [refused |-> Refused(s), models |-> After(s).models]]))
                /\ i' = Len(T.steps) + 1 /\ w' = w
        /\ k' = k
Next == Step
=============================================================================
