-------------------------- MODULE CrossValidationTrace --------------------------
(* The calls that cross_validate made on a model, one step each, then its result.   *)
EXTENDS CrossValidation, Rat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, m
T == Trace[k]
Init == /\ k \in 1..Len(Trace) /\ i = 0 /\ m = Fresh
\* the scores of the rounds, by metric
Mean(q) == RDiv(RSumSeq(q), R(Len(q)))
Variance(q) == LET a == Mean(q) IN RDiv(RSumSeq([j \in 1..Len(q) |-> RMul(RSub(q[j], a), RSub(q[j], a))]), R(Len(q) - 1))
Metrics == {T.metrics[x] : x \in 1..Len(T.metrics)}
EvalSteps == SelectSeq(T.steps, LAMBDA s : s.op = "evaluate")
Scores(x) == [j \in 1..Len(EvalSteps) |-> EvalSteps[j].scores[x]]
Clauses(s) ==
    IF s.op = "result" THEN
       IF s.err # "" THEN {"refused"}
       ELSE (IF m.next # "done" THEN {"rounds-missing"} ELSE {}) \cup
            (IF s.fitted THEN {"left-fitted"} ELSE {}) \cup
            (IF DOMAIN s.avg # Metrics \/ DOMAIN s.var # Metrics THEN {"metrics"}
             ELSE IF T.exact THEN (IF \E x \in Metrics : s.avg[x] # Mean(Scores(x)) THEN {"mean"} ELSE {}) \cup
                                  (IF \E x \in Metrics : s.var[x] # Variance(Scores(x)) THEN {"stdev"} ELSE {})
             ELSE {}) \cup (IF ~s.close THEN {"mean-or-stdev"} ELSE {})
    ELSE IF m.next = "done" THEN {"too-many-rounds"}
    ELSE LET c == NextCall(m, T.n, T.r, T.u, T.w) IN
         (IF [op |-> s.op, from |-> s.from, to |-> s.to] # c THEN
              (IF s.op = "evaluate" /\ (s.from..(s.to - 1)) \cap m.known # {} THEN {"evaluated-on-known"} ELSE {}) \cup {s.op \o "-range"} ELSE {}) \cup
         (IF s.op = "fit" /\ s.fitted THEN {"not-from-unfitted"} ELSE {}) \cup
         (IF s.op = "evaluate" /\ ~s.fitted THEN {"evaluated-unfitted"} ELSE {}) \cup
         (IF s.args # (IF s.op = "evaluate" THEN T.eargs ELSE T.fargs) THEN {"arguments"} ELSE {}) \cup
         (IF s.op = "evaluate" /\ ~s.fresh THEN {"not-as-a-new-model"} ELSE {})
Step == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1]
               bad == Clauses(s)
           IN
           IF bad = {} THEN i' = i + 1 /\ m' = IF s.op = "result" THEN m ELSE Do(m, T.n, T.r, T.u, T.w)
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> T.site,
                                            exp |-> IF m.next = "done" THEN Fresh ELSE NextCall(m, T.n, T.r, T.u, T.w)]))
                /\ i' = Len(T.steps) + 1 /\ m' = m
        /\ k' = k
Next == Step
=============================================================================
