----------------------------- MODULE ExternalTrace -----------------------------
(* Recorded lives of models based on an engine of another library (replaced by a      *)
(* stand-in) against the specification.                                                *)
EXTENDS External, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* m: what the model was last fitted on, a sequence of at most one [z, b, order, label, u]
VARIABLES k, i, m
Init == /\ k \in 1..Len(Trace) /\ i = 0 /\ m = <<>>
T == Trace[k]
V(x) == IF x[2] = 1 THEN x[1] ELSE -1000000
Items(s) == [j \in 1..Len(s.before) |-> LET o == s.before[j] IN
    [t |-> o.t, e |-> o.e, v |-> V(o.x[s.labels[1]]), lost |-> o.loss # <<>> /\ RLe(s.thr, o.loss[1])]]
Eng == T.engine
Fits(s) == Len(s.labels) = 1
Ready(s) == m # <<>> /\ s.labels = <<m[1].label>> /\ UnitEq(s.u, m[1].u)
L(s) == s.labels[1]
Can(s) == Ready(s) /\ Usable(Eng, m[1], Items(s))
F(s, n) == Forecasts(Eng, m[1], s.u, s.kind, Items(s), n)
Unchanged(s) == IF s.after # s.before THEN {"input-changed"} ELSE {}
Refused(s, can, clauses) == IF ~can THEN (IF s.err = "" THEN {"accepted"} ELSE {}) ELSE IF s.err # "" THEN {"refused"} ELSE clauses
Single(x, l, v) == DOMAIN x = {l} /\ x[l] = R(v)
Pre(s) == Unchanged(s) \cup
    IF ~Can(s) THEN Refused(s, FALSE, {}) ELSE
    LET f == F(s, s.n) IN
    Refused(s, TRUE, IF Len(s.out) # s.n THEN {"number"} ELSE IF \E j \in 1..s.n : ~Single(s.out[j].x, L(s), f[j].v) THEN {"predicted"} ELSE {})
For(s) ==
    LET nb == IF s.op = "apply" THEN Len(s.before) ELSE 0
        all == IF s.op = "apply" /\ s.inplace THEN s.after ELSE s.out IN
    (IF s.op = "apply" /\ s.inplace /\ s.err = "" THEN {} ELSE Unchanged(s)) \cup
    IF ~Can(s) THEN Refused(s, FALSE, {}) ELSE
    LET f == F(s, s.n) IN
    Refused(s, TRUE, IF Len(all) # nb + s.n THEN {"number"} ELSE
        (IF \E j \in 1..s.n : ~Single(all[nb + j].x, L(s), f[j].v) THEN {"forecasted"} ELSE {}) \cup
        (IF \E j \in 1..s.n : all[nb + j].t # f[j].t \/ all[nb + j].e # f[j].e \/ all[nb + j].kind # s.before[1].kind THEN {"times"} ELSE {}) \cup
        (IF s.op = "apply" /\ \E j \in 1..Len(all) : all[j].flag # <<IF j > nb THEN One ELSE Zero>> THEN {"marks"} ELSE {}) \cup
        (IF \E j \in 1..nb : [all[j] EXCEPT !.flag = <<>>] # s.before[j] THEN {"originals"} ELSE {}))
Reb(s) == (IF s.inplace /\ s.err = "" THEN {} ELSE Unchanged(s)) \cup
    IF ~Ready(s) THEN Refused(s, FALSE, {}) ELSE
    LET all == IF s.inplace THEN s.after ELSE s.out
        b == Items(s) r == Reconstructed(m[1], b) IN
    Refused(s, TRUE, IF Len(all) # Len(b) THEN {"number"} ELSE
        (IF \E j \in 1..Len(b) : ~Single(all[j].x, L(s), r[j].v) THEN {"reconstructed"} ELSE {}) \cup
        (IF \E j \in 1..Len(b) : all[j].flag # <<IF b[j].lost THEN One ELSE Zero>> THEN {"marks"} ELSE {}) \cup
        (IF \E j \in 1..Len(b) : [all[j] EXCEPT !.flag = <<>>, !.x = s.before[j].x] # s.before[j] THEN {"originals"} ELSE {}))
Stretch(s) == Unchanged(s) \cup
    IF ~Ready(s) THEN Refused(s, FALSE, {}) ELSE
    LET b == Items(s) IN
    Refused(s, TRUE, IF Len(s.out) # s.to - s.from + 1 THEN {"number"}
                     ELSE IF \E j \in 1..Len(s.out) : ~Single(s.out[j].x, L(s), AtTime(m[1], b[s.from + j].t)) THEN {"predicted"} ELSE {})
Eva(s) == Unchanged(s) \cup
    IF ~Ready(s) THEN Refused(s, FALSE, {}) ELSE
    LET b == Items(s) IN
    IF Eng = "recon" THEN
        IF \E j \in 1..Len(s.ns) : Stretches(b, s.ns[j]) = {} THEN Refused(s, FALSE, {})
        ELSE Refused(s, TRUE, IF s.res # <<MeanOver(m[1], b, s.ns)>> THEN {"error"} ELSE {})
    ELSE IF Len(b) < 2 THEN {}
    ELSE Refused(s, TRUE, IF s.res = <<MeanError(m[1], b)>> THEN {}
                          ELSE IF s.res = <<MeanErrorAll(m[1], s.u, s.kind, b)>> THEN {"first-item"} ELSE {"error"})
\* saved and loaded: out is what the model predicts, again what the loaded one does
Loa(s) == Unchanged(s) \cup
    IF m = <<>> THEN Refused(s, FALSE, {})
    ELSE IF s.err # "" THEN {"not-saved"}
    ELSE IF s.again # s.out THEN {"loaded-predicts"} ELSE {}
Clauses(s) == CASE s.op = "fit" -> Unchanged(s) \cup Refused(s, Fits(s), {})
                [] s.op = "predict" -> Pre(s)
                [] s.op \in {"forecast", "apply"} -> For(s)
                [] s.op = "reconstruct" -> Reb(s)
                [] s.op = "stretch" -> Stretch(s)
                [] s.op = "evaluate" -> Eva(s)
                [] s.op = "load" -> Loa(s)
Exp(s) == CASE s.op \in {"predict", "forecast", "apply"} -> IF Can(s) THEN F(s, s.n) ELSE <<>>
            [] s.op = "reconstruct" -> IF Ready(s) THEN Reconstructed(m[1], Items(s)) ELSE <<>>
            [] s.op = "evaluate" -> IF Ready(s) /\ Eng # "recon" /\ Len(s.before) > 1 THEN <<MeanError(m[1], Items(s))>> ELSE <<>>
            [] OTHER -> <<>>
Next == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1] bad == Clauses(s) IN
           /\ bad # {} => PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> Eng \o "-" \o s.op, exp |-> Exp(s)]))
           /\ i' = IF bad = {} THEN i + 1 ELSE Len(T.steps) + 1
           /\ m' = IF s.op = "fit" /\ s.err = "" /\ Fits(s) THEN <<[z |-> T.zone, b |-> Items(s), order |-> s.order, label |-> L(s), u |-> s.u]>> ELSE m
        /\ k' = k
=============================================================================
