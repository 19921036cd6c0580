------------------------------ MODULE EventsTrace ------------------------------
(* Recorded calls of mark_events against the specification.  An observed index is *)
(* <<>> when absent, <<rational>> otherwise.                                       *)
EXTENDS Events, Rat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
Init == /\ k \in 1..Len(Trace) /\ i = 0
Expect(s) == Marks([j \in 1..Len(s.before) |-> RLe(s.thr, s.before[j].anomaly[1])], s.p, s.g)
Num(b) == IF b THEN <<One>> ELSE <<Zero>>
Clauses(s) ==
    IF s.err # "" THEN {"refused"}
    ELSE LET m == Expect(s) o == s.out IN
    IF Len(o) # Len(s.before) THEN {"number-of-items"}
    ELSE (IF \E j \in 1..Len(o) : (IF s.replace THEN o[j].anomaly ELSE o[j].event) # Num(m[j]) THEN {"marks"} ELSE {}) \cup
         (IF \E j \in 1..Len(o) : (IF s.replace THEN o[j].event # <<>> ELSE o[j].anomaly # s.before[j].anomaly) THEN {"indexes"} ELSE {}) \cup
         (IF \E j \in 1..Len(o) : o[j].rest # s.before[j].rest THEN {"rest"} ELSE {}) \cup
         (IF ~s.inplace /\ s.after # s.before THEN {"input-changed"} ELSE {}) \cup
         (IF s.inplace /\ s.after # s.out THEN {"not-in-place"} ELSE {}) \cup
         (IF s.same # s.inplace THEN {"identity"} ELSE {})
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.site, exp |-> Expect(s)]))
                /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
