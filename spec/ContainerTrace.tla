--------------------------- MODULE ContainerTrace ----------------------------
(* Recorded histories of the real container, step by step against Container.   *)
EXTENDS Container, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Facet == IOEnv.FACET                          \* which clauses are decided: order | atomic | resolution
VARIABLES k, i, st
Init == /\ k \in 1..Len(Trace) /\ i = 0
        /\ st = [cls |-> Trace[k].cls, tz |-> Trace[k].tz, items |-> <<>>]

ResOf(s) == IF s.cls = "TimeSeries" THEN Resolution(s) ELSE <<>>
Pts(s) == s.items # <<>> /\ ~IsSlot(s.items[1]) /\ s.cls = "TimeSeries"
ExpSi(s) == IF Pts(s) /\ Len(s.items) > 1 THEN SamplingInterval(s.items) ELSE <<>>
Clauses(pre, r, o, out) ==
    LET must == r.ok /\ o.op \notin {"dup"} IN
    (IF out.err = "NonTermination" THEN {"terminates"} ELSE {}) \cup
    (IF r.ok /\ out.err # "" THEN {"valid-operation-refused"} ELSE {}) \cup
    (IF ~r.ok /\ out.err = "" THEN {"invalid-operation-accepted"} ELSE {}) \cup
    (IF ~WellFormed(pre.cls, out.items) THEN {"series-invariant"} ELSE {}) \cup
    (IF out.items # r.st.items THEN (IF r.ok THEN {"items"} ELSE {"items-after-refusal"}) ELSE {}) \cup
    (IF out.res # ResOf(r.st) THEN (IF r.ok THEN {"resolution"} ELSE {"resolution-after-refusal"}) ELSE {}) \cup
    (IF pre.cls = "TimeSeries" /\ out.tz # ObservedTz(r.st) THEN {"time-zone"} ELSE {}) \cup
    (IF out.n # Len(r.st.items) THEN {"length"} ELSE {}) \cup
    (IF o.op = "look" /\ Pts(r.st) /\ Len(r.st.items) > 1 /\ out.si # ExpSi(r.st) THEN {"sampling-interval"} ELSE {}) \cup
    (IF o.op = "look" /\ out.guess # <<>> /\ out.guess # ExpSi(r.st) THEN {"guessed-resolution"} ELSE {}) \cup
    (IF o.op = "look" /\ pre.items # <<>> /\ out.labels # pre.items[1].sh /\ pre.items[1].ty = "dict" THEN {"labels"} ELSE {}) \cup
    (IF o.op = "pop" /\ r.ok /\ out.err = "" /\
        LET n == Len(pre.items) p == IF o.i = 9999 THEN n ELSE Norm(o.i, n) + 1 IN out.ret # <<pre.items[p]>> THEN {"popped-item"} ELSE {})

\* S02: an observation made after refusals equals the one of the history without them
TwinClauses(s) == IF s.out # s.twin THEN (IF s.out.err # "" /\ s.out.err # "NonTermination" THEN {"changed-by-refusal"} ELSE {"affected-by-earlier-refusal"}) ELSE {}
Relevant == CASE Facet = "order" -> {"terminates", "valid-operation-refused", "invalid-operation-accepted", "series-invariant", "items", "time-zone", "length", "labels", "popped-item"}
              [] Facet = "atomic" -> {"items-after-refusal", "resolution-after-refusal", "changed-by-refusal", "affected-by-earlier-refusal"}
              [] Facet = "resolution" -> {"terminates", "resolution", "sampling-interval", "guessed-resolution"}
Diverged == {"valid-operation-refused", "invalid-operation-accepted", "items", "items-after-refusal"}

Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1]
               r == Apply(st, s.o)
               all == Clauses(st, r, s.o, s.out) \cup TwinClauses(s)
               bad == all \cap Relevant
           IN /\ st' = r.st
              /\ IF bad = {} /\ all \cap Diverged = {} THEN i' = i + 1
                 ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, exp |-> r]))
                      /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
