---------------------------- MODULE TransformTrace ----------------------------
(* Recorded resamplings and aggregations against the specification.              *)
EXTENDS Transform, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FACET == IOEnv.FACET
VARIABLES k, i
Init == /\ k \in 1..Len(Trace) /\ i = 0
Refuse(s) == IF s.target = "value" THEN Ends(s.items, s.ends, s.at) = <<>> ELSE Refused(s.g, s.target, s.items, Half(s.items, s.valid), s.fill)
Expected(s) == Transform(s.g, s.target, s.items, s.valid, s.fields, s.nix, s.fill)

\* an interpolator asked directly
ValueClauses(s) == IF s.out.err # "" THEN (IF Refuse(s) THEN {} ELSE {"value-refused"})
                   ELSE IF Refuse(s) THEN {"value-outside"}
                   ELSE IF s.out.x # Evaluate(s.ip, s.items, s.ends, s.at) THEN {"interpolated-value"} ELSE {}
\* the clauses of each property
Clauses(s) ==
    IF s.target = "value" THEN (IF FACET = "points" THEN ValueClauses(s) ELSE {}) ELSE
    LET o == s.out e == Expected(s) IN
    IF FACET \in {"points", "slots"} /\ FACET # s.target THEN {}
    ELSE IF o.err # "" THEN (IF Refuse(s) THEN {} ELSE {"refused"})
    ELSE IF Refuse(s) THEN {"accepted"}
    ELSE (IF FACET \in {"points", "slots"} THEN
            (IF Len(o.items) # Len(e) THEN {"number-of-items"}
             ELSE (IF \E j \in 1..Len(e) : o.items[j].s # e[j].s \/ o.items[j].e # e[j].e THEN {"grid"} ELSE {}) \cup
                  (IF \E j \in 1..Len(e) : o.items[j].x # e[j].x THEN {"values"} ELSE {})) \cup
            (IF o.labels # s.outlabels THEN {"labels"} ELSE {}) \cup
            (IF o.tz # s.tz THEN {"time-zone"} ELSE {}) \cup
            (IF Len(e) > 1 /\ o.unit # s.g.u THEN {"unit"} ELSE {})
          ELSE {}) \cup
         (IF FACET = "loss" /\ Len(o.items) = Len(e) /\ \E j \in 1..Len(e) : o.items[j].l # e[j].l THEN {"data-loss"} ELSE {}) \cup
         (IF FACET = "index" THEN
            (IF o.names # s.names THEN {"index-names"} ELSE {}) \cup
            (IF Len(o.items) = Len(e) /\ \E j \in 1..Len(e) : o.items[j].ix # e[j].ix THEN {"index-values"} ELSE {})
          ELSE {})
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.target,
                      exp |-> IF Refuse(s) THEN <<>> ELSE IF s.target = "value" THEN <<[x |-> Evaluate(s.ip, s.items, s.ends, s.at)]>> ELSE Expected(s)]))
                /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
