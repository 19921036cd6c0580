--------------------------- MODULE OperationsTrace ----------------------------
(* Recorded operations against the specification.                               *)
EXTENDS Operations, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FACET == IOEnv.FACET
VARIABLES k, i
Init == /\ k \in 1..Len(Trace) /\ i = 0
Range_(q) == {q[j] : j \in 1..Len(q)}
Args(s) == [s.args EXCEPT !.labels = Range_(@)]
Scalars == {"min", "max", "sum", "avg"}
Facet(op) == IF op \in Scalars \cup {"select"} THEN "scalar" ELSE IF op = "merge" THEN "merge" ELSE "ops"
\* an item whose indexes are all undefined says the same as one without them
Defined(ix) == [m \in {m \in DOMAIN ix : ix[m] # <<>>} |-> ix[m]]
Compare(o, e) ==
    IF Len(o.items) # Len(e.items) THEN {"number-of-items"}
    ELSE IF e.items = <<>> THEN {}
    ELSE (IF o.kind # e.kind THEN {"kind"} ELSE {}) \cup (IF o.ty # e.ty THEN {"data-type"} ELSE {}) \cup
         (IF \E j \in 1..Len(e.items) : o.items[j].t # e.items[j].t \/ o.items[j].e # e.items[j].e THEN {"times"} ELSE {}) \cup
         (IF \E j \in 1..Len(e.items) : DOMAIN o.items[j].x # DOMAIN e.items[j].x THEN {"labels"}
          ELSE IF \E j \in 1..Len(e.items) : o.items[j].x # e.items[j].x THEN {"values"} ELSE {}) \cup
         (IF \E j \in 1..Len(e.items) : (IF FACET = "merge" THEN Defined(o.items[j].ix) # Defined(e.items[j].ix) ELSE o.items[j].ix # e.items[j].ix) THEN {"indexes"} ELSE {}) \cup
         (IF \E j \in 1..Len(e.items) : o.items[j].z # e.items[j].z THEN {"time-zone"} ELSE {}) \cup
         (IF \E j \in 1..Len(e.items) : o.items[j].u # e.items[j].u THEN {"unit"} ELSE {})
ScalarOf(s) == IF s.args.label = "" THEN [l \in Labels(s.src) |-> Scalar(s.args.op, s.src, l)]
               ELSE [l \in {s.args.label} |-> Scalar(s.args.op, s.src, l)]
\* no calendar unit can be taken back; a single point has no resolution; the library may refuse what is defined from it, or use none
MayRefuse(s) == \/ s.args.op \in {"csum", "integral"} /\ Undefined(s.src)
                \/ s.args.op \in {"csum", "integral"} /\ ~NoOffset(s.args) /\ s.src.kind = "slot" /\ s.cal    \* no unit before the first one is defined
                \/ s.args.op = "merge" /\ LET q == <<s.src>> \o s.args.others IN
                      \/ \E j \in 1..Len(q) : q[j].items # <<>> /\ Undefined(q[j])
                      \/ \A j \in 1..Len(q) : q[j].items # <<>> /\ Disjoint(q)
Clauses(s) ==
    IF Facet(s.args.op) # FACET THEN {}
    ELSE IF s.args.op \in Scalars THEN
         (IF N(s.src) = 0 \/ (s.args.label # "" /\ s.args.label \notin Labels(s.src)) THEN (IF s.out.err = "" THEN {"accepted"} ELSE {})
          ELSE IF s.out.err # "" THEN {"refused"} ELSE IF s.out.x # ScalarOf(s) THEN {s.args.op} ELSE {})
    ELSE LET r == Operate(s.src, Args(s)) IN
         IF r.kind = "refused" THEN (IF s.out.err = "" /\ ~MayRefuse(s) THEN {"accepted"} ELSE {})
         ELSE IF s.out.err # "" THEN (IF MayRefuse(s) THEN {} ELSE {"refused"})
         ELSE Compare(IF s.args.inplace THEN s.after ELSE s.out.ser, IF s.args.inplace THEN Afterwards(s.src, Args(s)) ELSE r)
Exp(s) == IF s.args.op \in Scalars \/ Facet(s.args.op) # FACET THEN <<>> ELSE <<IF s.args.inplace THEN Afterwards(s.src, Args(s)) ELSE Operate(s.src, Args(s))>>
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.args.op, exp |-> Exp(s)]))
                /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
