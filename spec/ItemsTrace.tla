------------------------------- MODULE ItemsTrace -------------------------------
(* Recorded histories of items against the specification.                         *)
EXTENDS Items, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, pool
Init == /\ k \in 1..Len(Trace) /\ i = 0 /\ pool = <<>>
Bad(o, r) ==
    IF o.err # "" THEN (IF r.ok THEN {"refused"} ELSE {}) \cup (IF o.obs # <<>> /\ Len(o.obs) # Len(r.pool) THEN {"pool"} ELSE {})
    ELSE IF ~r.ok THEN {"accepted"} ELSE {}
\* the observation of an item: everything it says about itself
ItemBad(it, ob) ==
    (IF ob.cls # it.cls THEN {"class"} ELSE {}) \cup
    (IF ob.c # it.c \/ ob.e # it.e THEN {"coordinates"} ELSE {}) \cup
    (IF ob.tz # it.tz THEN {"time-zone"} ELSE {}) \cup
    (IF IsTime(it.cls) /\ (ob.t # it.c \/ ob.dt # it.c \/ ~ob.localok) THEN {"time"} ELSE {}) \cup
    (IF Is(it, "slot") /\ ob.length # Length(it) THEN {"length"} ELSE {}) \cup
    (IF Is(it, "slot") /\ ob.unit # UnitOf(it) THEN {"unit"} ELSE {}) \cup
    (IF Is(it, "slot") /\ IsTime(it.cls) /\ ob.endtz # <<it.tz, it.tz>> THEN {"time-zone-of-ends"} ELSE {}) \cup
    (IF IsData(it.cls) /\ ob.data # it.data THEN {"data"} ELSE {}) \cup
    (IF IsData(it.cls) /\ ob.labels # Labels(it) THEN {"labels"} ELSE {}) \cup
    (IF IsData(it.cls) /\ ob.loss # LossOf(it) THEN {"data-loss"} ELSE {}) \cup
    (IF IsData(it.cls) /\ ({ob.ix[j] : j \in 1..Len(ob.ix)} # IxSet(it) \/ Len(ob.ix) # Len(it.ix)) THEN {"indexes"} ELSE {}) \cup
    (IF ~ob.text THEN {"text"} ELSE {}) \cup
    (IF \E j \in 1..Len(ob.foreign) : ob.foreign[j] # 0 THEN {"equal-to-anything"} ELSE {})
B(x) == IF x THEN 1 ELSE 0
RelBad(p, o) ==
    (IF \E a, b \in 1..Len(p) : o.eq[a][b] # B(Eq(p[a], p[b])) \/ o.ne[a][b] # B(~Eq(p[a], p[b])) THEN {"equality"} ELSE {}) \cup
    (IF \E a, b \in 1..Len(p) : Comparable(p[a], p[b]) /\ (o.gt[a][b] # B(Gt(p[a], p[b])) \/ o.lt[a][b] # B(Gt(p[b], p[a]))) THEN {"order"} ELSE {})
StepBad(o, r) == LET b == Bad(o, r) IN
    IF b # {} THEN b
    ELSE IF Len(o.obs) # Len(r.pool) THEN {"pool"}
    ELSE (IF o.op = "arith" /\ o.err = "" /\ o.res # Arith(o.f, o.x, o.y) THEN {"arithmetic"} ELSE {}) \cup
         UNION {ItemBad(r.pool[j], o.obs[j]) : j \in 1..Len(r.pool)} \cup RelBad(r.pool, o)
Step == /\ i < Len(Trace[k].steps)
        /\ LET o == Trace[k].steps[i + 1] r == Apply(pool, o) bad == StepBad(o, r) IN
           IF bad = {} THEN i' = i + 1 /\ pool' = r.pool
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> o.op, exp |-> r]))
                /\ i' = Len(Trace[k].steps) + 1 /\ pool' = pool
        /\ k' = k
Next == Step
=============================================================================
