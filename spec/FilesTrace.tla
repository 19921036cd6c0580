------------------------------ MODULE FilesTrace ------------------------------
(* Recorded histories of saves and loads on real files against the specification.  *)
(* After every step all the files are observed: whether their bytes changed, and    *)
(* what loading them gives.                                                         *)
EXTENDS Files, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, fs
T == Trace[k]
Init == /\ k \in 1..Len(Trace) /\ i = 0 /\ fs = Trace[k].start
\* how a loaded content differs from the one that is there
Diff(o, e) ==
    (IF o.kind # e.kind THEN {"kind"} ELSE {}) \cup (IF o.zone # e.zone THEN {"zone"} ELSE {}) \cup (IF o.res # e.res THEN {"resolution"} ELSE {}) \cup
    (IF o.cls # e.cls THEN {"class"} ELSE {}) \cup
    (IF Len(o.items) # Len(e.items) THEN {"number-of-items"}
     ELSE (IF \E j \in 1..Len(e.items) : o.items[j].t # e.items[j].t THEN {"times"} ELSE {}) \cup
          (IF \E j \in 1..Len(e.items) : o.items[j].x # e.items[j].x THEN {"data"} ELSE {}) \cup
          (IF \E j \in 1..Len(e.items) : o.items[j].ix # e.items[j].ix THEN {"indexes"} ELSE {}))
Observed(s, after) ==
    UNION { IF ~MayLoad(after, f) THEN (IF s.loads[f] # <<>> THEN {"loaded-nothing"} ELSE {})
            ELSE IF s.loads[f] = <<>> THEN {"cannot-load"} ELSE Diff(s.loads[f][1], Load(after, f)) : f \in DOMAIN after }
\* a storage already used for a file reads what is in it now
Kept(s) == IF \E f \in DOMAIN fs : ~s.kept[f] THEN {"storage-used-before"} ELSE {}
Clauses(s) == Kept(s) \cup
    CASE s.op = "save" ->
           LET ok == MaySave(fs, s.f, s.c, s.over) after == Save(fs, s.f, s.c, s.over) IN
           (IF ok /\ s.err # "" THEN {"refused"} ELSE IF ~ok /\ s.err = "" THEN {"accepted"} ELSE {}) \cup
           (IF \E f \in DOMAIN fs : (f # s.f \/ ~ok) /\ s.touched[f] THEN {"touched"} ELSE {}) \cup
           (IF s.changed THEN {"series-changed"} ELSE {}) \cup
           (IF ok => s.err = "" THEN Observed(s, after) ELSE {})
      [] s.op = "load" ->
           (IF MayLoad(fs, s.f) /\ s.err # "" THEN {"refused"} ELSE IF ~MayLoad(fs, s.f) /\ s.err = "" THEN {"accepted"} ELSE {}) \cup
           (IF \E f \in DOMAIN fs : s.touched[f] THEN {"touched"} ELSE {}) \cup Observed(s, fs)
After(s) == IF s.op = "save" THEN Save(fs, s.f, s.c, s.over) ELSE fs
Step == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1 /\ fs' = After(s)
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> T.site, exp |-> <<>>]))
                /\ i' = Len(T.steps) + 1 /\ UNCHANGED fs
        /\ k' = k
Next == Step
=============================================================================
