------------------------------- MODULE CsvTrace -------------------------------
(* Recorded reads of real CSV files against the specification: each trace is a      *)
(* file, read one or more times, by the same storage.  Times are the positions of    *)
(* the real ones among all those that matter.                                         *)
EXTENDS Csv, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
T == Trace[k]
Init == k \in 1..Len(Trace) /\ i = 0
Fun(r) == [x \in (DOMAIN r) \ {"~"} |-> r[x]]
Opt(o) == [o EXCEPT !.tcols = {o.tcols[j] : j \in 1..Len(o.tcols)}, !.hidden = Fun(o.hidden)]
Clauses(f, o, s) ==
    LET ok == Accepted(f, o) e == Result(f, o) IN
    IF ~ok THEN (IF s.err = "" THEN {"accepted"} ELSE {})
    ELSE IF s.err # "" THEN {"refused"}
    ELSE (IF s.kind # (IF o.slots THEN "slots" ELSE "points") THEN {"kind"} ELSE {}) \cup
         (IF s.listed # (IF Listed(f, o) THEN "list" ELSE "dict") THEN {"data-type"} ELSE {}) \cup
         (IF s.zone # o.zone THEN {"zone"} ELSE {}) \cup
         (IF o.slots /\ s.unit # o.unit THEN {"unit"} ELSE {}) \cup
         (IF Len(s.items) # Len(e) THEN {"number-of-items"}
          ELSE (IF \E j \in 1..Len(e) : s.items[j].t # e[j].t THEN {"times"} ELSE {}) \cup
               (IF \E j \in 1..Len(e) : Fun(s.items[j].x) # e[j].x THEN {"data"} ELSE {}) \cup
               (IF \E j \in 1..Len(e) : Fun(s.items[j].ix) # e[j].ix THEN {"indexes"} ELSE {})) \cup
         (IF s.filechanged THEN {"file-changed"} ELSE {})
Step == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1] o == Opt(s.o) bad == Clauses(T.f, o, s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> T.site, exp |-> IF Accepted(T.f, o) THEN Result(T.f, o) ELSE <<>>]))
                /\ i' = Len(T.steps) + 1
        /\ k' = k
Next == Step
=============================================================================
