----------------------------- MODULE ConvertTrace -----------------------------
(* Recorded chains of real conversions against the specification.                    *)
EXTENDS Convert, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, cur
T == Trace[k]
Fun(r) == [x \in (DOMAIN r) \ {"~"} |-> r[x]]
Set(q) == {q[j] : j \in 1..Len(q)}
Series(s) == [s EXCEPT !.items = [j \in 1..Len(s.items) |-> [s.items[j] EXCEPT !.x = Fun(s.items[j].x)]]]
Carrier(c) == [c EXCEPT !.columns = Set(c.columns), !.entries = [j \in 1..Len(c.entries) |-> [c.entries[j] EXCEPT !.x = Fun(c.entries[j].x)]]]
Init == k \in 1..Len(Trace) /\ i = 0 /\ cur = [v |-> Series(Trace[k].start)]
Diff(o, e, part) == (IF Len(o) # Len(e) THEN {"number-of-" \o part}
                     ELSE (IF \E j \in 1..Len(e) : o[j].t # e[j].t THEN {"times"} ELSE {}) \cup
                          (IF \E j \in 1..Len(e) : o[j].x # e[j].x THEN {"data"} ELSE {}) \cup
                          (IF \E j \in 1..Len(e) : o[j].l # e[j].l THEN {"data-loss"} ELSE {}))
Expected(s) == CASE s.op \in {"dict", "json", "df"} -> To(s.op, cur.v) @@ [freq |-> s.freq]
                 [] s.op = "carrier" -> Carrier(s.carrier)
                 [] s.op = "from" -> From(cur.v, s.asked, s.unit, s.after)
May(s) == s.op = "from" => MayCome(cur.v, s.asked, s.unit, s.after)
Clauses(s) ==
    IF ~May(s) THEN (IF s.err = "" THEN {"accepted"} ELSE {})
    ELSE IF s.err # "" THEN {"refused"}
    ELSE LET e == Expected(s) IN
         CASE s.op = "carrier" -> {}
           [] s.op = "from" -> LET o == Series(s.series) IN
                (IF o.kind # e.kind THEN {"kind"} ELSE {}) \cup (IF o.kind = "slots" /\ e.kind = "slots" /\ o.unit # e.unit THEN {"unit"} ELSE {}) \cup (IF o.zone # e.zone THEN {"zone"} ELSE {}) \cup
                (IF o.cls # e.cls THEN {"data-type"} ELSE {}) \cup Diff(o.items, e.items, "items") \cup
                (IF Len(o.items) = Len(e.items) /\ \E j \in 1..Len(e.items) : o.items[j].e # e.items[j].e THEN {"ends"} ELSE {}) \cup
                (IF s.changed THEN {"input-changed"} ELSE {})
           [] OTHER -> LET o == Carrier(s.carrier) IN
                (IF o.zone # e.zone THEN {"zone"} ELSE {}) \cup (IF o.columns # e.columns THEN {"columns"} ELSE {}) \cup Diff(o.entries, e.entries, "entries") \cup
                (IF Len(o.entries) = Len(e.entries) /\ \E j \in 1..Len(e.entries) : o.entries[j].cls # e.entries[j].cls THEN {"data-type"} ELSE {}) \cup
                (IF s.changed THEN {"input-changed"} ELSE {})
Step == /\ i < Len(T.steps)
        /\ LET s == T.steps[i + 1] bad == Clauses(s) IN
           IF bad = {} /\ May(s) THEN i' = i + 1 /\ cur' = [v |-> Expected(s)]
           ELSE IF bad = {} THEN i' = Len(T.steps) + 1 /\ UNCHANGED cur
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> T.site, exp |-> <<>>]))
                /\ i' = Len(T.steps) + 1 /\ UNCHANGED cur
        /\ k' = k
Next == Step
=============================================================================
