---------------------------- MODULE CalendarTrace -----------------------------
EXTENDS Calendar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
Init == /\ k \in 1..Len(Trace) /\ i = 0
Z(n) == Trace[k].zones[n]
Elem(r) == CHOOSE x \in r : TRUE
Opt(r) == IF r = {} THEN <<>> ELSE <<Elem(r)>>
Expected(s) == LET z == Z(s.z).tab IN
    CASE s.op = "shift"   -> Opt(Shift(z, s.u, s.t))
      [] s.op = "unshift" -> IF Physical(s.u) THEN <<s.t - s.u[5]>> ELSE <<>>
      [] s.op = "slot"    -> LET r == Shift(z, s.u, s.t) IN IF r = {} THEN <<>> ELSE <<s.t, Elem(r)>>
      [] s.op = "length"  -> LET r == Shift(z, s.u, s.t) IN IF r = {} THEN <<>> ELSE <<Elem(r) - s.t>>
      [] s.op = "pair"    -> <<s.t, s.t + s.u[5], s.u[5]>>
      [] s.op = "floor"   -> Opt(Floor(z, s.u, s.t, s.mh))
      [] s.op = "ceil"    -> Opt(Ceil(z, s.u, s.t, s.mh))
      [] s.op = "round"   -> Opt(Round(z, s.u, s.t, s.mh))
      [] s.op = "at"      -> Civil(z, s.t)
      [] s.op = "retz"    -> s.ts
      [] s.op = "eq"      -> IF UnitEq(s.u, s.v) THEN <<1>> ELSE <<0>>
      [] s.op = "sum"     -> UnitSum(s.u, s.v)
      [] s.op = "unit"    -> s.u
\* results of these carry the zone
Zoned(op) == op \in {"shift", "slot", "floor", "ceil", "round", "at", "retz", "unshift", "pair"}
\* (from the 29th of February, the time library adds the years first and refuses)
LeapMonths(s) == s.u[2] >= 11 /\ LET c == Civil(Z(s.z).tab, s.t) IN c[2] = 2 /\ c[3] = 29
MayRefuse(s) == LeapMonths(s) \/ (s.op = "unshift" /\ ~Physical(s.u)) \/ s.comp        \* composite units are refused by most operations
\* around a midnight that is skipped or repeated the time library may refuse, or choose either instant
Unclear(s) == s.op \in {"floor", "ceil", "round"} /\ ~Physical(s.u) /\ Roundable(s.u) /\
              LET z == Z(s.z).tab IN Floor(z, <<0, 0, 0, 1, 0>>, s.t, FALSE) = {} \/ Floor(z, s.u, s.t, FALSE) = {} \/ Ceil(z, s.u, s.t, FALSE) = {}
Clauses(s) == LET e == Expected(s) IN
    IF Unclear(s) THEN {} ELSE IF e = <<>> THEN (IF s.out.err = "" /\ ~MayRefuse(s) THEN {"undefined-result-accepted"} ELSE {})
    ELSE IF s.out.err # "" THEN (IF MayRefuse(s) THEN {} ELSE {"defined-result-refused"})
    ELSE (IF s.out.r # e THEN {IF s.op \in {"retz", "at"} THEN "instant-or-local-time" ELSE s.op} ELSE {}) \cup
         (IF Zoned(s.op) /\ \E j \in 1..Len(s.out.z) : s.out.z[j] # (IF s.op = "retz" THEN Z(s.z2).name ELSE Z(s.z).name) THEN {"time-zone"} ELSE {}) \cup
         (IF s.op = "retz" /\ s.out.civil # [j \in 1..Len(s.ts) |-> Civil(Z(s.z2).tab, s.ts[j])] THEN {"local-time"} ELSE {})
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, exp |-> Expected(s), site |-> s.op]))
                /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
