------------------------------- MODULE TextTrace -------------------------------
(* Recorded texts of series whose items come and go.                                  *)
EXTENDS Text, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, s
Init == k \in 1..Len(Trace) /\ i = 0 /\ s = <<>>
T == Trace[k]
Part(a, b) == [j \in 1..(b - a) |-> s[a + j]]
\* whose text it is: the series, or a part of it (positions from and to)
Whose(st) == IF st.part = <<>> THEN s ELSE Part(st.part[1], st.part[2])
Clauses(st) ==
    CASE st.op \in {"append", "pop", "set", "tz"} -> IF st.err # "" THEN {"refused"} ELSE {}
      [] st.op = "print" ->
            IF st.err # "" THEN {"refused"} ELSE
            (IF st.view # st.part THEN {"view"} ELSE {}) \cup
            (IF st.head # Heading(T.kind, T.unit, s) THEN {"head"} ELSE {}) \cup
            (IF st.listed /\ st.rows # Rows(T.kind, Whose(st), st.limit) THEN {"rows"} ELSE {}) \cup
            (IF \E a, b \in 1..Len(st.forms) : st.forms[a] # st.forms[b] THEN {"forms"} ELSE {}) \cup
            (IF st.after # [j \in 1..Len(s) |-> Row(T.kind, s[j])] THEN {"changed"} ELSE {})
      [] st.op = "item" -> IF st.err # "" THEN {"refused"} ELSE IF st.rows # <<Row(T.kind, s[st.i])>> THEN {"item"} ELSE {}
Expect(st) == IF st.op = "print" THEN [head |-> Heading(T.kind, T.unit, s), rows |-> Rows(T.kind, Whose(st), st.limit)] ELSE [head |-> <<>>, rows |-> IF st.op = "item" THEN <<Row(T.kind, s[st.i])>> ELSE <<>>]
Next == /\ i < Len(T.steps)
        /\ k' = k
        /\ LET st == T.steps[i + 1] bad == Clauses(st) IN
           /\ s' = CASE st.op = "append" -> Added(s, st.it) [] st.op = "pop" -> Removed(s, st.i) [] st.op = "set" -> Changed(s, st.i, st.it)
                     [] st.op = "tz" -> Moved(s, st.os) [] OTHER -> s
           /\ IF bad = {} THEN i' = i + 1
              ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> st.site, exp |-> Expect(st)]))
                   /\ i' = Len(T.steps) + 1
=============================================================================
