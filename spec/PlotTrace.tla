------------------------------- MODULE PlotTrace -------------------------------
(* Recorded plots (read from their page) against the specification.                  *)
EXTENDS Plot, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
Init == /\ k \in 1..Len(Trace) /\ i = 0
SeqToSet(q) == {q[j] : j \in 1..Len(q)}
By(s) == Factor(Len(s.before), s.limit, s.aggregate, s.by)
Expect(s) == Rows(s.before, s.offs, By(s), SeqToSet(s.labels), SeqToSet(s.indexes))
\* numbers are shown as they are (to 1e-9) or rounded to two decimals, the indexes to four
Close(a, b, tol) == IsRat(a) /\ RLe(RAbs(RSub(a, b)), tol)
CellOk(o, e, full, tol) == Len(o) = Len(e) /\ \A j \in 1..Len(o) : IF full THEN o[j] = e[j] ELSE Close(o[j], e[j], tol)
Name(s, l) == IF ~s.listed THEN l ELSE IF Len(s.labels) = 1 THEN "value" ELSE "value " \o l
Names(s) == [j \in 1..Len(s.labels) |-> Name(s, s.labels[j])]
RowOk(s, o, e) == /\ \A l \in SeqToSet(s.labels) : CellOk(o.c[Name(s, l)], e.x[l], s.full, <<51, 10000>>)
                  /\ \A x \in SeqToSet(s.indexes) : CellOk(o.c[x], e.ix[x], s.full, <<51, 1000000>>)
Shows(s) == {s.before[j].x[l] : j \in 1..Len(s.before), l \in SeqToSet(s.labels)}
LineClauses(s) ==
    IF s.err # "" THEN {"refused"}
    ELSE (IF Len(s.lines) # Len(s.labels) + Len(s.indexes) \/ {s.lines[j].y : j \in 1..Len(s.lines)} # Lines(s.before, SeqToSet(s.labels), SeqToSet(s.indexes)) THEN {"lines"} ELSE {}) \cup
         (IF \E j \in 1..Len(s.lines) : s.lines[j].x # [n \in 1..Len(s.before) |-> s.before[n].t] THEN {"times"} ELSE {}) \cup
         (IF s.after # s.before THEN {"input-changed"} ELSE {})
Clauses(s) ==
    IF s.site = "matplotlib" THEN LineClauses(s)
    ELSE IF s.err # "" THEN {"refused"}
    ELSE LET e == Expect(s) o == s.out IN
    (IF SeqToSet(s.columns) # SeqToSet(Names(s)) \cup SeqToSet(s.indexes) \/ Len(s.columns) # Len(s.labels) + Len(s.indexes) THEN {"columns"}
     ELSE IF s.ordered /\ s.columns # Names(s) \o s.indexes THEN {"columns"}
     ELSE IF s.ragged THEN {"cells"}
     ELSE IF Len(o) # Len(e) THEN {"number-of-rows"}
     ELSE (IF \E j \in 1..Len(o) : o[j].t # e[j].t THEN {"times"} ELSE {}) \cup
          (IF \E j \in 1..Len(o) : ~RowOk(s, o[j], e[j]) THEN {"cells"} ELSE {})) \cup
    (IF s.bars # (By(s) # 0) THEN {"bars"} ELSE {}) \cup
    (IF s.range # <<>> /\ \E v \in Shows(s) : ~(RLe(s.range[1], v) /\ RLe(v, s.range[2])) THEN {"out-of-range"} ELSE {}) \cup
    (IF s.mark # [j \in 1..Len(s.marked) |-> Shown(s.offs, s.marked[j])] THEN {"mark"} ELSE {}) \cup
    (IF s.after # s.before THEN {"input-changed"} ELSE {}) \cup
    (IF s.tz # s.tzshown THEN {"time-zone"} ELSE {})
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.site, exp |-> IF s.err = "" /\ s.site # "matplotlib" THEN [by |-> By(s), rows |-> Expect(s)] ELSE [by |-> 0, rows |-> <<>>]]))
                /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
