------------------------------ MODULE HeapTrace ------------------------------
(* Recorded programs against the specification.  A step is                      *)
(*   [op, kind, o, r, idx, pos, err, want, got, obs]                               *)
(* kind "pure" | "share" | "inplace" | "mutate" | "append" | "result"; o the object  *)
(* worked on (0 if none), r whether a new object follows, idx the items shared,       *)
(* pos the item mutated; want and got what an in-place operation should have given     *)
(* and gave; obs what every object is afterwards: [attr, cells].  "result" is the       *)
(* mutation of a result which is not a series.                                           *)
EXTENDS Heap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FACET == IOEnv.FACET
VARIABLES k, i, h, attr
vars == <<k, i, h, attr>>
Init == /\ k \in 1..Len(Trace) /\ i = 0
        /\ h = Empty /\ attr = <<>>
Last(s) == s.obs[Len(s.obs)]
\* the cells a step may change
May(s) == IF s.err # "" THEN {} ELSE CASE s.kind = "inplace" -> Cells(h.objs[s.o]) [] s.kind = "mutate" -> {h.objs[s.o][s.pos]} [] OTHER -> {}
\* an object sharing what is changed shows it or not (the sharing itself is free), but nothing else
Same(s, p) == LET q == h.objs[p] c == s.obs[p].cells S == May(s) IN
    IF s.err = "" /\ s.o = p /\ s.kind \in {"inplace", "append", "mutate"} THEN
         (s.kind = "mutate" => Len(c) = Len(q) /\ \A j \in 1..Len(q) : q[j] \notin S => c[j] = h.val[q[j]])
    ELSE /\ Len(c) = Len(q)
         /\ \A j \in 1..Len(q) : c[j] = h.val[q[j]] \/ q[j] \in S
         /\ ((s.err # "" \/ s.kind \notin {"inplace", "append", "mutate"}) \/ (Cells(h.objs[s.o]) \cap Cells(q) = {}) => s.obs[p].attr = attr[p])
Changed(s) == {p \in 1..Len(h.objs) : ~Same(s, p)}
Clauses(s) ==
    IF s.err # "" /\ s.kind = "inplace" /\ s.o \in Changed(s) THEN (IF FACET = "refusal" THEN {"changed-by-refusal"} ELSE {})
    ELSE IF FACET = "refusal" THEN {}
    ELSE (IF Changed(s) # {} THEN (IF s.kind = "result" THEN {"leaked-back"} ELSE IF s.kind \in {"inplace", "mutate", "append"} THEN {"changed-another"} ELSE {"changed-its-input"}) ELSE {})
      \cup (IF s.kind = "inplace" /\ s.err = "" /\ s.want # s.got THEN {"differs-from-the-other-form"} ELSE {})
      \cup (IF s.kind = "inplace" /\ s.refused # (s.err # "") THEN {"refused-in-one-form-only"} ELSE {})
\* the heap afterwards: contents as observed
Observed(g, s) == [g EXCEPT !.val = [c \in DOMAIN g.val |->
      LET who == {p \in 1..Len(g.objs) : c \in Cells(g.objs[p])} IN
      IF who = {} THEN g.val[c] ELSE LET p == CHOOSE p \in who : TRUE IN s.obs[p].cells[CHOOSE j \in 1..Len(g.objs[p]) : g.objs[p][j] = c]]]
After(s) == LET g == IF s.r = 0 THEN h ELSE IF s.kind = "share" THEN Share(h, s.o, s.idx) ELSE New(h, Last(s).cells) IN
            IF s.err = "" /\ s.kind \in {"inplace", "append", "mutate"} THEN Observed(Become(h, s.o, s.obs[s.o].cells), s)
            ELSE g
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Clauses(s) IN
           IF bad = {} /\ ~(s.err # "" /\ s.kind = "inplace" /\ s.o \in Changed(s)) THEN i' = i + 1 /\ h' = After(s) /\ attr' = [p \in 1..Len(s.obs) |-> s.obs[p].attr]
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.op, exp |-> Changed(s)]))
                /\ i' = Len(Trace[k].steps) + 1 /\ h' = h /\ attr' = attr
        /\ k' = k
Next == Step
=============================================================================
