----------------------------- MODULE OriginTrace ------------------------------
(* Recorded programs on series.  A step is [op, o, c, items, zone, err, q, a, site]:     *)
(*   "new"     a series (number Len(objs) + 1) of the items items, on zone (that told     *)
(*             when it is made: it is kept, whatever changes)                              *)
(*   "change"  series o changed as c says; items is what is there afterwards                *)
(*   "made"    a series made of the items of series o, as c says                             *)
(*   "tried"   something refused on series o                                                  *)
(*   "ask"     the question q on series o, answered a                                          *)
(* Items, zones, questions and answers are numbers.                                             *)
EXTENDS Origin, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i, w
Init == k \in 1..Len(Trace) /\ i = 0 /\ w = Empty
T == Trace[k]
Clauses(s) ==
    CASE s.op = "new" -> {}
      [] s.op = "change" -> IF s.err # "" THEN {"refused"} ELSE IF s.items # Change(w.objs[s.o].items, s.c) THEN {"items"} ELSE {}
      [] s.op = "made" -> IF s.err # "" THEN {"refused"} ELSE IF s.items # Made(w.objs[s.o].items, s.c) THEN {"items"} ELSE {}
      [] s.op = "tried" -> IF s.items # w.objs[s.o].items THEN {"items"} ELSE {}
      [] s.op = "ask" -> (IF s.items # w.objs[s.o].items THEN {"items"} ELSE {}) \cup
                         (IF ~Consistent(w, w.objs[s.o], s.q, s.a) THEN {"answer"} ELSE {})
Expect(s) == IF s.op = "ask" /\ Said(w, w.objs[s.o], s.q) THEN w.says[About(w.objs[s.o], s.q)] ELSE 0
Next == /\ i < Len(T.steps)
        /\ k' = k
        /\ LET s == T.steps[i + 1] bad == Clauses(s) IN
           IF bad = {} THEN
               /\ i' = i + 1
               /\ w' = CASE s.op \in {"new", "made"} -> New(w, Series(s.items, s.zone))
                         [] s.op \in {"change", "tried"} -> Set(w, s.o, Series(s.items, w.objs[s.o].zone))
                         [] s.op = "ask" -> Heard(w, w.objs[s.o], s.q, s.a)
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.site, exp |-> Expect(s)]))
                /\ i' = Len(T.steps) + 1 /\ w' = w
=============================================================================
