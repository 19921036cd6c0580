---------------------------- MODULE AccessTrace ------------------------------
EXTENDS Access, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Facet == IOEnv.FACET                       \* access: the series itself;  view: views and iterators
VARIABLES k, i, st
Init == /\ k \in 1..Len(Trace) /\ i = 0
        /\ st = [items |-> Trace[k].items, views |-> <<>>, its |-> <<>>]
OnView(o) == o.op \in {"iter", "next"} \/ (o.op \notin {"append"} /\ o.w > 0) \/ o.op = "view"
\* slicing or filtering what is empty may be refused
MayRefuse(pre, o) == o.op \in {"slice", "slicet", "filter", "head", "tail"} /\ Covered(pre, o.w) = <<>>
Clauses(pre, r, o, out) ==
    (IF r.ok /\ ~MayRefuse(pre, o) /\ out.err # "" THEN {"valid-access-refused"} ELSE {}) \cup
    (IF ~r.ok /\ ~MayRefuse(pre, o) /\ out.err = "" THEN {"invalid-access-accepted"} ELSE {}) \cup
    (IF out.err = "NonTermination" THEN {"terminates"} ELSE {}) \cup
    (IF r.ok /\ out.err = "" /\ out.ret # r.ret THEN {"selected-items"} ELSE {}) \cup
    (IF out.base # r.st.items THEN {"series-altered"} ELSE {}) \cup
    (IF o.op = "look" /\ out.n # Len(Covered(pre, o.w)) THEN {"length"} ELSE {}) \cup
    (IF o.op = "look" /\ Covered(pre, o.w) # <<>> /\ out.labels # pre.items[1].sh /\ pre.items[1].ty = "dict" THEN {"labels"} ELSE {}) \cup
    (IF o.op = "look" /\ out.res # out.bres THEN {"resolution"} ELSE {}) \cup
    (IF o.op = "dup" /\ ~out.indep THEN {"independence"} ELSE {})
ApplyOrLook(s, o) == IF o.op = "look" THEN Res(TRUE, s, <<>>) ELSE Apply(s, o)
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1]
               r == ApplyOrLook(st, s.o)
               all == Clauses(st, r, s.o, s.out)
               mine == IF Facet = "view" THEN OnView(s.o) ELSE ~OnView(s.o)
               onempty == s.o.op = "at" /\ s.o.w > 0 /\ s.o.i < 0 /\ Covered(st, s.o.w) = <<>>
           IN /\ st' = r.st
              /\ IF all = {} \/ (onempty /\ ~mine) THEN i' = i + 1
                 ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> IF mine THEN all ELSE {}, exp |-> r.ret,
                                                     site |-> IF onempty THEN "negative position on an empty view" ELSE ""]))
                      /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
