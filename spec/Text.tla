---------------------------------- MODULE Text ----------------------------------
(* What is printed about a series.  A state is the series: its items, in order, each *)
(* [t, e, o, p, x, loss] (start and end in ticks, equal for points; offsets of the    *)
(* local clock at both, in seconds; data and data loss as printed).                   *)
EXTENDS Detect
Min2(a, b) == IF a < b THEN a ELSE b
Ids(a, b) == IF b < a THEN <<>> ELSE [j \in 1..(b - a + 1) |-> a + j - 1]
\* the positions listed by a summary of n items limited to some of them (<<>>: no limit); 0 stands for the omitted ones
Shown(n, limit) ==
    IF limit = <<>> \/ n <= limit[1] THEN Ids(1, n)
    ELSE LET tail == limit[1] \div 2 head == limit[1] - tail IN Ids(1, head) \o <<0>> \o Ids(n - tail + 1, n)
\* the resolution: undefined, variable or how long (for slots, their unit)
Spacing(s, j) == s[j + 1].t - s[j].t
Resolution(kind, unit, s) ==
    IF kind = "slots" THEN unit
    ELSE IF Len(s) < 2 THEN [k |-> "undefined", v |-> 0, c |-> ""]
    ELSE IF \A j \in 1..(Len(s) - 1) : Spacing(s, j) = Spacing(s, 1) THEN [k |-> "seconds", v |-> Spacing(s, 1), c |-> ""]
    \* with the sampling interval which can be told, if any
    ELSE LET t == [j \in 1..Len(s) |-> s[j].t] IN [k |-> "variable", v |-> IF Detectable(t) THEN MostFrequent(Considered(t)) ELSE 0, c |-> ""]
NoRes == [k |-> "", v |-> 0, c |-> ""]
Instant(it) == [t |-> it.t, d |-> it.t, o |-> it.o]
Nowhere == [t |-> 0, d |-> 0, o |-> 0]
\* the text of a series
Heading(kind, unit, s) ==
    IF kind = "elements" THEN [kind |-> kind, n |-> Len(s), res |-> NoRes, first |-> Nowhere, last |-> Nowhere]
    ELSE IF s = <<>> THEN [kind |-> "empty", n |-> 0, res |-> NoRes, first |-> Nowhere, last |-> Nowhere]
    ELSE [kind |-> kind, n |-> Len(s), res |-> Resolution(kind, unit, s), first |-> Instant(s[1]), last |-> Instant(s[Len(s)])]
\* the text of an item: its instants (as epoch times and on the local clock), its data and its data loss, if defined
Row(kind, it) == [gap |-> FALSE, t |-> it.t, d |-> it.t, o |-> it.o, e |-> it.e, ed |-> it.e, p |-> it.p, x |-> it.x, loss |-> it.loss]
Gap == [gap |-> TRUE, t |-> 0, d |-> 0, o |-> 0, e |-> 0, ed |-> 0, p |-> 0, x |-> <<>>, loss |-> <<>>]
Rows(kind, s, limit) == LET q == Shown(Len(s), limit) IN [j \in 1..Len(q) |-> IF q[j] = 0 THEN Gap ELSE Row(kind, s[q[j]])]
\* ---- the steps: items come and go, between one print and the next -----------------------------------------
Added(s, it) == Append(s, it)
Changed(s, j, it) == [m \in 1..Len(s) |-> IF m = j THEN it ELSE s[m]]
Moved(s, os) == [m \in 1..Len(s) |-> [s[m] EXCEPT !.o = os[m][1], !.p = os[m][2]]]     \* to another time zone
Removed(s, j) == [m \in 1..(Len(s) - 1) |-> IF m < j THEN s[m] ELSE s[m + 1]]
=============================================================================
