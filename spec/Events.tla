-------------------------------- MODULE Events --------------------------------
(* Anomalous events: which items of a series belong to one.  a is the sequence of *)
(* booleans telling which items are anomalous, p the minimum persistence, g the    *)
(* longest tolerated gap.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* Declaratively: an event starts and ends on anomalous items, contains no gap longer than g, lasts at least p items, and cannot be
\* extended (what is anomalous next to it, on either side, is farther than g items away).
Bridged(a, i, j, g) == \A k \in i..j : ~a[k] => \E m \in i..j : a[m] /\ m < k /\ k - m <= g /\ \E n \in i..j : a[n] /\ n > k /\ n - m - 1 <= g
IsEvent(a, i, j, p, g) ==
    /\ i <= j /\ a[i] /\ a[j] /\ Bridged(a, i, j, g) /\ j - i + 1 >= p
    /\ \A k \in 1..(i - 1) : a[k] => \E n \in k..i : n + g < i /\ \A m \in n..(i - 1) : m > n => ~a[m]
    /\ \A k \in (j + 1)..Len(a) : a[k] => \E n \in j..k : j + g < n /\ \A m \in (j + 1)..(n - 1) : ~a[m]
Marked(a, p, g) == LET ev == {e \in (1..Len(a)) \X (1..Len(a)) : IsEvent(a, e[1], e[2], p, g)}
                   IN [k \in 1..Len(a) |-> \E e \in ev : e[1] <= k /\ k <= e[2]]
\* Operationally: one pass over the anomalous items, joining those not farther than the gap.
Anomalous(a) == SelectSeq([k \in 1..Len(a) |-> k], LAMBDA k : a[k])
RECURSIVE Join(_, _, _)
Join(q, ev, g) == IF q = <<>> THEN ev
                  ELSE LET k == Head(q) IN
                       IF ev # <<>> /\ k - ev[Len(ev)][2] - 1 <= g THEN Join(Tail(q), [ev EXCEPT ![Len(ev)] = <<ev[Len(ev)][1], k>>], g)
                       ELSE Join(Tail(q), Append(ev, <<k, k>>), g)
EventsOf(a, p, g) == SelectSeq(Join(Anomalous(a), <<>>, g), LAMBDA e : e[2] - e[1] + 1 >= p)
Marks(a, p, g) == LET ev == EventsOf(a, p, g) IN [k \in 1..Len(a) |-> \E n \in 1..Len(ev) : ev[n][1] <= k /\ k <= ev[n][2]]
=============================================================================
