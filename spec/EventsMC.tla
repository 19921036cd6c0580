------------------------------- MODULE EventsMC -------------------------------
(* Items arrive one at a time; for every sequence, persistence and gap the two    *)
(* definitions of the events agree and the laws of the events hold.  Exported.     *)
EXTENDS Events, Json, IOUtils
MaxLen == atoi(IOEnv.N)
VARIABLES a, p, g
Init == a = <<>> /\ p \in 0..4 /\ g \in 0..3
Next == /\ Len(a) < MaxLen /\ \E b \in BOOLEAN : a' = Append(a, b) /\ UNCHANGED <<p, g>>
M == Marks(a, p, g)
Agree == M = Marked(a, p, g)
\* every event that was closed for good (more than g quiet items after it) stays as it is whatever comes next
Quiet(n) == n + g < Len(a) /\ \A k \in (n + 1)..(n + g + 1) : ~a[k]
Stable == [][\A k \in 1..Len(a) : (\E n \in k..Len(a) : Quiet(n)) => Marks(a', p, g)[k] = Marks(a, p, g)[k]]_<<a, p, g>>
\* order does not matter: read backwards, the same items are marked
Mirror == LET r == [k \in 1..Len(a) |-> a[Len(a) + 1 - k]] IN \A k \in 1..Len(a) : Marks(r, p, g)[k] = M[Len(a) + 1 - k]
\* a larger gap or a smaller persistence marks no less
Monotone == \A k \in 1..Len(a) : M[k] => Marks(a, p, g + 1)[k] /\ (p > 0 => Marks(a, p - 1, g)[k])
\* with no persistence required, every anomalous item is marked; nothing is marked in a series with no anomalies
Covers == (p <= 1 => \A k \in 1..Len(a) : a[k] => M[k]) /\ ((\A k \in 1..Len(a) : ~a[k]) => \A k \in 1..Len(a) : ~M[k])
Laws == Agree /\ Mirror /\ Monotone /\ Covers
Export == a # <<>> => PrintT("@@BEH" \o ToJson([a |-> a, p |-> p, g |-> g]))
=============================================================================
