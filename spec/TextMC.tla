-------------------------------- MODULE TextMC ---------------------------------
(* Items come (one or two ticks after the last one) and go at either end: what a      *)
(* summary lists, for every limit.  Exported for replay.                               *)
EXTENDS Text, TLC, Json, IOUtils, FiniteSets
N == atoi(IOEnv.N)
VARIABLES s, limit
Item(t) == [t |-> t, e |-> t, o |-> 0, p |-> 0, x |-> <<>>, loss |-> <<>>]
Init == s = <<>> /\ limit \in {<<>>} \cup {<<l>> : l \in 1..(N + 2)}
Next == /\ UNCHANGED limit
        /\ \/ Len(s) < N /\ \E d \in {1, 2} : s' = Added(s, Item(IF s = <<>> THEN 0 ELSE s[Len(s)].t + d))
           \/ s # <<>> /\ s[1].t = 0 /\ Len(s) > 1 /\ s' = Removed(s, 1)
Listed(l) == LET q == Shown(Len(s), l) IN {q[j] : j \in 1..Len(q)} \ {0}
Q == Shown(Len(s), limit)
\* as many as asked, each once and in order
Count == Cardinality(Listed(limit)) = (IF limit = <<>> THEN Len(s) ELSE Min2(limit[1], Len(s)))
Once == \A a, b \in 1..Len(Q) : (a < b /\ Q[a] # 0 /\ Q[b] # 0) => Q[a] < Q[b]
\* the ellipsis is where some are omitted, and nowhere else
Omitted == \A j \in 1..(Len(Q) - 1) : (Q[j] # 0 /\ Q[j + 1] # 0) => Q[j + 1] = Q[j] + 1
GapIff == (\E j \in 1..Len(Q) : Q[j] = 0) <=> Cardinality(Listed(limit)) < Len(s)
Ends == (s # <<>> => 1 \in Listed(limit)) /\ ((s # <<>> /\ limit # <<1>>) => Len(s) \in Listed(limit))
\* a larger limit lists all of what a smaller one does
Larger == limit # <<>> => Listed(limit) \subseteq Listed(<<limit[1] + 1>>)
\* the resolution is that of the items there now
Regular == LET r == Resolution("points", NoRes, s) IN
    /\ r.k = "undefined" <=> Len(s) < 2
    /\ r.k = "seconds" => s[Len(s)].t - s[1].t = r.v * (Len(s) - 1)
    /\ (r.k = "variable" /\ Len(s) > 0) => \E j, m \in 1..(Len(s) - 1) : Spacing(s, j) # Spacing(s, m)
Laws == Count /\ Once /\ Omitted /\ GapIff /\ Ends /\ Larger /\ Regular
Export == PrintT("@@BEH" \o ToJson([t |-> [j \in 1..Len(s) |-> s[j].t], limit |-> limit]))
=============================================================================
