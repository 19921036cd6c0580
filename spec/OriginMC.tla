------------------------------- MODULE OriginMC -------------------------------
(* A series of points on the instants 1..K and the ways to get to it: additions at    *)
(* either end or in between, removals, parts and copies, with questions in between.      *)
(* Every way of at most N steps; exported for replay.                                      *)
EXTENDS Origin, TLC, Json, IOUtils
K == atoi(IOEnv.K)
N == atoi(IOEnv.N)
VARIABLES w, hist
vars == <<w, hist>>
O == 1                                       \* the one changed
Items == w.objs[O].items
Init == w = New(Empty, Series(<<>>, "UTC")) /\ hist = <<>>
Ordered(s) == \A a, b \in 1..Len(s) : a < b => s[a] < s[b]
Does(c) == /\ Len(hist) < N
           /\ hist' = Append(hist, c)
           /\ w' = Set(w, O, Series(IF c.op \in {"part", "copy"} THEN Made(Items, c) ELSE Change(Items, c), "UTC"))
Change1 == \E x \in 1..K : \E i \in 1..(Len(Items) + 1) :
              /\ \A j \in 1..Len(Items) : Items[j] # x
              /\ Ordered(With(Items, i, x))
              /\ IF i = Len(Items) + 1 THEN Does([op |-> "append", x |-> x, i |-> 0, a |-> 0, b |-> 0]) ELSE Does([op |-> "insert", x |-> x, i |-> i, a |-> 0, b |-> 0])
Change2 == \E i \in 1..Len(Items) : Does([op |-> "pop", x |-> 0, i |-> i, a |-> 0, b |-> 0])
Parts == Len(Items) > 2 /\ \E a \in {0, 1}, b \in {Len(Items) - 1, Len(Items)} : b > a /\ Does([op |-> "part", x |-> 0, i |-> 0, a |-> a, b |-> b])
Copies == Len(Items) > 0 /\ hist # <<>> /\ hist[Len(hist)].op # "copy" /\ Does([op |-> "copy", x |-> 0, i |-> 0, a |-> 0, b |-> 0])
\* the answer is a function of the items: that is all there is to be asked
Asked == /\ Len(Items) > 0 /\ Len(hist) < N /\ hist # <<>> /\ hist[Len(hist)].op # "ask"
         /\ hist' = Append(hist, [op |-> "ask", x |-> 0, i |-> 0, a |-> 0, b |-> 0])
         /\ \E q \in {"all"}, a \in {Items[Len(Items)] - Items[1]} : Consistent(w, w.objs[O], q, a) /\ w' = Heard(w, w.objs[O], q, a)
Next == Change1 \/ Change2 \/ Parts \/ Copies \/ Asked
\* laws of the specification
InOrder == Ordered(Items)
\* two ways to the same items: what was answered on the one is what is answered on the other
Function == \A x, y \in DOMAIN w.says : (x.of = y.of /\ x.q = y.q) => w.says[x] = w.says[y]
Answers == \A x \in DOMAIN w.says : w.says[x] = x.of.items[Len(x.of.items)] - x.of.items[1]
UnDo == \A i \in 1..Len(Items) : With(Without(Items, i), i, Items[i]) = Items
Laws == InOrder /\ Function /\ Answers /\ UnDo
Roundabout == \E j \in 1..Len(hist) : hist[j].op \notin {"append", "ask"}
Export == (Roundabout /\ Len(hist) = N /\ Len(Items) > 1) => PrintT("@@BEH" \o ToJson([h |-> hist, items |-> Items]))
=============================================================================
