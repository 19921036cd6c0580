------------------------------- MODULE HeapMC --------------------------------
(* All short programs on a few small series: what they do to one another.      *)
EXTENDS Heap, Json, IOUtils
CONSTANTS MaxLen
VARIABLES h, hist, ver, own      \* own: the version every object should have, were it the only one
vars == <<h, hist, ver, own>>
Init == h = New(Empty, <<0, 0, 0>>) /\ hist = <<>> /\ ver = 0 /\ own = <<<<0, 0, 0>>>>
O == 1..Len(h.objs)
Do(op, o, g, w) == h' = g /\ hist' = Append(hist, [op |-> op, o |-> o]) /\ ver' = ver + 1 /\ own' = w
Touched(g, w, o, S) == [p \in 1..Len(w) |-> [j \in 1..Len(w[p]) |-> IF g.objs[p][j] \in S THEN g.val[g.objs[p][j]] ELSE w[p][j]]]
Next == /\ Len(hist) < MaxLen
        /\ \E o \in O :
             \/ /\ Len(h.objs) < 3 /\ Do("pure", o, New(h, Content(h, o)), Append(own, Content(h, o)))
             \/ /\ Len(h.objs) < 3 /\ Len(h.objs[o]) > 1 /\ LET g == Share(h, o, [j \in 1..(Len(h.objs[o]) - 1) |-> j + 1]) IN Do("slice", o, g, Append(own, Content(g, Len(g.objs))))
             \/ LET c == [j \in 1..Len(h.objs[o]) |-> ver + 1] g == Become(h, o, c) IN Do("inplace", o, g, Touched(g, own, o, Cells(h.objs[o])))
             \/ LET c == [j \in 1..Len(h.objs[o]) |-> IF j = 1 THEN ver + 1 ELSE h.val[h.objs[o][j]]]
                    S == {h.objs[o][1]} g == Touch(h, o, S, c) IN Do("mutate", o, g, Touched(g, own, o, S))
             \/ LET c == Append(Content(h, o), ver + 1) g == Become(h, o, c) IN
                Do("append", o, g, [own EXCEPT ![o] = Append(@, ver + 1)])
Spec == Init /\ [][Next]_vars
\* ---- laws ------------------------------------------------------------------------
\* what is not shared is not affected
Frame == [][\A p \in O : LET S == {c \in DOMAIN h.val : h.val[c] # h'.val[c]} IN
            (~Aliases(h, S, p) /\ Len(h'.objs[p]) = Len(h.objs[p])) => [j \in 1..Len(h.objs[p]) |-> h'.val[h'.objs[p][j]]] = Content(h, p)]_vars
\* results of pure operations never share anything
Sharing(i) == hist[i].op = "slice"
NoSlicesNoAliases == (\A i \in 1..Len(hist) : ~Sharing(i)) => \A p, q \in O : p # q => Cells(h.objs[p]) \cap Cells(h.objs[q]) = {}
Tracked == \A p \in O : Content(h, p) = own[p]
Export == IF Len(hist) = MaxLen THEN PrintT("@@BEH" \o ToJson(hist)) ELSE TRUE
=============================================================================
