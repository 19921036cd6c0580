------------------------------- MODULE Access --------------------------------
(* Reading a series: by position, by time, by label, by slices, through views   *)
(* (a view is a pair of positions over a series or another view, nothing more)  *)
(* and through any number of simultaneous iterators.                            *)
(*   st = [items, views: <<[p, a, b]>>, its: <<[w, pos, done]>>]                *)
(* p = 0 is the series, p = k the k-th view; w likewise.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slotted(items) == items # <<>> /\ items[1].k \in {"TimeSlot", "DataTimeSlot", "DataSlot", "Slot"}
\* positions, bounds: an optional integer is <<>> or <<i>>
Clip(i, n) == LET p == IF i < 0 THEN n + i ELSE i IN IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
Lo(o, n) == IF o = <<>> THEN 0 ELSE Clip(o[1], n)
Hi(o, n) == IF o = <<>> THEN n ELSE Clip(o[1], n)
SliceI(items, a, b) == LET n == Len(items) IN SubSeq(items, Lo(a, n) + 1, Hi(b, n))
InTime(items, a, b, x) == /\ a # <<>> => x.t >= a[1]
                          /\ b # <<>> => IF Slotted(items) THEN x.e <= b[1] ELSE x.t < b[1]
SliceT(items, a, b) == IF a # <<>> /\ b # <<>> /\ a[1] >= b[1] THEN <<>>
                       ELSE SelectSeq(items, LAMBDA x : InTime(items, a, b, x))
AtI(items, i) == LET n == Len(items) p == IF i < 0 THEN n + i ELSE i
                 IN IF p < 0 \/ p >= n THEN <<>> ELSE <<items[p + 1]>>
AtT(items, t) == LET s == SelectSeq(items, LAMBDA x : x.t = t) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>
Has(items, ls) == items # <<>> /\ \A j \in 1..Len(ls) : \E m \in 1..Len(items[1].sh) : items[1].sh[m] = ls[j]
Pick(x, ls) == LET keep == {m \in 1..Len(x.sh) : \E j \in 1..Len(ls) : ls[j] = x.sh[m]} IN
               [x EXCEPT !.sh = SelectSeq(x.sh, LAMBDA l : \E j \in 1..Len(ls) : ls[j] = l),
                         !.dv = LET idx(m) == Cardinality({q \in keep : q <= m})
                                IN [r \in 1..Cardinality(keep) |-> x.dv[CHOOSE m \in keep : idx(m) = r]]]
Filter(items, ls) == [i \in 1..Len(items) |-> Pick(items[i], ls)]

\* ---- views -------------------------------------------------------------------------------
RECURSIVE Covered(_, _)
Covered(st, w) == IF w = 0 THEN st.items
                  ELSE LET v == st.views[w] IN SubSeq(Covered(st, v.p), v.a + 1, v.b)
MkView(st, p, a, b) ==
    LET n == Len(Covered(st, p)) lo == Lo(a, n) hi == Hi(b, n)
    IN [st EXCEPT !.views = Append(@, [p |-> p, a |-> lo, b |-> IF hi < lo THEN lo ELSE hi])]

\* ---- one step: [ok, st, ret]; ret a sequence of items ------------------------------------
Res(ok, st, ret) == [ok |-> ok, st |-> st, ret |-> ret]
Apply(st, o) ==
    LET items == IF o.op \in {"next", "append"} THEN <<>> ELSE Covered(st, o.w) IN
    CASE o.op = "at"     -> LET r == AtI(items, o.i) IN Res(r # <<>>, st, r)
      [] o.op = "att"    -> LET r == AtT(items, o.i) IN Res(r # <<>>, st, r)
      [] o.op = "slice"  -> Res(items # <<>>, st, SliceI(items, o.a, o.b))
      [] o.op = "slicet" -> Res(items # <<>>, st, SliceT(items, o.a, o.b))
      [] o.op = "filter" -> Res(Has(items, o.ls), st, IF Has(items, o.ls) THEN Filter(items, o.ls) ELSE <<>>)
      [] o.op = "list"   -> Res(TRUE, st, items)
      [] o.op = "dup"    -> Res(TRUE, st, items)
      [] o.op = "head"   -> Res(TRUE, st, SliceI(items, <<0>>, <<o.i>>))
      [] o.op = "tail"   -> Res(TRUE, st, SliceI(items, <<-o.i>>, <<>>))
      [] o.op = "view"   -> Res(TRUE, MkView(st, o.w, o.a, o.b), <<>>)
      [] o.op = "iter"   -> Res(TRUE, [st EXCEPT !.its = Append(@, [w |-> o.w, pos |-> 0, done |-> FALSE])], <<>>)
      [] o.op = "next"   ->
            LET q == st.its[o.w] c == Covered(st, q.w) IN
            IF q.done \/ q.pos >= Len(c) THEN Res(TRUE, [st EXCEPT !.its[o.w].done = TRUE], <<>>)
            ELSE Res(TRUE, [st EXCEPT !.its[o.w].pos = @ + 1], <<c[q.pos + 1]>>)
      [] o.op = "append" -> Res(TRUE, [st EXCEPT !.items = Append(@, o.x)], <<>>)
=============================================================================
