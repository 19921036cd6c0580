------------------------------ MODULE AccessMC --------------------------------
(* All short histories of views, iterators and accesses over a small series,    *)
(* exported for replay, and the laws of slicing on all bounds.                   *)
EXTENDS Access, Json, IOUtils
CONSTANTS Slots_                       \* TRUE: slots, FALSE: points
N == atoi(IOEnv.N)                     \* items of the base series
MaxOps == atoi(IOEnv.MAXOPS)
VARIABLES st, hist
X(t) == [k |-> IF Slots_ THEN "DataTimeSlot" ELSE "DataTimePoint", t |-> 60 * t, e |-> IF Slots_ THEN 60 * t + 60 ELSE 0, u |-> IF Slots_ THEN "60s" ELSE "",
         tz |-> "UTC", ty |-> "dict", sh |-> <<"a", "b">>, dv |-> <<<<t, 1>>, <<10 * t, 1>>>>, ix |-> <<>>]
Base == [i \in 1..N |-> X(i)]
D == [op |-> "", w |-> 0, i |-> 0, a |-> <<>>, b |-> <<>>, ls |-> <<>>, x |-> X(N + 1)]
Opts == {<<>>, <<0>>, <<1>>, <<-1>>, <<2>>}
Where == 0..Len(st.views)
Ops == {[D EXCEPT !.op = "view", !.w = w, !.a = a, !.b = b] : w \in {w \in Where : Len(st.views) < 2}, a \in {<<>>, <<1>>}, b \in {<<>>, <<2>>, <<-1>>}} \cup
       {[D EXCEPT !.op = "iter", !.w = w] : w \in {w \in Where : Len(st.its) < 2 /\ st.views # <<>>}} \cup
       {[D EXCEPT !.op = "next", !.w = w] : w \in 1..Len(st.its)} \cup
       {[D EXCEPT !.op = "at", !.w = w, !.i = i] : w \in Where, i \in {0, 2, -1, -3}} \cup
       {[D EXCEPT !.op = "slice", !.w = w, !.a = <<1>>, !.b = b] : w \in Where, b \in {<<>>, <<2>>}} \cup
       {[D EXCEPT !.op = "slicet", !.w = w, !.a = <<120>>, !.b = <<240>>] : w \in Where} \cup
       {[D EXCEPT !.op = "list", !.w = w] : w \in Where} \cup
       {[D EXCEPT !.op = "append", !.x = X(Len(st.items) + 1)] : q \in {q \in {1} : Len(st.items) = N}}
Init == st = [items |-> Base, views |-> <<>>, its |-> <<>>] /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E o \in Ops : LET r == Apply(st, o) IN st' = r.st /\ hist' = Append(hist, [op |-> o, ok |-> r.ok, ret |-> r.ret])
\* a view is a contiguous part of the series, whatever the nesting
ViewInv == \A w \in 1..Len(st.views) : LET c == Covered(st, w) IN
              c # <<>> => \E a \in 0..Len(st.items) : c = SubSeq(st.items, a + 1, a + Len(c))
\* iterating never skips or repeats, whatever the other iterators do
IterInv == \A q \in 1..Len(st.its) :
              LET got == SelectSeq(hist, LAMBDA h : h.op.op = "next" /\ h.op.w = q /\ h.ret # <<>>)
                  c == Covered(st, st.its[q].w)
              IN [j \in 1..Len(got) |-> got[j].ret[1]] = SubSeq(c, 1, st.its[q].pos)
SliceLaws == \A a, m, b \in 0..N : a <= m /\ m <= b =>
              /\ SliceI(Base, <<a>>, <<m>>) \o SliceI(Base, <<m>>, <<b>>) = SliceI(Base, <<a>>, <<b>>)
              /\ LET ta == 60 * a tm == 60 * m tb == 60 * b IN a < m /\ m < b =>
                 SliceT(Base, <<ta>>, <<tm>>) \o SliceT(Base, <<tm>>, <<tb>>) = SliceT(Base, <<ta>>, <<tb>>)
ASSUME SliceLaws
Export == Len(hist) = MaxOps => PrintT("@@BEH" \o ToJson(hist))
=============================================================================
