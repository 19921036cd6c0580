----------------------------- MODULE OperationsMC -----------------------------
(* Every small series and every sequence of two operations on it, with the laws   *)
(* relating the operations; the histories are exported and run on the real code.   *)
EXTENDS Operations, Json, IOUtils
MaxItems == atoi(IOEnv.N)
Kind == IOEnv.KIND
Vals == {-1, 0, 3}
Gaps == IF Kind = "point" THEN {1, 2} ELSE {2}
NoV == [all |-> <<>>, per |-> [m \in {"~"} |-> Zero]]
All(v) == [all |-> <<v>>, per |-> [m \in {"~"} |-> Zero]]
Base == [op |-> "", inplace |-> FALSE, normalize |-> TRUE, diffs |-> FALSE, c |-> All(Zero), offset |-> NoV, w |-> 1,
         range |-> <<Zero, One>>, src |-> <<>>, labels |-> {"a"}, label |-> "a", value |-> Zero, v |-> All(One), others |-> <<>>]
Ops == { [Base EXCEPT !.op = "diff"], [Base EXCEPT !.op = "derivative"], [Base EXCEPT !.op = "derivative", !.normalize = FALSE],
         [Base EXCEPT !.op = "derivative", !.diffs = TRUE], [Base EXCEPT !.op = "csum"], [Base EXCEPT !.op = "csum", !.offset = All(R(5))],
         [Base EXCEPT !.op = "integral"], [Base EXCEPT !.op = "integral", !.c = All(R(2))], [Base EXCEPT !.op = "integral", !.offset = All(R(-4))],
         [Base EXCEPT !.op = "mavg", !.w = 2], [Base EXCEPT !.op = "mavg", !.w = 3],
         [Base EXCEPT !.op = "normalize"], [Base EXCEPT !.op = "normalize", !.range = <<R(-1), R(3)>>],
         [Base EXCEPT !.op = "rescale", !.v = All(R(-2))], [Base EXCEPT !.op = "offset", !.v = All(<<1, 2>>)],
         [Base EXCEPT !.op = "derivative", !.inplace = TRUE], [Base EXCEPT !.op = "integral", !.inplace = TRUE],
         [Base EXCEPT !.op = "csum", !.inplace = TRUE], [Base EXCEPT !.op = "rescale", !.v = All(R(3)), !.inplace = TRUE],
         [Base EXCEPT !.op = "normalize", !.inplace = TRUE], [Base EXCEPT !.op = "select", !.value = R(3)] }
VARIABLES s, hist, phase, prev
Item(t, a) == [t |-> t, e |-> IF Kind = "slot" THEN t + 2 ELSE t, x |-> ("a" :> R(a)) @@ ("b" :> R(a * a + t)), ix |-> NoIndexes, z |-> "UTC", u |-> ""]
Init == /\ \E a \in Vals : s = [kind |-> Kind, ty |-> "dict", items |-> <<Item(0, a)>>] /\ hist = <<[t |-> 0, a |-> a]>>
        /\ phase = "build" /\ prev = s
Build == /\ phase = "build" /\ N(s) < MaxItems
         /\ \E d \in Gaps : \E a \in Vals : LET t == s.items[N(s)].t + d IN
               s' = [s EXCEPT !.items = Append(s.items, Item(t, a))] /\ hist' = Append(hist, [t |-> t, a |-> a])
         /\ phase' = "build" /\ prev' = s'
Do == /\ phase \in {"build", "one"} /\ N(s) > 1
      /\ \E a \in Ops : LET r == IF a.inplace THEN Afterwards(s, a) ELSE Operate(s, a) IN
            /\ r.kind # "refused" /\ r.items # <<>> /\ prev' = s /\ s' = r
            /\ hist' = Append(hist, a) /\ phase' = IF phase = "build" /\ a.op # "select" THEN "one" ELSE "two"
Next == Build \/ Do
Last == hist[Len(hist)]
\* ---- the laws ---------------------------------------------------------------------------------
L == Labels(s)
Ok(r) == r.kind # "refused"
NewLabel(r, l, p) == Name(r, l, p)
XOf(r, k, n, l) == [i \in 1..n |-> X(r, i + k, l)]
First(r) == [all |-> <<>>, per |-> [l \in Labels(r) |-> X(r, 1, l)]]
FirstOf(r, p) == [all |-> <<>>, per |-> [m \in {Name(r, l, p) : l \in Labels(r)} |-> X(r, 1, CHOOSE l \in Labels(r) : Name(r, l, p) = m)]]
SumUndoesDiff == (N(s) > 1 /\ ~Variable(s)) =>
    LET d == Diff(s) c == CSum(d, FirstOf(s, "diff")) IN \A l \in L : \A i \in 1..N(d) : X(c, i, l \o "_diff_csum") = X(s, i + 1, l)
DiffUndoesSum == (N(s) > 1 /\ ~Variable(s)) =>
    LET d == Diff(CSum(s, All(R(7)))) IN \A l \in L : \A i \in 1..N(d) : X(d, i, l \o "_csum_diff") = X(s, i + 1, l)
IntegralUndoesDerivative == N(s) > 1 =>
    LET d == Integral(Derivative(s), FirstOf(s, "derivative")) IN \A l \in L : \A i \in 1..N(s) : X(d, i, l \o "_derivative_integral") = X(s, i, l)
OnRange == (N(s) > 1 /\ Normalisable(s, <<>>)) =>
    LET n == Normalize(s, <<R(-1), R(3)>>, <<>>) IN \A l \in L :
       /\ Scalar("min", n, l) = R(-1) /\ Scalar("max", n, l) = R(3)
       /\ \A i, j \in 1..N(s) : RLt(X(s, i, l), X(s, j, l)) <=> RLt(X(n, i, l), X(n, j, l))
Inverses == /\ Rescale(Rescale(s, All(R(-2))), All(<<-1, 2>>)) = s
            /\ Offset(Offset(s, All(<<1, 2>>)), All(<<-1, 2>>)) = s
            /\ Normalize(s, <<Zero, One>>, <<[l \in L |-> <<Zero, One>>]>>) = s
Averages == /\ \A l \in L : RLe(Scalar("min", s, l), Scalar("avg", s, l)) /\ RLe(Scalar("avg", s, l), Scalar("max", s, l))
            /\ LET w == N(s) m == MAvg(s, w) IN N(m) = 1 /\ \A l \in L : X(m, 1, l \o "_mavg_" \o ToString(w)) = Scalar("avg", s, l)
            /\ \A l \in L : XOf(MAvg(s, 1), 0, N(s), l \o "_mavg_1") = XOf(s, 0, N(s), l)
\* merging: with itself nothing changes; the order does not matter; the parts of a series are each other's restriction
Part(r, i, j) == [r EXCEPT !.items = SubSeq(r.items, i, j)]
Merging == (phase # "two" /\ N(s) > 1 /\ ~Variable(s)) =>
    /\ Merge(<<s, s>>) = s
    /\ \A i \in 1..N(s) : LET a == Part(s, 1, i) b == Part(s, i, N(s)) IN
          N(a) > 1 /\ N(b) > 1 => Mergeable(<<a, b>>) /\ Merge(<<a, b>>) = Part(s, i, i) /\ Merge(<<b, s, a>>) = Part(s, i, i)
    /\ (Diff(s).items # <<>> => LET m == Merge(<<s, Diff(s)>>) IN N(m) = N(s) - 1 /\ m = Merge(<<Diff(s), s>>))
Shape == phase # "build" => \/ Last.inplace /\ N(s) = N(prev) /\ (Adds(Last) => Labels(prev) \subseteq Labels(s))
                            \/ ~Last.inplace /\ Cardinality(Labels(s)) = Cardinality(Labels(prev))
Ordered == \A i \in 1..(N(s) - 1) : s.items[i].t < s.items[i + 1].t /\ (Kind = "slot" /\ (phase = "build" \/ Last.op # "select") => s.items[i].e = s.items[i + 1].t)
Laws == Shape /\ Ordered /\ (phase # "two" => SumUndoesDiff /\ DiffUndoesSum /\ IntegralUndoesDerivative /\ OnRange /\ Inverses /\ Averages /\ Merging)
Export == phase = "two" => PrintT("@@BEH" \o ToJson(hist))
=============================================================================
