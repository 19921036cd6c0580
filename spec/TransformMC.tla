----------------------------- MODULE TransformMC ------------------------------
(* Every small series (gaps, losses, indexes), resampled or aggregated to every   *)
(* small unit, and the resampled ones once more; the laws checked on every  *)
(* result, and the histories exported to be run on the real classes.              *)
EXTENDS Transform, Json, IOUtils, TLC
MaxItems == atoi(IOEnv.N)
UTCz == << <<0, 0>> >>
G(m) == [z |-> UTCz, u |-> <<0, 0, 0, 0, m>>, ut |-> m, tick |-> 1, base |-> 0, mh |-> FALSE, lo |-> <<>>, hi |-> <<>>, ip |-> "linear", force |-> <<>>]
Span(lo, hi) == [G(8) EXCEPT !.lo = lo, !.hi = hi]
Flavours == << [v |-> 0, l |-> <<>>, ix |-> <<>>], [v |-> 48, l |-> <<Zero>>, ix |-> <<One>>],
               [v |-> -24, l |-> << <<1, 2>> >>, ix |-> <<Zero>>], [v |-> 48, l |-> <<One>>, ix |-> <<>>] >>
NoSpan == [lo |-> <<>>, hi |-> <<>>, ip |-> "linear", force |-> <<>>]
Spans == {[lo |-> lo, hi |-> hi, ip |-> "linear"] : lo \in {<<>>, <<0>>, <<8>>}, hi \in {<<>>, <<16>>}} \ {NoSpan}
Unif == [NoSpan EXCEPT !.ip = "uniform"]
Spacings == {4, 8, 16}
Units == {4, 8, 12, 24}
Fields == << [n |-> 1, op |-> "avg"], [n |-> 1, op |-> "min"], [n |-> 1, op |-> "max"], [n |-> 1, op |-> "sum"] >>
VARIABLES s, r, hist, phase
Item(t, f) == [t |-> t, x |-> <<R(Flavours[f].v)>>, l |-> Flavours[f].l, ix |-> <<Flavours[f].ix>>]
Init == /\ \E t \in {0, 4} : \E f \in DOMAIN Flavours : s = <<Item(t, f)>> /\ hist = <<[op |-> "item", t |-> t, f |-> f, u |-> 0] @@ NoSpan>>
        /\ r = <<>> /\ phase = "build"
Append_(d, f) == /\ s' = Append(s, Item(s[Len(s)].t + d, f)) /\ r' = <<>> /\ phase' = "build"
                 /\ hist' = Append(hist, [op |-> "item", t |-> s[Len(s)].t + d, f |-> f, u |-> 0] @@ NoSpan)
Resample(m, a) == LET o == Transform([G(m) EXCEPT !.ip = a.ip], "points", s, <<>>, <<[n |-> 1, op |-> "avg"]>>, 1, <<>>) IN
               /\ s' = AsSeries(o) /\ r' = o /\ phase' = IF phase = "build" /\ Len(o) > 1 THEN "resampled" ELSE "done"
               /\ hist' = Append(hist, [op |-> "points", t |-> 0, f |-> 0, u |-> m] @@ a)
Aggregate(m, a) == LET o == Transform([G(m) EXCEPT !.ip = a.ip], "slots", s, <<>>, Fields, 1, <<>>) IN
               /\ s' = s /\ r' = o /\ phase' = "done"
               /\ hist' = Append(hist, [op |-> "slots", t |-> 0, f |-> 0, u |-> m] @@ a)
ResampleSpan(sp) == LET g == Span(sp.lo, sp.hi) o == IF Refused(g, "points", s, Half(s, <<>>), <<>>) THEN <<>> ELSE Transform(g, "points", s, <<>>, <<[n |-> 1, op |-> "avg"]>>, 1, <<>>) IN
               /\ s' = AsSeries(o) /\ r' = o /\ phase' = "done"
               /\ hist' = Append(hist, [op |-> "points", t |-> 0, f |-> 0, u |-> 8] @@ sp)
AggregateSpan(sp) == LET g == Span(sp.lo, sp.hi) o == IF Refused(g, "slots", s, Half(s, <<>>), <<>>) THEN <<>> ELSE Transform(g, "slots", s, <<>>, Fields, 1, <<>>) IN
               /\ s' = s /\ r' = o /\ phase' = "done"
               /\ hist' = Append(hist, [op |-> "slots", t |-> 0, f |-> 0, u |-> 8] @@ sp)
Next == \/ phase = "build" /\ Len(s) < MaxItems /\ \E d \in Spacings : \E f \in DOMAIN Flavours : Append_(d, f)
        \/ phase = "build" /\ Len(s) > 1 /\ \E m \in Units : \E a \in {NoSpan, Unif} : Resample(m, a) \/ Aggregate(m, a)
        \/ phase = "build" /\ Len(s) > 1 /\ \E sp \in Spans : AggregateSpan(sp)
        \/ phase = "resampled" /\ \E m \in {8, 24} : Resample(m, NoSpan) \/ Aggregate(m, NoSpan)
\* ---- the laws, on the result of the last transformation -------------------------------------
Built == LET b == SelectSeq(hist, LAMBDA h : h.op = "item") IN [j \in 1..Len(b) |-> Item(b[j].t, b[j].f)]
Values == {Flavours[hist[j].f].v : j \in {j \in 1..Len(hist) : hist[j].op = "item"}}
LoV == R(MinS(Values))
HiV == R(MaxS(Values))
IxValues == UNION {IF hist[j].op = "item" /\ Flavours[hist[j].f].ix # <<>> THEN {Flavours[hist[j].f].ix[1]} ELSE {} : j \in 1..Len(hist)}
u == hist[Len(hist)].u
Grid == \A j \in 1..Len(r) : /\ r[j].e - r[j].s = u
                             /\ (j > 1 => r[j].s = r[j - 1].e)
Asked == hist[Len(hist)]
Half_ == IF Asked.op = "points" THEN u \div 2 ELSE 0
Supported == r # <<>> => /\ r[1].s >= Built[1].t \/ Asked.lo = <<r[1].s + Half_>>
                         /\ Asked.lo # <<>> => r[1].s + Half_ = Asked.lo[1]
                         /\ Asked.hi # <<>> => r[Len(r)].e - Half_ <= Asked.hi[1]
                         /\ r[Len(r)].e <= Built[Len(Built)].t
Aligned == \A j \in 1..Len(r) : (IF hist[Len(hist)].op = "slots" THEN r[j].s ELSE r[j].s + u \div 2) % u = 0
InRange == \A j \in 1..Len(r) : RLe(LoV, r[j].x[1]) /\ RLe(r[j].x[1], HiV)
Losses == \A j \in 1..Len(r) : RLe(Zero, r[j].l) /\ RLe(r[j].l, One)
Indexes == \A j \in 1..Len(r) : LET x == r[j].ix[1] IN
              /\ (x # <<>> => \E a, b \in IxValues : RLe(a, x[1]) /\ RLe(x[1], b))
              /\ (IxValues = {} => x = <<>>)
MinAvgMax == (r # <<>> /\ hist[Len(hist)].op = "slots" /\ \E j \in 1..Len(r) : Own(s, r[j].s, r[j].e) = {}) =>
              \A j \in 1..Len(r) : Own(s, r[j].s, r[j].e) = {} => (r[j].x[2] = r[j].x[1] /\ r[j].x[3] = r[j].x[1] /\ r[j].x[4] = r[j].x[1])
\* every original item is in at most one slot, and in one if within the slots
Partition == hist[Len(hist)].op = "slots" => \A i \in 1..Len(s) :
              Cardinality({j \in 1..Len(r) : i \in Own(s, r[j].s, r[j].e)}) = (IF r # <<>> /\ r[1].s <= s[i].t /\ s[i].t < r[Len(r)].e THEN 1 ELSE 0)
\* the mean is that of a function of time: the mean over an interval is that of its two halves; the regions and gaps cover it all
Additive == (phase = "build" /\ Len(s) > 1) =>
              LET h == Half(s, <<>>) a == s[1].t b == s[Len(s)].t IN
              \A m \in {(a + b) \div 2, a + 4} : (a < m /\ m < b) =>
                 Mean("linear", s, h, 1, a, b) = RAdd(RMul(Norm(m - a, b - a), Mean("linear", s, h, 1, a, m)), RMul(Norm(b - m, b - a), Mean("linear", s, h, 1, m, b)))
FullCover == (phase = "build" /\ Len(s) > 1) =>
              LET h == Half(s, <<>>) a == s[1].t b == s[Len(s)].t GC(i) == Norm(GapCover(s, h, i, a, b), b - a)
              IN RAdd(Coverage(s, h, a, b), RSumSeq(Seqs(GC, 1, Len(s) - 1))) = One
Laws == Grid /\ Supported /\ Aligned /\ InRange /\ Losses /\ Indexes /\ MinAvgMax /\ Partition /\ Additive /\ FullCover
Export == phase = "done" => PrintT("@@BEH" \o ToJson(hist))
=============================================================================
