------------------------------ MODULE Transform -------------------------------
(* Resampling and aggregation of a series of points.                            *)
(* Times are integer ticks relative to a base instant; the state of a series is  *)
(* a sequence of items [t, x, l, ix]: the instant, the value of each label, the   *)
(* optional data loss, and the optional value of each other index.  Ticks are     *)
(* such that instants, units and validities are multiples of four, which makes    *)
(* every boundary and midpoint below an integer.                                  *)
EXTENDS Rat, Calendar

\* ---- what every item stands for: its validity region -------------------------------------
Diffs(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1].t - s[i].t]
\* the most frequent spacing, the first seen on ties
Count(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
SamplingInterval(s) == LET q == Diffs(s) best == CHOOSE i \in 1..Len(q) :
                            /\ \A j \in 1..Len(q) : Count(q, q[j]) <= Count(q, q[i])
                            /\ \A j \in 1..(i - 1) : Count(q, q[j]) < Count(q, q[i])
                       IN q[best]
Mx(a, b) == IF a < b THEN b ELSE a
Mn(a, b) == IF a < b THEN a ELSE b
\* half the validity on each side, shared in the middle with a neighbour that is closer than that
Lo(s, h, i) == IF i = 1 THEN s[i].t - h ELSE Mx(s[i].t - h, (s[i - 1].t + s[i].t) \div 2)
Hi(s, h, i) == IF i = Len(s) THEN s[i].t + h ELSE Mn(s[i].t + h, (s[i].t + s[i + 1].t) \div 2)
Overlap(lo, hi, a, b) == Mx(0, Mn(hi, b) - Mx(lo, a))
Cover(s, h, i, a, b) == Overlap(Lo(s, h, i), Hi(s, h, i), a, b)
GapCover(s, h, i, a, b) == Overlap(Hi(s, h, i), Lo(s, h, i + 1), a, b)         \* between items i and i + 1
Seqs(F(_), m, n) == IF n < m THEN <<>> ELSE [j \in 1..(n - m + 1) |-> F(m + j - 1)]
\* only the items around the interval matter
First(s, h, a) == CHOOSE i \in 1..Len(s) : (Hi(s, h, i) > a \/ i = Len(s) \/ s[i + 1].t > a) /\ \A j \in 1..(i - 1) : ~(Hi(s, h, j) > a \/ s[j + 1].t > a)
Last(s, h, b) == CHOOSE i \in 1..Len(s) : (Lo(s, h, i) < b \/ i = 1 \/ s[i - 1].t < b) /\ \A j \in (i + 1)..Len(s) : ~(Lo(s, h, j) < b \/ s[j - 1].t < b)
\* the value at an instant between items i and j: on the line through them, half way between them, or the value of the first
\* of them (an interpolator of the user's)
Between(ip, s, i, j, n, at) == LET d == RSub(s[j].x[n], s[i].x[n])
                               IN CASE ip = "linear" -> RAdd(s[i].x[n], RMul(d, Norm(at - s[i].t, s[j].t - s[i].t)))
                                    [] ip = "uniform" -> RAdd(s[i].x[n], RMul(d, Norm(1, 2)))
                                    [] ip = "previous" -> s[i].x[n]
Interpolate(ip, s, i, n, at) == Between(ip, s, i, i + 1, n, at)
\* an interpolator asked directly: for the items it is told, or for the ones around the instant
Around(s, at) == LET b == {i \in 1..Len(s) : s[i].t <= at} a == {i \in 1..Len(s) : s[i].t > at}
                 IN IF b = {} \/ a = {} THEN <<>> ELSE <<CHOOSE i \in b : \A j \in b : j <= i, CHOOSE i \in a : \A j \in a : j >= i>>
Ends(s, ends, at) == IF ends = <<>> THEN Around(s, at)
                     ELSE IF Len(ends) = 2 /\ s[ends[1]].t < at /\ at < s[ends[2]].t THEN ends ELSE <<>>
Evaluate(ip, s, ends, at) == LET e == Ends(s, ends, at) IN [n \in 1..Len(s[1].x) |-> Between(ip, s, e[1], e[2], n, at)]
\* ---- the value of label n over [a, b]: time-weighted, gaps interpolated ------------
Mean(ip, s, h, n, a, b) ==
    LET f == First(s, h, a) l == Last(s, h, b)
        W(i) == RMul(Norm(Cover(s, h, i, a, b), b - a), s[i].x[n])
        G(i) == LET g == GapCover(s, h, i, a, b) lo == Mx(Hi(s, h, i), a) hi == Mn(Lo(s, h, i + 1), b)
                IN IF g = 0 THEN Zero ELSE RMul(Norm(g, b - a), Interpolate(ip, s, i, n, (lo + hi) \div 2))
        tot == RAdd(RSumSeq(Seqs(W, f, l)), RSumSeq(Seqs(G, f, l - 1)))
    IN IF a < Lo(s, h, 1) THEN RDiv(tot, Norm(b - Lo(s, h, 1), b - a)) ELSE tot       \* nothing is known of before the first item
Coverage(s, h, a, b) == LET f == First(s, h, a) l == Last(s, h, b) C(i) == Norm(Cover(s, h, i, a, b), b - a)
                        IN RSumSeq(Seqs(C, f, l))
\* ---- what was lost of [a, b] ------------------------------------------------------------------
Loss(s, h, a, b) == LET f == First(s, h, a) l == Last(s, h, b)
                        P(i) == IF s[i].l = <<>> THEN Zero ELSE RMul(Norm(Cover(s, h, i, a, b), b - a), s[i].l[1])
                    IN RAdd(RSub(One, Coverage(s, h, a, b)), RSumSeq(Seqs(P, f, l)))
\* ---- indexes: weighted mean of the defined ones ----------------------------------------------------
Index(s, h, m, a, b) == LET f == First(s, h, a) l == Last(s, h, b)
                            D(i) == IF s[i].ix[m] = <<>> THEN 0 ELSE Cover(s, h, i, a, b)
                            tot == RSumSeq(Seqs(LAMBDA i : Norm(D(i), b - a), f, l))
                            V(i) == IF s[i].ix[m] = <<>> THEN Zero ELSE RMul(Norm(D(i), b - a), s[i].ix[m][1])
                        IN IF tot = Zero THEN <<>> ELSE <<RDiv(RSumSeq(Seqs(V, f, l)), tot)>>
\* ---- the items of a slot: the ones in it and one in the middle of each gap between them -----------------
Own(s, a, b) == {i \in 1..Len(s) : a <= s[i].t /\ s[i].t < b}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE DenseFrom(_, _, _, _, _, _)
DenseFrom(ip, s, h, n, i, l) == LET v == s[i].x[n] IN
    IF i = l THEN <<v>>
    ELSE (IF Hi(s, h, i) < Lo(s, h, i + 1) THEN <<v, Interpolate(ip, s, i, n, (Hi(s, h, i) + Lo(s, h, i + 1)) \div 2)>> ELSE <<v>>) \o DenseFrom(ip, s, h, n, i + 1, l)
Dense(ip, s, h, n, a, b) == LET o == Own(s, a, b) IN
    IF o = {} THEN <<Mean(ip, s, h, n, a, b)>> ELSE DenseFrom(ip, s, h, n, MinS(o), MaxS(o))
Operation(ip, op, s, h, n, a, b) ==
    IF op = "avg" THEN Mean(ip, s, h, n, a, b)
    ELSE LET d == Dense(ip, s, h, n, a, b) IN
         CASE op = "min" -> RMinSeq(d) [] op = "max" -> RMaxSeq(d) [] op = "sum" -> RSumSeq(d)
           [] op = "first" -> d[1] [] op = "last" -> d[Len(d)] [] op = "spread" -> RSub(RMaxSeq(d), RMinSeq(d))

\* ---- the intervals -------------------------------------------------------------------------------------------
\* g: [z, u, ut, tick, base, mh, lo, hi, ip, force]: zone, unit, length in ticks (0 for calendar units), seconds per tick, base instant,
\* the start and the end asked for, if any, the interpolator, and the
\* data loss forced on all the items, if any
Only(S) == CHOOSE x \in S : TRUE
Instant(g, p) == g.base + p * g.tick
Phase(g, p) == IF g.mh THEN (Offset(g.z, Instant(g, p)) \div g.tick) % g.ut ELSE 0
GridFloor(g, p) == IF g.ut > 0 THEN p - ((p - Phase(g, p)) % g.ut)
                   ELSE (Only(Floor(g.z, g.u, Instant(g, p), FALSE)) - g.base) \div g.tick
GridNext(g, p) == IF g.ut > 0 THEN p + g.ut
                  ELSE (Only(Shift(g.z, g.u, Instant(g, p))) - g.base) \div g.tick
GridAfter(g, p) == GridNext(g, GridFloor(g, p))
Start(g, target, s) ==
    IF g.lo # <<>> THEN (IF target = "points" THEN g.lo[1] - g.ut \div 2 ELSE g.lo[1])
    ELSE IF target = "points" THEN GridAfter(g, s[1].t - g.ut \div 2) + g.ut \div 2
    ELSE IF GridFloor(g, s[1].t) = s[1].t THEN s[1].t ELSE GridAfter(g, s[1].t)
RECURSIVE IntervalsFrom(_, _, _)
IntervalsFrom(g, a, end) == LET b == GridNext(g, a) IN IF b > end THEN <<>> ELSE <<<<a, b>>>> \o IntervalsFrom(g, b, end)
Intervals(g, target, s) == LET a == Start(g, target, s) e == IF g.hi = <<>> THEN s[Len(s)].t ELSE Mn(g.hi[1] + (IF target = "points" THEN g.ut \div 2 ELSE 0), s[Len(s)].t) IN IF a > e THEN <<>> ELSE IntervalsFrom(g, a, e)

\* a start or an end which is not a boundary is refused, and so is a start of which nothing is known: no items yet (slots), none which
\* stands for any of it (points, unless what was lost is to be filled)
Refused(g, target, s, h, fill) ==
    \/ \E p \in {(g.lo \o g.hi)[j] : j \in 1..Len(g.lo \o g.hi)} : GridFloor(g, p) # p
    \/ LET iv == Intervals(g, target, s) IN
       g.lo # <<>> /\ iv # <<>> /\ IF target = "points" THEN fill = <<>> /\ iv[1][2] <= Lo(s, h, 1) ELSE iv[1][2] <= s[1].t

\* ---- the transformed series ------------------------------------------------------------------------------------
\* fields: the labels of the result; field f comes from label f.n by operation f.op
Half(s, valid) == (IF valid = <<>> THEN SamplingInterval(s) ELSE valid[1]) \div 2
NewItem(ip, s, h, fields, nix, fill, force, a, b) ==
    LET loss == Loss(s, h, a, b) IN
    [s |-> a, e |-> b, l |-> IF force = <<>> THEN loss ELSE force[1],
     x |-> [j \in 1..Len(fields) |-> IF fill # <<>> /\ loss = One THEN fill[1] ELSE Operation(ip, fields[j].op, s, h, fields[j].n, a, b)],
     ix |-> [m \in 1..nix |-> Index(s, h, m, a, b)]]
Transform(g, target, s, valid, fields, nix, fill) ==
    LET h == Half(s, valid) iv == Intervals(g, target, s)
    IN [k \in 1..Len(iv) |-> NewItem(g.ip, s, h, fields, nix, fill, g.force, iv[k][1], iv[k][2])]
\* the result of a resampling as a series again
AsSeries(r) == [k \in 1..Len(r) |-> [t |-> (r[k].s + r[k].e) \div 2, x |-> r[k].x, l |-> <<r[k].l>>, ix |-> r[k].ix]]
=============================================================================
