--------------------------------- MODULE Plot ---------------------------------
(* What a plot shows of a series.  Times are in eighths of a second from a base; an *)
(* item has its start t, its end e, the values by label x and the indexes ix (each   *)
(* <<>> or <<number>>).  offs is the sequence <<from, offset>> of the offsets of the  *)
(* time zone of the series, in the order of time: a plot shows local times.           *)
EXTENDS Rat, TLC
RECURSIVE OffAt(_, _, _)
OffAt(offs, t, n) == IF n = 1 \/ offs[n][1] <= t THEN offs[n][2] ELSE OffAt(offs, t, n - 1)
Shown(offs, t) == t + OffAt(offs, t, Len(offs))
\* -- which items are in which bucket: k items each, in order; the last items not filling one are not shown ----------
Buckets(n, k) == [b \in 1..(n \div k) |-> [j \in 1..k |-> (b - 1) * k + j]]
Middle(s, q) == (s[q[1]].t + s[q[Len(q)]].e) \div 2
Over(s, q, l) == [j \in 1..Len(q) |-> s[q[j]].x[l]]
\* an index which is absent counts as zero
IndexOver(s, q, x) == [j \in 1..Len(q) |-> IF x \in DOMAIN s[q[j]].ix /\ s[q[j]].ix[x] # <<>> THEN s[q[j]].ix[x][1] ELSE Zero]
Avg(q) == RDiv(RSumSeq(q), R(Len(q)))
\* -- rows: the time, then the cells of each label and index ------------------------------------------------------------
SingleRow(s, offs, j, labels, indexes) ==
    [t |-> Shown(offs, s[j].t), x |-> [l \in labels |-> <<s[j].x[l]>>], ix |-> [x \in indexes |-> IF x \in DOMAIN s[j].ix THEN s[j].ix[x] ELSE <<>>]]
BucketRow(s, offs, q, labels, indexes) ==
    [t |-> Shown(offs, Middle(s, q)), x |-> [l \in labels |-> LET v == Over(s, q, l) IN <<RMinSeq(v), Avg(v), RMaxSeq(v)>>],
     ix |-> [x \in indexes |-> LET a == Avg(IndexOver(s, q, x)) IN <<Zero, a, a>>]]
Rows(s, offs, k, labels, indexes) ==
    IF k = 0 THEN [j \in 1..Len(s) |-> SingleRow(s, offs, j, labels, indexes)]
    ELSE [b \in 1..(Len(s) \div k) |-> BucketRow(s, offs, Buckets(Len(s), k)[b], labels, indexes)]
\* without a choice, long series are aggregated by ten for each order of magnitude above the threshold
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
Automatic(n, limit) == IF n <= limit THEN 0 ELSE 10 ^ Digits(n \div limit)
Factor(n, limit, aggregate, by) == IF aggregate = "no" THEN 0 ELSE IF by # 0 THEN by ELSE Automatic(n, limit)
\* -- the lines of the other engine: one for each label and index, over all the items --------------------------------------
Lines(s, labels, indexes) == {[j \in 1..Len(s) |-> <<s[j].x[l]>>] : l \in labels}
                             \cup {[j \in 1..Len(s) |-> IF x \in DOMAIN s[j].ix THEN s[j].ix[x] ELSE <<>>] : x \in indexes}
=============================================================================
