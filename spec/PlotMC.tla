-------------------------------- MODULE PlotMC --------------------------------
(* The rows are also accumulated item by item, as a series is read; both ways agree *)
(* for every series, and the laws of the summary hold.  The series are exported.     *)
EXTENDS Plot, Json, IOUtils
MaxLen == atoi(IOEnv.N)
VARIABLES s, k, rows, acc
vars == <<s, k, rows, acc>>
Offs == <<<<-1000, 8>>, <<20, 16>>>>          \* the clock jumps forward in the middle of the series
None == [n |-> 0, first |-> 0, sum |-> Zero, min |-> Zero, max |-> Zero, ix |-> Zero]
Init == s = <<>> /\ k \in 1..3 /\ rows = <<>> /\ acc = None
Item(v, x) == [t |-> 8 * Len(s), e |-> 8 * Len(s) + 8, x |-> [a |-> v], ix |-> [loss |-> x]]
Add == /\ Len(s) < MaxLen
       /\ \E v \in {R(-1), Zero, <<1, 2>>, R(3)}, x \in {<<>>, <<Zero>>, <<<<1, 2>>>>} :
            LET it == Item(v, x)
                g == [n |-> acc.n + 1, first |-> IF acc.n = 0 THEN it.t ELSE acc.first, sum |-> RAdd(acc.sum, v), min |-> IF acc.n = 0 THEN v ELSE RMin(acc.min, v),
                      max |-> IF acc.n = 0 THEN v ELSE RMax(acc.max, v), ix |-> IF x = <<>> THEN acc.ix ELSE RAdd(acc.ix, x[1])]
                m == RDiv(g.ix, R(k)) IN
            /\ s' = Append(s, it)
            /\ IF g.n = k THEN /\ acc' = None
                               /\ rows' = Append(rows, [t |-> Shown(Offs, (g.first + it.e) \div 2), x |-> [a |-> <<g.min, RDiv(g.sum, R(k)), g.max>>], ix |-> [loss |-> <<Zero, m, m>>]])
               ELSE acc' = g /\ rows' = rows
       /\ k' = k
Next == Add
Declared == Rows(s, Offs, k, {"a"}, {"loss"})
Agree == rows = Declared
Ordered == \A b \in 1..Len(rows) : LET c == rows[b].x["a"] IN RLe(c[1], c[2]) /\ RLe(c[2], c[3])
\* every extreme of what is shown is the extreme of some row, and the rows advance in time
Extremes == LET n == Len(rows) * k IN n > 0 =>
    /\ RMaxSeq([b \in 1..Len(rows) |-> rows[b].x["a"][3]]) = RMaxSeq([j \in 1..n |-> s[j].x["a"]])
    /\ RMinSeq([b \in 1..Len(rows) |-> rows[b].x["a"][1]]) = RMinSeq([j \in 1..n |-> s[j].x["a"]])
    /\ Avg([b \in 1..Len(rows) |-> rows[b].x["a"][2]]) = Avg([j \in 1..n |-> s[j].x["a"]])
    /\ \A b \in 1..(Len(rows) - 1) : rows[b].t < rows[b + 1].t
\* buckets of one item show the same as no buckets
Same == k = 1 => \A j \in 1..Len(s) : Declared[j].x["a"][2] = Rows(s, Offs, 0, {"a"}, {"loss"})[j].x["a"][1]
\* what was shown stays as it is while the series grows
Stable == [][SubSeq(rows', 1, Len(rows)) = rows]_vars
Laws == Agree /\ Ordered /\ Extremes /\ Same
Export == Len(s) = MaxLen => PrintT("@@BEH" \o ToJson([k |-> k, v |-> [j \in 1..Len(s) |-> s[j].x["a"]], ix |-> [j \in 1..Len(s) |-> s[j].ix["loss"]]]))
ASSUME Automatics == Automatic(40, 40) = 0 /\ Automatic(41, 40) = 10 /\ Automatic(399, 40) = 10 /\ Automatic(400, 40) = 100 /\ Automatic(4000, 40) = 1000
=============================================================================
