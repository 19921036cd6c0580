-------------------------------- MODULE Heap ---------------------------------
(* The series of a program and what they share.                                *)
(* A heap is [objs, val, next]: objs a sequence of objects, each the sequence of  *)
(* the cells (items) it is made of; val the content of each cell; next a cell not   *)
(* used yet.  Two objects having a cell in common are aliases: a slice of a series   *)
(* is made of its very items.  Everything else is made of new ones.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cells(q) == {q[j] : j \in 1..Len(q)}
New(h, contents) ==
    LET n == Len(contents) IN
    [objs |-> Append(h.objs, [j \in 1..n |-> h.next + j - 1]),
     val |-> [c \in 0..(h.next + n - 1) |-> IF c < h.next THEN h.val[c] ELSE contents[c - h.next + 1]],
     next |-> h.next + n]
Empty == [objs |-> <<>>, val |-> [c \in {} |-> ""], next |-> 0]
Content(h, o) == [j \in 1..Len(h.objs[o]) |-> h.val[h.objs[o][j]]]
\* a part of o, sharing its cells
Share(h, o, idx) == [h EXCEPT !.objs = Append(@, [j \in 1..Len(idx) |-> h.objs[o][idx[j]]])]
\* the content of the cells S of o becomes c (a sequence over the positions of o)
Touch(h, o, S, c) ==
    [h EXCEPT !.val = [x \in DOMAIN h.val |-> IF x \in S THEN c[CHOOSE j \in 1..Len(h.objs[o]) : h.objs[o][j] = x] ELSE h.val[x]]]
\* in place, o gets the contents c: its cells are changed, and it can be extended
Become(h, o, c) ==
    LET n == Len(h.objs[o]) m == Len(c)
        g == Touch(h, o, Cells(SubSeq(h.objs[o], 1, IF m < n THEN m ELSE n)), c)
        k == New(g, SubSeq(c, n + 1, m))
    IN IF m <= n THEN [g EXCEPT !.objs[o] = SubSeq(@, 1, m)]
       ELSE [k EXCEPT !.objs = [p \in 1..Len(h.objs) |-> IF p = o THEN h.objs[o] \o k.objs[Len(k.objs)] ELSE h.objs[p]]]
Aliases(h, S, p) == Cells(h.objs[p]) \cap S # {}
=============================================================================
