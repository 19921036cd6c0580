--------------------------------- MODULE Csv ---------------------------------
(* What reading a CSV file gives.  A file has a header (the names of its columns,    *)
(* <<>> if there is none) and rows; a row is                                          *)
(*   [ts |-> <<>> or <<seconds>>, cells |-> sequence of <<>> or <<rational>>]         *)
(* (lines that are comments, empty or without separators are not rows).  Options:     *)
(*   tcols    the positions of the columns the time is in                             *)
(*   sel      "all", "names" or "positions";  names, positions: the ones selected     *)
(*   form     "auto", "list" or "dict": how the data is wanted                        *)
(*   hidden   [name -> index] of the columns holding indexes                          *)
(*   limit    <<>> or <<how many rows>>;  skip, sort: booleans                        *)
(*   slots    whether slots are to be made;  next: for each time, the one the slot    *)
(*            starting there ends at (0 if after all that matters)                    *)
(* Times are their position among all those that matter.                              *)
EXTENDS Rat, TLC
HasHeader(f) == f.header # <<>>
Width(f) == IF HasHeader(f) THEN Len(f.header) ELSE Len(f.rows[1].cells)
Named(f, p) == IF HasHeader(f) THEN f.header[p] # "" ELSE TRUE
Place(f, nm) == CHOOSE p \in 1..Len(f.header) : f.header[p] = nm /\ \A q \in 1..(p - 1) : f.header[q] # nm
\* the columns the data is in, or <<>> (none is ever wanted) when they cannot be told
Known(f, o) == CASE o.sel = "all" -> TRUE
                 [] o.sel = "names" -> HasHeader(f) /\ \A j \in 1..Len(o.names) : \E p \in 1..Len(f.header) : f.header[p] = o.names[j]
                 [] o.sel = "positions" -> TRUE
Columns(f, o) == CASE o.sel = "all" -> SelectSeq([p \in 1..Width(f) |-> p], LAMBDA p : p \notin o.tcols /\ Named(f, p))
                   [] o.sel = "names" -> [j \in 1..Len(o.names) |-> Place(f, o.names[j])]
                   [] o.sel = "positions" -> o.positions
Listed(f, o) == CASE o.form = "list" \/ o.sel = "positions" -> TRUE [] o.form = "dict" -> FALSE [] OTHER -> ~HasHeader(f)
Hidden(f, o, p) == ~Listed(f, o) /\ HasHeader(f) /\ f.header[p] \in DOMAIN o.hidden
\* a row can be made an item of if its time and all its values can be told (indexes may be undefined)
Has(r, p) == p <= Len(r.cells)
Good(f, o, r) == /\ r.ts # <<>>
                 /\ \A j \in 1..Len(Columns(f, o)) : LET p == Columns(f, o)[j] IN Has(r, p) /\ (r.cells[p] # <<>> \/ Hidden(f, o, p))
                 /\ \A p \in o.tcols : Has(r, p)
Name(f, o, j) == IF Listed(f, o) THEN ToString(j - 1) ELSE f.header[Columns(f, o)[j]]
Item(f, o, r) ==
    LET c == Columns(f, o) vis == {j \in 1..Len(c) : ~Hidden(f, o, c[j])} hid == (1..Len(c)) \ vis IN
    [t |-> r.ts[1],
     x |-> [nm \in {Name(f, o, j) : j \in vis} |-> r.cells[c[CHOOSE j \in vis : Name(f, o, j) = nm]][1]],
     ix |-> [nm \in {o.hidden[f.header[c[j]]] : j \in {j \in hid : r.cells[c[j]] # <<>>}} |->
                r.cells[c[CHOOSE j \in hid : o.hidden[f.header[c[j]]] = nm /\ r.cells[c[j]] # <<>>]][1]]]
\* ---- which rows are read ------------------------------------------------------------------------------
\* up to the limit-th good one
Goods(f, o) == {j \in 1..Len(f.rows) : Good(f, o, f.rows[j])}
Reached(f, o) == IF o.limit = <<>> \/ Cardinality(Goods(f, o)) < o.limit[1] THEN 1..Len(f.rows)
                 ELSE 1..(CHOOSE j \in Goods(f, o) : Cardinality({g \in Goods(f, o) : g <= j}) = o.limit[1])
Parsable(f, o) == o.skip \/ Reached(f, o) \subseteq Goods(f, o)
Read(f, o) == LET keep == SelectSeq([j \in 1..Len(f.rows) |-> j], LAMBDA j : j \in Goods(f, o) /\ j \in Reached(f, o)) IN
              [j \in 1..Len(keep) |-> Item(f, o, f.rows[keep[j]])]
\* in order of time, those of the same time in the order of the file
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x.t < s[Len(s)].t THEN Append(Insert(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)]) ELSE Append(s, x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN s ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Ordered(f, o) == IF o.sort THEN Sorted(Read(f, o)) ELSE Read(f, o)
\* ---- and what they become ---------------------------------------------------------------------------------
\* the boundaries from a on, up to (not including) b; it ends with 0 if b is not one
RECURSIVE Way(_, _, _)
Way(o, a, b) == IF a = b THEN <<>> ELSE IF a = 0 \/ a > b THEN <<0>> ELSE <<a>> \o Way(o, o.next[a], b)
Reachable(o, a, b) == a < b /\ LET w == Way(o, a, b) IN w[Len(w)] # 0
\* an item that does not come after the ones before it, or (slots) is not on a boundary, has no place
RECURSIVE Placed(_, _, _)
Placed(o, items, known) ==
    IF items = <<>> THEN known
    ELSE LET it == items[1] IN
         IF known = <<>> \/ (IF o.slots THEN Reachable(o, known[Len(known)].t, it.t) ELSE known[Len(known)].t < it.t)
         THEN Placed(o, Tail(items), Append(known, it)) ELSE Placed(o, Tail(items), known)
Kept(f, o) == Placed(o, Ordered(f, o), <<>>)
Accepted(f, o) == Known(f, o) /\ Parsable(f, o) /\ Read(f, o) # <<>> /\ (o.skip \/ Len(Kept(f, o)) = Len(Read(f, o)))
\* slots are contiguous: the missing ones between two rows are there as lost, on the line between their values
Between(o, a, b) ==
    LET w == Way(o, a.t, b.t) m == Len(w) IN
    [j \in 1..(m - 1) |-> [t |-> w[j + 1], x |-> [l \in DOMAIN a.x |-> RAdd(a.x[l], RMul(Norm(j, m), RSub(b.x[l], a.x[l])))], ix |-> [data_loss |-> One]]]
RECURSIVE Contiguous(_, _)
Contiguous(o, s) == IF Len(s) < 2 THEN s ELSE <<s[1]>> \o Between(o, s[1], s[2]) \o Contiguous(o, Tail(s))
Result(f, o) == IF o.slots THEN Contiguous(o, Kept(f, o)) ELSE Kept(f, o)
=============================================================================
