-------------------------------- MODULE Origin --------------------------------
(* What a series gives depends only on what it is made of, not on where it comes   *)
(* from.  A workspace is [objs, says]: objs the series, each one a sequence of items   *)
(* (what an item is does not matter here: equal items are equal numbers) on a time       *)
(* zone; says the answers given so far, a function from what was asked and of what,        *)
(* which is shared by all the series there are and have been.  A question may also be        *)
(* how the series would accept an item, or the series which an operation makes of it.          *)
EXTENDS Integers, Sequences, FiniteSets
Series(items, zone) == [items |-> items, zone |-> zone]
Empty == [objs |-> <<>>, says |-> [x \in {} |-> 0]]
About(s, q) == [of |-> s, q |-> q]
Said(w, s, q) == About(s, q) \in DOMAIN w.says
\* the answers a series may give: any, if nothing like it was asked the same before
Consistent(w, s, q, a) == Said(w, s, q) => w.says[About(s, q)] = a
Heard(w, s, q, a) == [w EXCEPT !.says = [x \in DOMAIN w.says \cup {About(s, q)} |-> IF x = About(s, q) THEN a ELSE w.says[x]]]
\* changes: what they are asked for decides what is there afterwards
Without(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
With(s, i, x) == [j \in 1..(Len(s) + 1) |-> IF j < i THEN s[j] ELSE IF j = i THEN x ELSE s[j - 1]]
Part(s, a, b) == [j \in 1..(b - a) |-> s[a + j]]
Change(items, c) == CASE c.op = "append" -> Append(items, c.x)
                      [] c.op = "pop" -> Without(items, c.i)
                      [] c.op = "insert" -> With(items, c.i, c.x)
                      [] c.op = "clear" -> <<>>
                      [] OTHER -> items
\* series made of the items of others
Made(items, c) == CASE c.op = "part" -> Part(items, c.a, c.b) [] OTHER -> items
New(w, s) == [w EXCEPT !.objs = Append(@, s)]
Set(w, o, s) == [w EXCEPT !.objs[o] = s]
=============================================================================
