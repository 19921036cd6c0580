----------------------------- MODULE Container ------------------------------
(* The series container: an ordered, uniform list of points or slots, changed  *)
(* only through its mutating methods.  A state is                               *)
(*   [cls, tz, items]    cls   "TimeSeries" | "Series"                          *)
(*                       tz    <<>> or <<zone>>: the zone given to or acquired   *)
(*                             by the series (sticky)                            *)
(*                       items sequence of items                                 *)
(* An item is [k, t, e, u, tz, ty, sh, v, ix]: kind, instant, end (slots), unit *)
(* (slots), zone, data type, data labels (or "#n" for a list of n), data value, *)
(* indexes.  Everything else (resolution, sampling interval, item type, labels) *)
(* is a function of the state, so it cannot depend on how the state was reached.*)
EXTENDS Integers, Sequences, FiniteSets, TLC

TimePoints == {"TimePoint", "DataTimePoint"}
TimeSlots  == {"TimeSlot", "DataTimeSlot"}
Slots      == TimeSlots \cup {"DataSlot", "Slot"}
TimeItems  == TimePoints \cup TimeSlots
HasData(k) == k \in {"DataTimePoint", "DataTimeSlot", "DataPoint", "DataSlot"}
IsSlot(x)  == x.k \in Slots

\* kinds that a series whose first item is of kind k accepts
Compatible(k, j) == \/ k = j
                    \/ k = "TimePoint" /\ j = "DataTimePoint"
                    \/ k = "TimeSlot"  /\ j = "DataTimeSlot"

SameShape(x, y) == x.ty = y.ty /\ x.sh = y.sh
Follows(y, x) == IF IsSlot(x) THEN y.t = x.e ELSE y.t > x.t      \* y directly after x

\* ---- the guarantee -----------------------------------------------------------------
OkPair(cls, x, y) == /\ Compatible(x.k, y.k)
                /\ Follows(y, x)
                /\ (HasData(x.k) => SameShape(x, y))
                /\ ((x.k \in TimeSlots /\ cls = "TimeSeries") => x.u = y.u /\ x.tz = y.tz)
WellFormed(cls, items) == /\ \A i \in 1..(Len(items) - 1) : OkPair(cls, items[i], items[i + 1])
                          /\ \A i \in 1..Len(items) : Compatible(items[1].k, items[i].k)
Admits(st, items) ==
    /\ WellFormed(st.cls, items)
    /\ st.cls = "TimeSeries" => \A i \in 1..Len(items) : items[i].k \in TimeItems
    /\ (st.cls = "TimeSeries" /\ st.tz # <<>>) =>
            \A i \in 1..Len(items) : items[i].k \in TimeSlots => items[i].tz = st.tz[1]
SeriesTz(st, items) == IF st.tz = <<>> /\ st.cls = "TimeSeries" /\ items # <<>> /\ items[1].k \in TimeSlots
                       THEN <<items[1].tz>> ELSE st.tz

\* ---- derived observations ------------------------------------------------------------
Diffs(items) == [i \in 1..(Len(items) - 1) |-> items[i + 1].t - items[i].t]
\* the resolution: <<>> undefined, <<"variable">>, <<unit>> for slots, <<"#", d>> spacing of points
Resolution(st) ==
    LET items == st.items IN
    IF items = <<>> THEN <<>>
    ELSE IF IsSlot(items[1]) THEN <<items[1].u>>
    ELSE IF Len(items) = 1 THEN <<>>
    ELSE IF \A d \in {Diffs(items)[i] : i \in 1..(Len(items) - 1)} : d = Diffs(items)[1]
         THEN <<"#" \o ToString(Diffs(items)[1])>> ELSE <<"variable">>
Range(s) == {s[i] : i \in 1..Len(s)}
Occurrences(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
FirstAt(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x
\* most frequent spacing, the earliest on ties; <<>> if almost all spacings differ
SamplingInterval(items) ==
    LET d == Diffs(items) IN
    IF 100 * Cardinality(Range(d)) > 95 * Len(items) THEN <<>>
    ELSE << CHOOSE x \in Range(d) : \A y \in Range(d) :
              \/ Occurrences(d, x) > Occurrences(d, y)
              \/ Occurrences(d, x) = Occurrences(d, y) /\ FirstAt(d, x) <= FirstAt(d, y) >>
ItemsTz(items) == IF items = <<>> THEN <<>>
                  ELSE IF \A i \in 1..Len(items) : items[i].tz = items[1].tz THEN <<items[1].tz>> ELSE <<"UTC">>
ObservedTz(st) == IF st.tz # <<>> THEN st.tz ELSE ItemsTz(st.items)

\* ---- operations: each yields [ok, st, ret] -----------------------------------------------
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))       \* i items before x
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(st, items) == [st EXCEPT !.items = items, !.tz = SeriesTz(st, items)]
Result(ok, st, items) == [ok |-> ok, st |-> IF ok THEN With(st, items) ELSE st]
Norm(i, n) == IF i < 0 THEN n + i ELSE i

Append_(st, x) == LET items == Append(st.items, x) IN Result(Admits(st, items), st, items)
Insert_(st, i, x) ==
    LET n == Len(st.items) p == IF n = 0 THEN 0 ELSE Norm(i, n)        \* any position of an empty series
        items == InsertAt(st.items, p, x)
    IN IF p < 0 \/ p > n THEN Result(FALSE, st, <<>>) ELSE Result(Admits(st, items), st, items)
Pop_(st, i) ==                                                       \* i a position
    LET n == Len(st.items) p == Norm(i, n) IN
    IF p < 0 \/ p >= n THEN Result(FALSE, st, <<>>)
    ELSE LET items == RemoveAt(st.items, p + 1) IN Result(WellFormed(st.cls, items), st, items)
\* removal of the first equal item; not offered for items in succession
Remove_(st, x) ==
    LET same(y) == y.t = x.t /\ y.v = x.v /\ y.sh = x.sh /\ y.ty = x.ty
        idx == {i \in 1..Len(st.items) : same(st.items[i])}
    IN IF idx = {} \/ (st.items # <<>> /\ IsSlot(st.items[1])) THEN Result(FALSE, st, <<>>)
       ELSE Result(TRUE, st, RemoveAt(st.items, CHOOSE i \in idx : \A j \in idx : i <= j))
Clear_(st) == Result(TRUE, st, <<>>)
Clip(i, n) == LET p == Norm(i, n) IN IF p < 0 THEN 0 ELSE IF p > n THEN n ELSE p
Sub(items, a, b) == LET n == Len(items) IN SubSeq(items, Clip(a, n) + 1, Clip(b, n))
Fresh(st) == [cls |-> st.cls, tz |-> <<>>, items |-> <<>>]
\* replacing the series by its duplicate or by one of its slices
Duplicate_(st) == Result(TRUE, st, st.items)
Slice_(st, a, b) == IF st.items = <<>> /\ st.cls = "TimeSeries" THEN Result(FALSE, st, <<>>)    \* refused on empty time series
                    ELSE Result(TRUE, Fresh(st), Sub(st.items, a, b))
\* labels: sh is the sequence of labels (sorted); renaming and removing act on every item
HasLabel(st, l) == st.items # <<>> /\ st.items[1].ty = "dict" /\ l \in Range(st.items[1].sh)
SetToSorted(S, order) == SelectSeq(order, LAMBDA l : l \in S)
Relabel(st, S, order) == [i \in 1..Len(st.items) |-> [st.items[i] EXCEPT !.sh = SetToSorted(S, order)]]
Rename_(st, l, m, order) ==
    IF st.items = <<>> THEN Result(TRUE, st, <<>>)
    ELSE IF ~HasLabel(st, l) THEN Result(FALSE, st, <<>>)
    ELSE Result(TRUE, st, Relabel(st, (Range(st.items[1].sh) \ {l}) \cup {m}, order))
RemoveLabel_(st, l, order) ==
    IF st.items = <<>> THEN Result(TRUE, st, <<>>)
    ELSE IF st.items[1].ty # "dict" THEN Result(FALSE, st, <<>>)
    ELSE Result(TRUE, st, Relabel(st, Range(st.items[1].sh) \ {l}, order))
ChangeTz_(st, z) ==
    LET items == [i \in 1..Len(st.items) |-> [st.items[i] EXCEPT !.tz = z]]
    IN [ok |-> TRUE, st |-> [st EXCEPT !.items = items, !.tz = <<z>>]]

LabelOrder == <<"a", "b", "c", "d">>
Apply(st, o) ==
    CASE o.op = "append"  -> Append_(st, o.x)
      [] o.op = "insert"  -> Insert_(st, o.i, o.x)
      [] o.op = "pop"     -> IF o.i = 9999 THEN Pop_(st, -1) ELSE Pop_(st, o.i)
      [] o.op = "remove"  -> Remove_(st, o.x)
      [] o.op = "clear"   -> Clear_(st)
      [] o.op = "dup"     -> Duplicate_(st)
      [] o.op = "slice"   -> Slice_(st, o.i, o.j)
      [] o.op = "rename"  -> Rename_(st, o.l, o.m, LabelOrder)
      [] o.op = "rmlabel" -> RemoveLabel_(st, o.l, LabelOrder)
      [] o.op = "changetz" -> IF st.items = <<>> THEN Result(TRUE, st, <<>>) ELSE ChangeTz_(st, o.l)
      [] o.op = "look"    -> Result(TRUE, st, st.items)
=============================================================================
