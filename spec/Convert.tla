------------------------------- MODULE Convert -------------------------------
(* What dictionaries, JSON texts and data frames carry of a series.                  *)
(* A series is [kind, unit, zone, cls, items]: kind "points" or "slots", cls "dict"  *)
(* or "list" (what the data of the items is), items a sequence of                    *)
(*   [t, e, x, l]: when (and until when, slots), [label -> value], loss (<<>> or      *)
(*   <<value>>).  Times are positions in the list of all those that matter (after[z]  *)
(*   gives the one at which the slot starting there ends, in the zone z); lists have  *)
(*   "0", "1"... as labels.                                                           *)
(* A carrier is [form, zone, entries, columns, freq]: entries a sequence of           *)
(*   [t, x, cls, l]; zone is "" if it carries none; a frame also has columns (a set)  *)
(*   and the frequency one can see in its index.                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Base(s) == [t |-> s.t, x |-> s.x]
Lossy(s) == \E j \in 1..Len(s.items) : s.items[j].l # <<>>
Labels(s) == DOMAIN s.items[1].x
AsDict(s) == [form |-> "dict", zone |-> s.zone, columns |-> {}, entries |-> [j \in 1..Len(s.items) |-> [t |-> s.items[j].t, x |-> s.items[j].x, cls |-> s.cls, l |-> <<>>]]]
AsJson(s) == [AsDict(s) EXCEPT !.form = "json", !.zone = ""]
AsDf(s) == [form |-> "df", zone |-> s.zone, columns |-> Labels(s) \cup (IF Lossy(s) THEN {"data_loss"} ELSE {}),
            entries |-> [j \in 1..Len(s.items) |-> [t |-> s.items[j].t, x |-> s.items[j].x, cls |-> "dict", l |-> s.items[j].l]]]
To(form, s) == CASE form = "dict" -> AsDict(s) [] form = "json" -> AsJson(s) [] form = "df" -> AsDf(s)
\* ---- and back -------------------------------------------------------------------------------------------
\* bare values get "value" as their label (cls is "bare", the label is already that)
Class(e) == IF e.cls = "bare" THEN "dict" ELSE e.cls
Zone(c) == IF c.zone = "" THEN "UTC" ELSE c.zone
SameData(es) == \A j \in 1..Len(es) : DOMAIN es[j].x = DOMAIN es[1].x /\ Class(es[j]) = Class(es[1])
Increasing(es) == \A j \in 1..(Len(es) - 1) : es[j].t < es[j + 1].t
Contiguous(es, aft) == \A j \in 1..(Len(es) - 1) : es[j + 1].t = aft[es[j].t]
\* asked: "auto", "points" or "slots"; unit: the one asked for, or ""
KindOf(c, asked, unit) == CASE c.form # "df" -> IF unit # "" THEN "slots" ELSE "points"
                            [] asked # "auto" -> asked
                            [] OTHER -> IF c.freq.calendar THEN "slots" ELSE "points"
UnitOf(c, asked, unit) == IF KindOf(c, asked, unit) = "points" THEN "" ELSE IF c.form = "df" THEN c.freq.unit ELSE unit
MayCome(c, asked, unit, aft) ==
    /\ c.entries # <<>> => SameData(c.entries) /\ Increasing(c.entries)
    /\ (c.form = "df" /\ asked = "slots") => c.freq.unit # ""
    /\ (c.form = "df" /\ asked = "points") => ~c.freq.calendar
    /\ KindOf(c, asked, unit) = "slots" => Contiguous(c.entries, aft)
From(c, asked, unit, aft) ==
    LET k == KindOf(c, asked, unit) IN
    [kind |-> k, unit |-> UnitOf(c, asked, unit), zone |-> Zone(c), cls |-> IF c.entries = <<>> THEN "dict" ELSE Class(c.entries[1]),
     items |-> [j \in 1..Len(c.entries) |-> [t |-> c.entries[j].t, e |-> IF k = "slots" THEN aft[c.entries[j].t] ELSE 0, x |-> c.entries[j].x, l |-> c.entries[j].l]]]
=============================================================================
