------------------------------ MODULE ConvertMC ------------------------------
(* Every small series through every chain of conversions.  Slots have a unit of     *)
(* which the boundaries are 1, 2, 3, 4... in UTC, but not in the other zone.          *)
EXTENDS Convert, Json, IOUtils
MaxOps == atoi(IOEnv.N)
VARIABLES s0, cur, hist                         \* cur: [k |-> "series", v |-> ...], [k |-> "carrier", v |-> ...] or [k |-> "refused"]
After(z) == IF z = "UTC" THEN <<2, 3, 4, 5, 0>> ELSE <<2, 3, 5, 5, 0>>
Datas == {[x \in {"a"} |-> v] : v \in {"1", "2"}}
Items(ts, ls) == [j \in 1..Len(ts) |-> [t |-> ts[j], e |-> 0, x |-> [x \in {"a", "b"} |-> IF x = "a" THEN ToString(j) ELSE "7"], l |-> ls[j]]]
Points == {[kind |-> "points", unit |-> "", zone |-> z, cls |-> c, items |-> Items(ts, [j \in 1..3 |-> l])] :
           z \in {"UTC", "Z"}, c \in {"dict", "list"}, ts \in {<<1>>, <<1, 4>>, <<1, 2, 4>>, <<2, 3, 4>>}, l \in {<<>>, <<"0.5">>}}
Slots == {[kind |-> "slots", unit |-> "u", zone |-> z, cls |-> c, items |-> [j \in 1..n |-> [Items([i \in 1..n |-> i], [i \in 1..n |-> <<>>])[j] EXCEPT !.e = After(z)[j]]]] :
           z \in {"UTC", "Z"}, c \in {"dict", "list"}, n \in 1..3}
\* the frequency of a frame is seen with at least three consecutive boundaries
Freq(c) == LET ok == Len(c.entries) > 2 /\ Contiguous(c.entries, After(Zone(c))) IN [unit |-> IF ok THEN "u" ELSE "", calendar |-> ok]
Carry(form, s) == LET c == To(form, s) IN [c EXCEPT !.form = form] @@ [freq |-> IF form = "df" THEN Freq(c) ELSE [unit |-> "", calendar |-> FALSE]]
Init == s0 \in Points \cup Slots /\ cur = [k |-> "series", v |-> s0] /\ hist = <<>>
Next == /\ Len(hist) < MaxOps /\ UNCHANGED s0
        /\ \/ /\ cur.k = "series"
              /\ \E form \in {"dict", "json", "df"} : cur' = [k |-> "carrier", v |-> Carry(form, cur.v)] /\ hist' = Append(hist, [op |-> form, asked |-> "", unit |-> ""])
           \/ /\ cur.k = "carrier"
              /\ \E asked \in {"auto", "points", "slots"}, unit \in {"", "u"} :
                    /\ (cur.v.form # "df") => asked = "auto"
                    /\ (cur.v.form = "df") => unit = ""
                    /\ cur' = IF MayCome(cur.v, asked, unit, After(Zone(cur.v))) THEN [k |-> "series", v |-> From(cur.v, asked, unit, After(Zone(cur.v)))] ELSE [k |-> "refused", v |-> 0]
                    /\ hist' = Append(hist, [op |-> "from", asked |-> asked, unit |-> unit])
Bare(s) == [s EXCEPT !.items = [j \in 1..Len(s.items) |-> [s.items[j] EXCEPT !.l = <<>>]]]
Named(s) == [s EXCEPT !.cls = "dict"]
Laws ==
    /\ MayCome(Carry("dict", s0), "auto", s0.unit, After(s0.zone)) /\ From(Carry("dict", s0), "auto", s0.unit, After(s0.zone)) = Bare(s0)
    /\ s0.zone = "UTC" => MayCome(Carry("json", s0), "auto", s0.unit, After("UTC")) /\ From(Carry("json", s0), "auto", s0.unit, After("UTC")) = Bare(s0)
    /\ (s0.kind = "points" \/ Len(s0.items) > 2) /\ ~(s0.kind = "points" /\ Freq(Carry("df", s0)).calendar)
          => MayCome(Carry("df", s0), "auto", "", After(s0.zone)) /\ From(Carry("df", s0), "auto", "", After(s0.zone)) = Named(s0)
    \* whatever the chain, times, labels and values stay what they were
    /\ cur.k = "series" => [j \in 1..Len(cur.v.items) |-> Base(cur.v.items[j])] = [j \in 1..Len(s0.items) |-> Base(s0.items[j])]
    /\ cur.k = "carrier" => Len(cur.v.entries) = Len(s0.items)
Export == Len(hist) = MaxOps => PrintT("@@BEH" \o ToJson([kind |-> s0.kind, zone |-> s0.zone, cls |-> s0.cls, ts |-> [j \in 1..Len(s0.items) |-> s0.items[j].t], lossy |-> Lossy(s0), ops |-> hist]))
=============================================================================
