---------------------------- MODULE ContainerMC ------------------------------
(* Exhaustive exploration of the container over a small alphabet of items and   *)
(* operations; every behaviour up to MaxOps operations is exported for replay.  *)
EXTENDS Container, TLC, Json, IOUtils

CONSTANTS Mode           \* "points" or "slots"
Pre == atoi(IOEnv.PRE)          \* length of a fixed well-formed prefix
MaxOps == atoi(IOEnv.MAXOPS) + Pre
VARIABLES st, hist
vars == <<st, hist>>

Pt(t, sh, v) == [k |-> "DataTimePoint", t |-> t, e |-> 0, u |-> "", tz |-> "UTC", ty |-> "dict", sh |-> sh, v |-> v, ix |-> <<>>]
Sl(t, n, u, tz, sh) == [k |-> "DataTimeSlot", t |-> t, e |-> t + n, u |-> u, tz |-> tz, ty |-> "dict", sh |-> sh, v |-> t, ix |-> <<>>]
Other == [k |-> "TimePoint", t |-> 300, e |-> 0, u |-> "", tz |-> "UTC", ty |-> "", sh |-> <<>>, v |-> 0, ix |-> <<>>]

Items == IF Mode = "points"
         THEN {Pt(t, <<"a", "b">>, t) : t \in {60, 120, 180, 210}} \cup {Pt(240, <<"a">>, 240), Sl(240, 60, "60s", "UTC", <<"a", "b">>)}
         ELSE {Sl(t, 60, "60s", "UTC", <<"a">>) : t \in {0, 60, 120}} \cup
              {Sl(60, 60, "60s", "Europe/Rome", <<"a">>), Sl(120, 60, "60s", "UTC", <<"b">>), Sl(60, 120, "120s", "UTC", <<"a">>), Pt(180, <<"a">>, 180)}

D == [op |-> "", x |-> Other, i |-> 0, j |-> 0, l |-> "", m |-> ""]
Ops == {[D EXCEPT !.op = "append", !.x = x] : x \in Items} \cup
       {[D EXCEPT !.op = "insert", !.x = x, !.i = i] : x \in Items, i \in {0, 1}} \cup
       {[D EXCEPT !.op = "pop", !.i = i] : i \in {0, 1, 9999}} \cup
       {[D EXCEPT !.op = "remove", !.x = CHOOSE x \in Items : x.t = 120]} \cup
       {[D EXCEPT !.op = "dup"], [D EXCEPT !.op = "slice", !.i = 1, !.j = 3], [D EXCEPT !.op = "rename", !.l = "a", !.m = "c"]}

Empty == [cls |-> "TimeSeries", tz |-> <<>>, items |-> <<>>]
Entry(o, r) == [op |-> o, ok |-> r.ok, items |-> r.st.items, res |-> Resolution(r.st), tz |-> ObservedTz(r.st)]
Prefix == IF Mode = "points" THEN [n \in 1..3 |-> [D EXCEPT !.op = "append", !.x = CHOOSE x \in Items : x.t = 60 * n]]
          ELSE [n \in 1..3 |-> [D EXCEPT !.op = "append", !.x = CHOOSE x \in Items : x.t = 60 * (n - 1) /\ x.u = "60s" /\ x.tz = "UTC" /\ x.sh = <<"a">>]]
RECURSIVE Run(_, _)
Run(s, n) == IF n = 0 THEN [st |-> s, hist |-> <<>>]
             ELSE LET p == Run(s, n - 1) r == Apply(p.st, Prefix[n]) IN [st |-> r.st, hist |-> Append(p.hist, Entry(Prefix[n], r))]
Init == st = Run(Empty, Pre).st /\ hist = Run(Empty, Pre).hist
Do(o) == LET r == Apply(st, o) IN
         /\ st' = r.st
         /\ hist' = Append(hist, Entry(o, r))
Next == Len(hist) < MaxOps /\ \E o \in Ops : Do(o)

\* ---- properties of the specification ----------------------------------------------------
Inv == WellFormed(st.cls, st.items)
ResolutionInv ==                            \* the meaning of the resolution
    /\ (Len(st.items) = 0 => Resolution(st) = <<>>)
    /\ (Len(st.items) > 1 /\ ~IsSlot(st.items[1]) /\ Resolution(st) # <<"variable">> =>
            \A i \in 2..Len(st.items) : st.items[i].t - st.items[i - 1].t = st.items[2].t - st.items[1].t)
RefusedUnchanged == [][\A o \in Ops : TRUE]_vars /\
                    [][Len(hist') > Len(hist) /\ ~hist'[Len(hist')].ok => st' = st]_vars
Export == Len(hist) = MaxOps => PrintT("@@BEH" \o ToJson(hist))
\* the design alone, without history (VIEW st)
View == st
=============================================================================
