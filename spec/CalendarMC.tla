------------------------------ MODULE CalendarMC ------------------------------
(* The laws of the calendar on every day of 1970..2037, and of shifting and       *)
(* rounding on every half hour around daylight saving changes; then a point      *)
(* moved by every sequence of units, exported for replay on the real classes.     *)
EXTENDS Calendar, Json, IOUtils
MaxOps == atoi(IOEnv.MAXOPS)
Rome == << <<0, 7200>>, <<1540688400, 3600>>, <<1553994000, 7200>>, <<1572138000, 3600>>, <<1585443600, 7200>>, <<1603587600, 3600>>, <<1616893200, 7200>>, <<1635642000, 3600>>, <<1648342800, 7200>>, <<1667091600, 3600>>, <<1679792400, 7200>>, <<1698541200, 3600>>, <<1711846800, 7200>>, <<1729990800, 3600>>, <<1743296400, 7200>> >>
NewYork == << <<0, -14400>>, <<1541311200, -18000>>, <<1552201200, -14400>>, <<1572760800, -18000>>, <<1583650800, -14400>>, <<1604210400, -18000>>, <<1615705200, -14400>>, <<1636264800, -18000>>, <<1647154800, -14400>>, <<1667714400, -18000>>, <<1678604400, -14400>>, <<1699164000, -18000>>, <<1710054000, -14400>>, <<1730613600, -18000>>, <<1741503600, -14400>> >>
Kolkata == << <<0, 19800>> >>
Zones == [r |-> Rome, n |-> NewYork, k |-> Kolkata]
ASSUME \A n \in 0..24836 : LET c == CivilFromDays(n) IN
        /\ DaysFromCivil(c[1], c[2], c[3]) = n
        /\ c[2] \in 1..12 /\ c[3] \in 1..MonthDays(c[1], c[2])
        /\ (n > 0 => CivilFromDays(n - 1) # c)
U == [y |-> <<1, 0, 0, 0, 0>>, mo |-> <<0, 1, 0, 0, 0>>, w |-> <<0, 0, 1, 0, 0>>, d |-> <<0, 0, 0, 1, 0>>, h |-> <<0, 0, 0, 0, 3600>>, d24 |-> <<0, 0, 0, 0, 86400>>]
Around == {1553994000 + 1800 * i : i \in -150..150} \cup {1572138000 + 1800 * i : i \in -150..150} \cup {1577833200 + 1800 * i : i \in -60..60}
Only(S) == CHOOSE x \in S : TRUE
\* flooring is idempotent, at or before; the boundary after is strictly after and is one unit later
ASSUME \A zn \in DOMAIN Zones : \A un \in DOMAIN U : \A t \in Around :
        LET z == Zones[zn] u == U[un] f == Floor(z, u, t, FALSE) c == Ceil(z, u, t, FALSE) IN
        (f # {} /\ c # {}) => /\ Only(f) <= t /\ t < Only(c)
                              /\ Floor(z, u, Only(f), FALSE) = f
                              /\ Floor(z, u, Only(c), FALSE) = c
                              /\ Only(Round(z, u, t, FALSE)) \in {Only(f), Only(c)}
\* local times: every instant resolves to itself
ASSUME \A zn \in DOMAIN Zones : \A t \in Around : t \in Resolve(Zones[zn], Local(Zones[zn], t))
\* a day is 23, 24 or 25 hours, and 24 hours are not a day when it is not
ASSUME {Only(Shift(Rome, U.d, Only(f))) - Only(f) : f \in {Floor(Rome, U.d, t, FALSE) : t \in Around}} = {82800, 86400, 90000}

VARIABLES t, z, hist
Starts == {1553900400, 1553986800 + 1800, 1572127200, 1577833200, 1580425200, 1551394800}
Init == t \in Starts /\ z \in DOMAIN Zones /\ hist = <<[op |-> "at", u |-> "", ok |-> TRUE, t |-> t, z |-> z]>>
Move(k, un) == LET r == IF k = "shift" THEN Shift(Zones[z], U[un], t) ELSE IF k = "floor" THEN Floor(Zones[z], U[un], t, FALSE) ELSE Ceil(Zones[z], U[un], t, FALSE)
               IN /\ t' = IF r = {} THEN t ELSE Only(r)
                  /\ hist' = Append(hist, [op |-> k, u |-> un, ok |-> r # {}, t |-> t', z |-> z]) /\ z' = z
Next == Len(hist) <= MaxOps /\ \E un \in DOMAIN U : \E k \in {"shift", "floor", "ceil"} : Move(k, un)
Export == Len(hist) = MaxOps + 1 => PrintT("@@BEH" \o ToJson(hist))
=============================================================================
