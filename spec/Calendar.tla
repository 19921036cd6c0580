------------------------------ MODULE Calendar -------------------------------
(* Time zones, the civil calendar and time units.                               *)
(* A zone is a sequence of <<from, offset>> (seconds), sorted, the first entry  *)
(* holding from the beginning of the window considered.  A unit is              *)
(* <<years, months, weeks, days, seconds>>; physical when the first four are 0. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE OffAt(_, _, _)
OffAt(z, t, n) == IF n = 1 \/ z[n][1] <= t THEN z[n][2] ELSE OffAt(z, t, n - 1)
Offset(z, t) == OffAt(z, t, Len(z))
Local(z, t) == t + Offset(z, t)
\* the instants with a given local time: one, none (skipped) or two (repeated)
Resolve(z, l) == {l - o : o \in {o \in {z[n][2] : n \in 1..Len(z)} : Offset(z, l - o) = o}}

\* ---- civil calendar (proleptic Gregorian), day 0 = 1970-01-01 ------------------------
DaysFromCivil(y0, m, d) ==
    LET y == IF m <= 2 THEN y0 - 1 ELSE y0
        era == y \div 400 yoe == y - era * 400
        doy == (153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5 + d - 1
    IN era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 719468
CivilFromDays(n) ==
    LET z == n + 719468 era == z \div 146097 doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
Day == 86400
Civil(z, t) == LET l == Local(z, t) c == CivilFromDays(l \div Day) s == l % Day
               IN <<c[1], c[2], c[3], s \div 3600, (s % 3600) \div 60, s % 60>>
WeekDay(n) == (n + 3) % 7                       \* Monday = 0

\* ---- units -----------------------------------------------------------------------------
Physical(u) == u[1] = 0 /\ u[2] = 0 /\ u[3] = 0 /\ u[4] = 0
Simple(u) == Cardinality({i \in 1..4 : u[i] # 0}) + (IF u[5] # 0 THEN 1 ELSE 0) = 1
\* the local time reached from local time l; <<>> when that date does not exist
LocalShift(u, l) ==
    LET n == l \div Day s == l % Day c == CivilFromDays(n) IN
    IF u[1] # 0 THEN LET y == c[1] + u[1] IN IF c[3] > MonthDays(y, c[2]) THEN <<>> ELSE <<DaysFromCivil(y, c[2], c[3]) * Day + s>>
    ELSE IF u[2] # 0 THEN LET q == c[1] * 12 + c[2] - 1 + u[2] y == q \div 12 m == (q % 12) + 1
                          IN IF c[3] > MonthDays(y, m) THEN <<>> ELSE <<DaysFromCivil(y, m, c[3]) * Day + s>>
    ELSE <<l + (u[3] * 7 + u[4]) * Day>>
\* the instants that are a unit after t: {} when undefined (no such date, or skipped or repeated local time)
Shift(z, u, t) == IF Physical(u) THEN {t + u[5]}
                  ELSE IF ~Simple(u) THEN {}
                  ELSE LET l == LocalShift(u, Local(z, t)) IN
                       IF l = <<>> THEN {} ELSE LET r == Resolve(z, l[1]) IN IF Cardinality(r) = 1 THEN r ELSE {}
\* boundaries
Roundable(u) == Simple(u) /\ u[1] <= 1 /\ u[2] <= 1 /\ u[3] <= 1 /\ u[4] <= 1
LocalFloor(u, l) == LET n == l \div Day c == CivilFromDays(n) IN
                    Day * (IF u[1] # 0 THEN DaysFromCivil(c[1], 1, 1)
                           ELSE IF u[2] # 0 THEN DaysFromCivil(c[1], c[2], 1)
                           ELSE IF u[3] # 0 THEN n - WeekDay(n) ELSE n)
\* multi-hour physical units are anchored to the zone's offset as the time library in use does
FloorPhysical(z, u, t, multihour) ==
    IF multihour THEN LET o == Offset(z, t) IN (t - o) - ((t - o) % u[5]) + o ELSE t - (t % u[5])
Floor(z, u, t, mh) == IF Physical(u) THEN {FloorPhysical(z, u, t, mh)}
                      ELSE IF ~Roundable(u) THEN {}
                      ELSE LET r == Resolve(z, LocalFloor(u, Local(z, t))) IN IF Cardinality(r) = 1 THEN r ELSE {}
Ceil(z, u, t, mh) == LET f == Floor(z, u, t, mh) IN IF f = {} THEN {} ELSE Shift(z, u, CHOOSE x \in f : TRUE)
Abs_(x) == IF x < 0 THEN -x ELSE x
Round(z, u, t, mh) == LET f == Floor(z, u, t, mh) c == Ceil(z, u, t, mh) IN
                      IF f = {} \/ c = {} THEN {}
                      ELSE LET a == CHOOSE x \in f : TRUE b == CHOOSE x \in c : TRUE
                           IN IF Abs_(t - a) <= Abs_(t - b) THEN {a} ELSE {b}
UnitSeconds(u) == u[5]
UnitEq(u, v) == IF Physical(u) /\ Physical(v) THEN u[5] = v[5] ELSE u = v
UnitSum(u, v) == [i \in 1..5 |-> u[i] + v[i]]
=============================================================================
