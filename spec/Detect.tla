--------------------------------- MODULE Detect ---------------------------------
(* What is detected from a series: its sampling interval, and its periodicity.    *)
EXTENDS Rat
\* ---- the sampling interval -------------------------------------------------------------------
\* t: the instants, in quarters of a second
Spacings(t) == [j \in 1..(Len(t) - 1) |-> t[j + 1] - t[j]]
Times(q, v) == Cardinality({j \in 1..Len(q) : q[j] = v})
Distinct(q) == Cardinality({q[j] : j \in 1..Len(q)})
\* to whole seconds (halves to the even one)
Rounded(q) == LET s == q \div 4 r == q % 4 IN IF r < 2 THEN 4 * s ELSE IF r > 2 \/ s % 2 = 1 THEN 4 * (s + 1) ELSE 4 * s
\* too many different spacings: more than 95% of the items
Spread(q, n) == 20 * Distinct(q) > 19 * n
Considered(t) == LET q == Spacings(t) IN IF Spread(q, Len(t)) THEN [j \in 1..Len(q) |-> Rounded(q[j])] ELSE q
Detectable(t) == Len(t) > 1 /\ ~Spread(Considered(t), Len(t))
\* the most frequent, the first seen on ties
MostFrequent(q) == LET best == CHOOSE i \in 1..Len(q) : /\ \A j \in 1..Len(q) : Times(q, q[j]) <= Times(q, q[i])
                                                        /\ \A j \in 1..(i - 1) : Times(q, q[j]) < Times(q, q[i])
                   IN q[best]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Interval(t) == Norm(MostFrequent(Considered(t)), 4)
\* how much more frequent than the second
Confidence(t) == LET q == Considered(t) m == MostFrequent(q) others == {Times(q, q[j]) : j \in {j \in 1..Len(q) : q[j] # m}}
                 IN IF others = {} THEN One ELSE RSub(One, Norm(MaxOf(others), Times(q, m)))
\* ---- the periodicity ----------------------------------------------------------------------------
\* n: the number of items; sp: the amplitudes of the components of 0, 1, 2... cycles over the whole series
\* (different from each other where not zero); the last one of them is not considered
HalfEven(a, b) == LET q == a \div b r == a % b IN IF 2 * r < b THEN q ELSE IF 2 * r > b \/ q % 2 = 1 THEN q + 1 ELSE q
Middle(n) == HalfEven(n, 2)
Amp(sp, j) == IF j + 1 <= Len(sp) THEN sp[j + 1] ELSE 0
Peaks(n, sp) == {j \in 1..(Middle(n) - 2) : Amp(sp, j) > Amp(sp, j - 1) /\ Amp(sp, j) > Amp(sp, j + 1)}
RECURSIVE Ranked(_, _)
Ranked(sp, P) == IF P = {} THEN <<>> ELSE LET m == CHOOSE j \in P : \A i \in P : Amp(sp, i) <= Amp(sp, j) IN <<m>> \o Ranked(sp, P \ {m})
\* a slow component is passed over if a much faster one is nearly as strong, and the others are not
Height(sp, pk, r) == IF r <= Len(pk) THEN Amp(sp, pk[r]) ELSE 0
PassedOver(n, sp, pk, r) == /\ r < Len(pk)
                            /\ 3 * (Height(sp, pk, r) - Height(sp, pk, r + 1)) < Height(sp, pk, r + 1) - Height(sp, pk, r + 2)
                            /\ pk[r + 1] > 10 * pk[r] /\ pk[r] < 10
Chosen(n, sp) == LET pk == Ranked(sp, Peaks(n, sp)) ok == {r \in 1..Len(pk) : ~PassedOver(n, sp, pk, r)}
                 IN IF ok = {} THEN 0 ELSE pk[CHOOSE r \in ok : \A s \in ok : r <= s]
\* 0: none can be detected
Periodicity(n, sp) == LET j == Chosen(n, sp) IN IF j = 0 THEN 0 ELSE HalfEven(n, j)
=============================================================================
