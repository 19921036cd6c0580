-------------------------------- MODULE DetectMC --------------------------------
EXTENDS Detect, Json, IOUtils, TLC
N == atoi(IOEnv.N)
VARIABLES t, sp, phase
Gaps == {2, 4, 5, 8}
Size == 24
Amps == {0, 2, 7, 8, 11}
Init == \/ t = <<0>> /\ sp = <<>> /\ phase = "interval"
        \/ t = <<>> /\ sp \in {<<0>>, <<6>>} /\ phase = "period"
Next == \/ phase = "interval" /\ Len(t) <= N /\ \E g \in Gaps : t' = Append(t, t[Len(t)] + g) /\ UNCHANGED <<sp, phase>>
        \/ phase = "period" /\ Len(sp) < 13 /\ UNCHANGED <<t, phase>>
           /\ \E a \in Amps : /\ (a # 0 => \A j \in 1..Len(sp) : sp[j] # a)
                              /\ (Cardinality({j \in 2..Len(sp) : sp[j] # 0}) >= N - 3 => a = 0)
                              /\ sp' = Append(sp, a)
\* ---- laws ----------------------------------------------------------------------------------------
Reverse(q) == [j \in 1..Len(q) |-> q[Len(q) + 1 - j]]
IntervalLaws == (phase = "interval" /\ Len(t) > 1) =>
    /\ \E j \in 1..(Len(t) - 1) : Norm(t[j + 1] - t[j], 4) = Interval(t)
    /\ RLe(Zero, Confidence(t)) /\ RLe(Confidence(t), One)
    /\ (Distinct(Spacings(t)) = 1) <=> (Confidence(t) = One)
    /\ (2 * Times(Spacings(t), MostFrequent(Spacings(t))) > Len(t) - 1 + 1) => RLt(Zero, Confidence(t))
    \* a moved series has the same one
    /\ Interval([j \in 1..Len(t) |-> t[j] + 100]) = Interval(t)
PeriodLaws == phase = "period" =>
    LET ks == {j \in 1..Len(sp) : Amp(sp, j) # 0} inner == {j \in ks : j <= Middle(Size) - 2} p == Periodicity(Size, sp) IN
    /\ p # 0 => \E j \in inner : p = HalfEven(Size, j)
    \* only one component (of two cycles at least): it is found, whatever the offset
    /\ \A j \in inner : (ks = {j} /\ j > 1) => p = HalfEven(Size, j)
    /\ inner = {} => p = 0
    \* the size of the signal does not matter
    /\ Periodicity(Size, [j \in 1..Len(sp) |-> 3 * sp[j]]) = p
    \* a component that dominates is found
    /\ \A j \in inner : (j > 1 /\ \A i \in (ks \cup {0}) \ {j} : 2 * Amp(sp, i) <= Amp(sp, j)) => p = HalfEven(Size, j)
Laws == IntervalLaws /\ PeriodLaws
Export == IF phase = "interval" THEN Len(t) > 1 => PrintT("@@BEH" \o ToJson([op |-> "interval", t |-> t]))
          ELSE Len(sp) = 13 => PrintT("@@BEH" \o ToJson([op |-> "period", n |-> Size, sp |-> sp]))
=============================================================================
