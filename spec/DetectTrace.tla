------------------------------ MODULE DetectTrace ------------------------------
(* Recorded detections against the specification.                                *)
EXTENDS Detect, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES k, i
Init == k \in 1..Len(Trace) /\ i = 0
IntervalBad(s) ==
    IF ~Detectable(s.t) THEN (IF s.err = "" THEN {"accepted"} ELSE {})
    ELSE IF Interval(s.t) = Zero THEN {}        \* spacings rounding to no seconds at all: nothing is told
    ELSE IF s.err # "" THEN {"refused"}
    ELSE (IF s.v # Interval(s.t) THEN {"sampling-interval"} ELSE {}) \cup
         (IF s.conf # Confidence(s.t) THEN {"confidence"} ELSE {}) \cup
         (IF s.guess # <<>> /\ s.guess # <<Interval(s.t), Confidence(s.t)>> THEN {"guessed-resolution"} ELSE {})
\* where two components are involved whether one is passed over goes by the noise, and without any nothing is told
\* (nor for a component exactly ten times as fast, or steps of strength exactly one to three)
Uncertain(n, sp) == LET pk == Ranked(sp, Peaks(n, sp)) IN \/ Len(pk) = 2 /\ PassedOver(n, sp, pk, 1)
                                                         \/ \E r \in 1..(Len(pk) - 1) : \/ pk[r + 1] = 10 * pk[r]
                                                                                      \/ 3 * (Height(sp, pk, r) - Height(sp, pk, r + 1)) = Height(sp, pk, r + 1) - Height(sp, pk, r + 2)
PeriodBad(s) ==
    LET open(j) == Periodicity(s.n, s.sp[j]) = 0 \/ Uncertain(s.n, s.sp[j]) IN
    IF s.err # "" THEN (IF \E j \in 1..Len(s.sp) : open(j) THEN {} ELSE {"refused"})
    ELSE IF \E j \in 1..Len(s.sp) : ~open(j) /\ s.p[j] # Periodicity(s.n, s.sp[j]) THEN {"periodicity"} ELSE {}
Bad(s) == IF s.op = "interval" THEN IntervalBad(s) ELSE PeriodBad(s)
Step == /\ i < Len(Trace[k].steps)
        /\ LET s == Trace[k].steps[i + 1] bad == Bad(s) IN
           IF bad = {} THEN i' = i + 1
           ELSE /\ PrintT("@@BAD" \o ToJson([k |-> k, i |-> i + 1, bad |-> bad, site |-> s.op,
                     exp |-> IF s.op = "interval" THEN (IF Detectable(s.t) THEN <<Interval(s.t), Confidence(s.t)>> ELSE <<>>)
                             ELSE [j \in 1..Len(s.sp) |-> Periodicity(s.n, s.sp[j])]]))
                /\ i' = Len(Trace[k].steps) + 1
        /\ k' = k
Next == Step
=============================================================================
