-------------------------------- MODULE External -------------------------------
(* Models based on an engine of another library (Prophet, ARIMA, auto-ARIMA).       *)
(* The engine is a function of what it was fitted on and of what it is asked: the    *)
(* local times of the items ("clock" engines) or how many steps ahead ("steps"       *)
(* ones).  The function here tells different fits and questions apart.               *)
(* An item is [t, e, v (an integer), lost]; a fit is [z, b (items), order].          *)
EXTENDS Calendar, Rat

Base == 1546300800
Minutes(z, t) == (Local(z, t) - Base) \div 60
RECURSIVE SumClock(_, _, _), SumSteps(_, _)
SumClock(z, b, n) == IF n = 0 THEN 0 ELSE SumClock(z, b, n - 1) + ((Minutes(z, b[n].t) % 997) + 1) * (b[n].v + 50)
SumSteps(b, n) == IF n = 0 THEN 0 ELSE SumSteps(b, n - 1) + n * (b[n].v + 50)
\* what is answered about an instant, or about the item the given number of steps ahead
AtTime(f, t) == (SumClock(f.z, f.b, Len(f.b)) % 1009) + 3 * (Minutes(f.z, t) % 9973)
Ahead(f, k) == (SumSteps(f.b, Len(f.b)) % 1009) + 7 * k + 2000 * f.order
Clock(engine) == engine \in {"prophet", "recon"}
\* ---- the items following a series ---------------------------------------------------------
Only(S) == CHOOSE x \in S : TRUE
NextT(kind, it, u) == IF kind = "slot" THEN it.e ELSE it.t + u[5]
Following(z, u, kind, it) == LET t == NextT(kind, it, u) IN [t |-> t, e |-> IF kind = "slot" THEN Only(Shift(z, u, t)) ELSE t]
RECURSIVE Grid(_, _, _, _, _)
Grid(z, u, kind, it, n) == IF n = 0 THEN <<>> ELSE LET x == Following(z, u, kind, it) IN <<x>> \o Grid(z, u, kind, x, n - 1)
Last(q) == q[Len(q)]
\* ---- forecasts --------------------------------------------------------------------------------
Usable(engine, f, b) == Clock(engine) \/ Last(b).t = Last(f.b).t
Forecasts(engine, f, u, kind, b, n) ==
    LET g == Grid(f.z, u, kind, Last(b), n) IN
    [k \in 1..n |-> [t |-> g[k].t, e |-> g[k].e, v |-> IF Clock(engine) THEN AtTime(f, g[k].t) ELSE Ahead(f, k)]]
\* ---- reconstructions: the items lost, asked at their own times -----------------------------------
Reconstructed(f, b) == [j \in 1..Len(b) |-> IF b[j].lost THEN [b[j] EXCEPT !.v = AtTime(f, b[j].t)] ELSE b[j]]
\* ---- evaluations ------------------------------------------------------------------------------------
RECURSIVE SumErr(_, _, _)
SumErr(f, b, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN Abs(b[j].v - AtTime(f, b[j].t)) + SumErr(f, b, S \ {j})
\* every item having others before it, against what is forecasted for it
MeanError(f, b) == Norm(SumErr(f, b, 2..Len(b)), Len(b) - 1)
\* the same with the first item too, against the time following the series: what is done by now
MeanErrorAll(f, u, kind, b) == Norm(SumErr(f, b, 2..Len(b)) + Abs(b[1].v - AtTime(f, NextT(kind, Last(b), u))), Len(b))
\* every stretch of n items not lost, against what is reconstructed there
Stretches(b, n) == {j \in 1..(Len(b) - n + 1) : \A i \in j..(j + n - 1) : ~b[i].lost}
RECURSIVE SumStretch(_, _, _, _)
SumStretch(f, b, n, S) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN SumErr(f, b, j..(j + n - 1)) + SumStretch(f, b, n, S \ {j})
MeanRebuilt(f, b, n) == LET S == Stretches(b, n) IN Norm(SumStretch(f, b, n, S), Cardinality(S) * n)
RECURSIVE SumRats(_)
SumRats(q) == IF q = <<>> THEN Zero ELSE RAdd(q[1], SumRats(Tail(q)))
MeanOver(f, b, ns) == RDiv(SumRats([j \in 1..Len(ns) |-> MeanRebuilt(f, b, ns[j])]), R(Len(ns)))
=============================================================================
