-------------------------------- MODULE Models --------------------------------
(* What models learn and predict: periodic patterns, reconstructions of lost      *)
(* items, forecasts, and the errors of evaluations.  An item is                    *)
(*   [t |-> seconds, dst |-> seconds of daylight saving, n |-> number of the calendar *)
(*    unit (of series of days or months), x |-> [label -> rational],               *)
(*    loss |-> <<>> or <<rational>>].                                              *)
EXTENDS Rat, TLC
Labels(s) == DOMAIN s[1].x
Lost(it, thr) == it.loss # <<>> /\ RLe(thr, it.loss[1])
Col(s, l) == [j \in 1..Len(s) |-> s[j].x[l]]
\* ---- periodic patterns ---------------------------------------------------------------------
\* P = [res, cal, per, da]: resolution in seconds or in calendar units, periodicity, whether daylight saving matters
Index(it, P) == (IF P.cal THEN it.n ELSE (it.t + (IF P.da THEN it.dst ELSE 0)) \div P.res) % P.per   \* calendar units are counted on the calendar
Kept(s, limit) == SelectSeq(s, LAMBDA it : limit = <<>> \/ ~Lost(it, limit[1]))
Pattern(s, l, P, limit) ==
    LET k == Kept(s, limit) IN
    [ix \in {Index(k[j], P) : j \in 1..Len(k)} |->
        LET q == Col(SelectSeq(k, LAMBDA it : Index(it, P) = ix), l) IN RDiv(RSumSeq(q), R(Len(q)))]
Knows(pat, s, P) == \A j \in 1..Len(s) : Index(s[j], P) \in DOMAIN pat
Deviation(pat, s, l, P) == RDiv(RSumSeq([j \in 1..Len(s) |-> RSub(s[j].x[l], pat[Index(s[j], P)])]), R(Len(s)))
\* ---- reconstruction -------------------------------------------------------------------------
\* the gap that position i is in: the maximal run of lost items around it
First(s, i, thr) == CHOOSE a \in 1..i : (\A j \in a..i : Lost(s[j], thr)) /\ (a = 1 \/ ~Lost(s[a - 1], thr))
Last(s, i, thr) == CHOOSE b \in i..Len(s) : (\A j \in i..b : Lost(s[j], thr)) /\ (b = Len(s) \/ ~Lost(s[b + 1], thr))
\* what a method says of position i of the gap a..b
Linear(s, a, b, i, l) ==
    LET p == s[a - 1] n == s[b + 1] IN
    RAdd(p.x[l], RMul(Norm(s[i].t - p.t, n.t - p.t), RSub(n.x[l], p.x[l])))
Periodic(s, a, b, i, l, pat, P) == RAdd(pat[Index(s[i], P)], Deviation(pat, <<s[a - 1], s[b + 1]>>, l, P))
Stairs(s, a, b, i, l) == RAdd(IF a > 1 THEN s[a - 1].x[l] ELSE R(7), R(10 * (i - a + 1)))     \* of the models of the driver
Fill(s, a, b, i, l, M) == CASE M.how = "linear" -> Linear(s, a, b, i, l)
                            [] M.how = "periodic" -> Periodic(s, a, b, i, l, M.pat[l], M.P)
                            [] M.how = "stairs" -> Stairs(s, a, b, i, l)
Gaps(s, thr) == {g \in (1..Len(s)) \X (1..Len(s)) : g[1] <= g[2] /\ Lost(s[g[1]], thr) /\ First(s, g[1], thr) = g[1] /\ Last(s, g[1], thr) = g[2]}
\* the method needs an item on each side, and to know their place in the pattern
Reconstructable(s, thr, M) == \A g \in Gaps(s, thr) :
    /\ M.how \in {"linear", "periodic"} => g[1] > 1 /\ g[2] < Len(s)
    /\ M.how = "periodic" => \A l \in Labels(s) : Knows(M.pat[l], SubSeq(s, g[1] - 1, g[2] + 1), M.P)
Reconstruct(s, thr, M) ==
    [i \in 1..Len(s) |-> IF Lost(s[i], thr) THEN [s[i] EXCEPT !.x = [l \in Labels(s) |-> Fill(s, First(s, i, thr), Last(s, i, thr), i, l, M)]]
                         ELSE s[i]]
\* ---- forecasts ----------------------------------------------------------------------------------
Tail_(s, w) == SubSeq(s, Len(s) - w + 1, Len(s))
Shifted(s, it, l, M) == RAdd(M.pat[l][Index(it, M.P[l])], Deviation(M.pat[l], Tail_(s, M.w[l]), l, M.P[l]))
\* as the library has it, the window ends on the last but one item (unless there are no other items)
Window_(s, w) == IF Len(s) > w THEN SubSeq(s, Len(s) - w, Len(s) - 1) ELSE s
ShiftedAsIs(s, it, l, M) == RAdd(M.pat[l][Index(it, M.P[l])], Deviation(M.pat[l], Window_(s, M.w[l]), l, M.P[l]))
\* of the models of the driver: twice the last value less the last but one, plus the number of items known
Trend(s, l) == RAdd(RSub(RAdd(s[Len(s)].x[l], s[Len(s)].x[l]), IF Len(s) > 1 THEN s[Len(s) - 1].x[l] ELSE Zero), R(Len(s)))
Blank(it) == [it EXCEPT !.loss = <<>>]
\* grid: the coming items (times only) of the series' grid
RECURSIVE StepByStep(_, _, _)
StepByStep(s, grid, known) == IF grid = <<>> THEN known
    ELSE LET it == [grid[1] EXCEPT !.x = [l \in Labels(s) |-> Trend(s \o known, l)]] IN StepByStep(s, Tail(grid), Append(known, it))
Forecast(s, grid, M) ==
    IF M.how = "trend" THEN StepByStep(s, grid, <<>>)
    ELSE [j \in 1..Len(grid) |-> [grid[j] EXCEPT !.x = [l \in Labels(s) |-> IF M.how = "asis" THEN ShiftedAsIs(s, grid[j], l, M) ELSE Shifted(s, grid[j], l, M)]]]
Forecastable(s, grid, M) == M.how \in {"periodic", "asis"} =>
    \A l \in Labels(s) : Len(s) >= M.w[l] /\ Knows(M.pat[l], Tail_(s, IF Len(s) > M.w[l] THEN M.w[l] + 1 ELSE M.w[l]), M.P[l]) /\ Knows(M.pat[l], grid, M.P[l])
\* ---- evaluations ---------------------------------------------------------------------------------
\* of a sequence of actual values and the one of the values predicted for them (for the logarithmic ones: of their logarithms)
Errs(a, p) == [j \in 1..Len(a) |-> RSub(a[j], p[j])]
AbsErrs(a, p) == [j \in 1..Len(a) |-> RAbs(RSub(a[j], p[j]))]
PErrs(a, p) == [j \in 1..Len(a) |-> RDiv(RSub(a[j], p[j]), a[j])]
Mean(q) == RDiv(RSumSeq(q), R(Len(q)))
Metric(m, a, p) ==
    CASE m \in {"MSE", "RMSE"} -> LET e == Errs(a, p) IN Mean([j \in 1..Len(e) |-> RMul(e[j], e[j])])       \* RMSE is observed squared
      [] m \in {"MAE", "MALE"} -> Mean(AbsErrs(a, p))
      [] m \in {"HAE", "HALE"} -> RMaxSeq(AbsErrs(a, p))
      [] m = "MAPE" -> LET e == PErrs(a, p) IN Mean([j \in 1..Len(e) |-> RAbs(e[j])])
      [] m = "HAPE" -> LET e == PErrs(a, p) IN RMaxSeq([j \in 1..Len(e) |-> RAbs(e[j])])
Punctual(m, a, p) == CASE m \in {"E", "LE"} -> RSub(a, p) [] m = "PE" -> RDiv(RSub(a, p), a)
                       [] m \in {"AE", "ALE"} -> RAbs(RSub(a, p)) [] m = "APE" -> RAbs(RDiv(RSub(a, p), a))
\* the positions where a reconstruction of n missing items can be tried: good data there and a good window on the two sides
Tried(s, n, w, thr) == SelectSeq([i \in 1..Len(s) |-> i],
    LAMBDA i : i - w >= 1 /\ i + n - 1 + w <= Len(s) /\ \A j \in (i - w)..(i + n - 1 + w) : ~Lost(s[j], thr))
\* the window is of both sides of the gap and of the gap itself
UpTo(q, limit) == IF limit = <<>> \/ Len(q) <= limit[1] THEN q ELSE SubSeq(q, 1, limit[1])
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Flat(Tail(q))
=============================================================================
