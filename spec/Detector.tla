------------------------------- MODULE Detector -------------------------------
(* Anomaly detectors based on a model.  A series is a sequence of rows, each with   *)
(* the values by label and the data loss.  The model predicts each item from the    *)
(* window before it (and after it, for reconstructors); the difference from what    *)
(* was observed is the error, which the index rescales between two bounds.          *)
EXTENDS Rat, TLC
\* -- which items are evaluated ---------------------------------------------------
\* (the first one with a full window before it is kept as a further item of history)
Evaluated(n, w, recon) == {i \in 1..n : i > w + 1 /\ (recon => i <= n - w)}
Needed(i, w, recon) == (i - w)..(IF recon THEN i + w ELSE i)
Lossy(row, thr) == row.loss # <<>> /\ RLe(thr, row.loss[1])
Scored(s, i, w, recon, thr) == \A j \in Needed(i, w, recon) : ~Lossy(s[j], thr)
\* -- the model ---------------------------------------------------------------------
Mean(q) == RDiv(RSumSeq(q), R(Len(q)))
Predicted(how, s, i, l, w) ==
    CASE how = "last" -> s[i - 1].x[l]
      [] how = "mean" -> Mean([j \in 1..w |-> s[i - j].x[l]])
      [] how = "far" -> s[i - w].x[l]
      [] how = "between" -> Mean(<<s[i - w].x[l], s[i + w].x[l]>>)
      [] how = "other" -> s[i].x[IF l = "a" THEN "b" ELSE "a"]          \* from the context
\* -- errors --------------------------------------------------------------------------
Signed(metric) == metric \in {"E", "PE"}
ErrorOf(metric, a, p) == LET e == IF metric \in {"E", "AE"} THEN RSub(a, p) ELSE RDiv(RSub(a, p), a)
                         IN IF Signed(metric) THEN e ELSE RAbs(e)
\* errors on the left of the centre of their distribution are reversed (unless they have no sign)
Level(metric, e, loc) == IF Signed(metric) /\ RLt(e, loc) THEN RAdd(RAbs(e), loc) ELSE e
FitErrors(how, metric, s, l, w, recon) ==
    LET first == w + 2 last == IF recon THEN Len(s) - w ELSE Len(s) IN
    [k \in 1..(last - first + 1) |-> ErrorOf(metric, s[first + k - 1].x[l], Predicted(how, s, first + k - 1, l, w))]
\* what is kept for looking into: the values evaluated, and their predictions
FirstLast(s, w, recon) == <<w + 2, IF recon THEN Len(s) - w ELSE Len(s)>>
FitActual(s, l, w, recon) == LET f == FirstLast(s, w, recon) IN [k \in 1..(f[2] - f[1] + 1) |-> s[f[1] + k - 1].x[l]]
FitPredicted(how, s, l, w, recon) == LET f == FirstLast(s, w, recon) IN [k \in 1..(f[2] - f[1] + 1) |-> Predicted(how, s, f[1] + k - 1, l, w)]
\* -- the index -----------------------------------------------------------------------
Clamp(v) == RMax(Zero, RMin(One, v))
\* x is the level, y the density there; <xs, ys> and <xe, ye> those of the bounds
Between(x, xs, xe, v) == IF RLe(x, xs) THEN Zero ELSE IF RLe(xe, x) THEN One ELSE v
Linear(y, ys, ye) == Clamp(RSub(One, RDiv(RSub(y, ye), RSub(ys, ye))))
Categorical(thr, v) == IF thr = <<>> THEN v ELSE IF RLt(v, thr[1]) THEN Zero ELSE One
Overall(strategy, q) == IF Len(q) = 1 THEN q[1]
                        ELSE CASE strategy = "max" -> RMaxSeq(q) [] strategy = "min" -> RMinSeq(q)
                               [] strategy = "avg" -> Mean(q) [] strategy = "first" -> q[1]
\* the bounds which depend on the errors seen in fitting
AvgErr(q) == Mean([k \in 1..Len(q) |-> RAbs(q[k])])
MaxErr(q) == RMaxSeq([k \in 1..Len(q) |-> RAbs(q[k])])
Variance(q) == LET n == Len(q) s == RSumSeq(q) IN
    RDiv(RSub(RSumSeq([k \in 1..n |-> RMul(q[k], q[k])]), RDiv(RMul(s, s), R(n))), R(n - 1))
=============================================================================
