----------------------------- MODULE Lifecycle ------------------------------
(* The life of models: fitted on series, used on others, saved, loaded, cross   *)
(* validated.  A model is [class, fits, param, fitted, key, res, labels, ctx,      *)
(* loaded]: whether its class can be fitted and has parameters, whether it was       *)
(* fitted, what it learnt (a key: everything it will answer is a function of it),     *)
(* the resolution and labels it was fitted on, whether it wants context data, and      *)
(* whether it comes from a file.  A series is [ts, n, res, labels, pt]: whether it is    *)
(* a time series at all, its length, its resolution ("variable", "none") and labels,      *)
(* whether it is made of points.  w is [models, disk]: disk the function from the         *)
(* paths saved to the models saved.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [class |-> c.name, fits |-> c.fits, param |-> c.param, fitted |-> FALSE, key |-> IF c.fits THEN "" ELSE c.name,
             res |-> c.res, labels |-> c.labels, ctx |-> FALSE, loaded |-> FALSE]
\* what no model works on
Unusable(s) == ~s.ts \/ s.n = 0 \/ s.res = "variable"
\* what this model does not work on, once fitted; a lone point has no resolution to be compared
Incompatible(m, s) ==
    \/ Unusable(s)
    \/ m.param /\ (m.labels # s.labels \/ (m.res # s.res /\ ~(s.pt /\ s.n = 1)))
Unready(m) == m.fits /\ ~m.fitted
\* using (predicting, applying, evaluating)
\* (context data, which only predicting takes, is given exactly when the model wants it: wrong says it is not so)
UseRefused(m, s, wrong) == Unready(m) \/ Incompatible(m, s) \/ wrong
Used(m, s, ctx) == m              \* using a model does not change it
\* fitting: good says whether what is specific of the model accepts the series and the arguments
FitRefused(m, s, good) == ~m.fits \/ Unusable(s) \/ ~good
Fitted(m, s, key, ctx) == [m EXCEPT !.fitted = TRUE, !.key = key, !.res = s.res, !.labels = s.labels, !.ctx = ctx, !.loaded = FALSE]
\* saving
SaveRefused(m, path, exists, good) == ~m.param \/ Unready(m) \/ path = "" \/ exists \/ ~good
Loaded(m) == [m EXCEPT !.loaded = TRUE, !.fitted = TRUE]
\* cross validating leaves the model to be fitted
CvRefused(m, s, good) == m.fitted \/ Unusable(s) \/ ~good
Validated(m) == [m EXCEPT !.fitted = FALSE, !.key = IF m.fits THEN "" ELSE m.key]
=============================================================================
