-------------------------------- MODULE Network --------------------------------
(* Forecasters based on a network: what it is trained on, what it is asked and what  *)
(* becomes of its answers.  An item is [x (values by label), hour (of its local       *)
(* time), loss (a sequence of at most one)]; the network itself is any function.      *)
EXTENDS Rat
SeqSet(q) == {q[j] : j \in 1..Len(q)}
\* cfg: labels (in order), target (in order), all, ctx, w, feats, norm, limit; leak: as it is when all of an item is given as its context
Context(cfg) == IF cfg.ctx THEN SelectSeq(cfg.labels, LAMBDA l : l \notin SeqSet(cfg.target)) ELSE <<>>
\* ---- normalisation -----------------------------------------------------------------
Lowest(s, l) == RMinSeq([j \in 1..Len(s) |-> s[j].x[l]])
Highest(s, l) == RMaxSeq([j \in 1..Len(s) |-> s[j].x[l]])
\* the scale learnt: nothing, or the range of each label
ScaleOf(cfg, s) == IF cfg.norm THEN <<[l \in SeqSet(cfg.labels) |-> <<Lowest(s, l), Highest(s, l)>>]>> ELSE <<>>
Scaled(sc, l, v) == IF sc = <<>> THEN v ELSE RDiv(RSub(v, sc[1][l][1]), RSub(sc[1][l][2], sc[1][l][1]))
Unscaled(sc, l, v) == IF sc = <<>> THEN v ELSE RAdd(RMul(v, RSub(sc[1][l][2], sc[1][l][1])), sc[1][l][1])
ScaledItem(sc, it) == [x |-> [l \in DOMAIN it.x |-> Scaled(sc, l, it.x[l])], hour |-> it.hour]
\* ---- windows -----------------------------------------------------------------------
Lossy(it, limit) == limit # <<>> /\ it.loss # <<>> /\ RLe(limit[1], it.loss[1])
\* the items that are learnt from: with no loss in them nor in the window before
Learnt(s, w, limit) == {j \in (w + 1)..Len(s) : \A i \in (j - w)..j : ~Lossy(s[i], limit)}
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
\* ---- features -------------------------------------------------------------------------
Value(q, i, l) == IF l \in DOMAIN q[i].x THEN q[i].x[l] ELSE Zero
\* differences are between the neighbours; no difference counts as one
Diff(q, i, l) == LET a == IF i = 1 THEN 1 ELSE i - 1 b == IF i = 1 THEN 2 ELSE IF i = Len(q) THEN i ELSE i + 1 IN
    IF l \notin DOMAIN q[a].x \/ l \notin DOMAIN q[b].x THEN Zero
    ELSE LET d == RDiv(RSub(q[b].x[l], q[a].x[l]), R(b - a)) IN IF d = Zero THEN One ELSE d
Row(q, i, cfg) == (IF "values" \in SeqSet(cfg.feats) THEN [j \in 1..Len(cfg.labels) |-> Value(q, i, cfg.labels[j])] ELSE <<>>) \o
                  (IF "diffs" \in SeqSet(cfg.feats) THEN [j \in 1..Len(cfg.labels) |-> Diff(q, i, cfg.labels[j])] ELSE <<>>) \o
                  (IF "hours" \in SeqSet(cfg.feats) THEN <<Norm(q[i].hour, 24)>> ELSE <<>>)
Matrix(q, cfg) == [i \in 1..Len(q) |-> Row(q, i, cfg)]
\* the window before, then what is known of the item itself: nothing else than its context
Only(it, ls) == [x |-> [l \in SeqSet(ls) |-> it.x[l]], hour |-> it.hour]
Seen(cfg) == IF Context(cfg) # <<>> /\ cfg.leak THEN cfg.labels ELSE Context(cfg)
Asked(win, next, cfg, sc) ==
    LET c == Seen(cfg)
        q == [i \in 1..Len(win) |-> ScaledItem(sc, win[i])] \o (IF c = <<>> THEN <<>> ELSE <<ScaledItem(sc, Only(next, c))>>)
    IN Matrix(q, cfg)
\* ---- fitting -----------------------------------------------------------------------------
Features == {"values", "diffs", "hours"}
Fittable(s, cfg) == /\ SeqSet(cfg.target) \subseteq SeqSet(cfg.labels)
                    /\ ~(cfg.all /\ cfg.ctx)
                    /\ ~(cfg.ctx /\ Context(cfg) = <<>>)
                    /\ SeqSet(cfg.feats) \subseteq Features
                    /\ Learnt(s, cfg.w, cfg.limit) # {}
                    /\ ("diffs" \in SeqSet(cfg.feats) => cfg.w + (IF Context(cfg) = <<>> THEN 0 ELSE 1) > 1)
                    /\ (cfg.norm => \A l \in SeqSet(cfg.labels) : Lowest(s, l) # Highest(s, l))
Inputs(s, cfg) == LET q == Ascending(Learnt(s, cfg.w, cfg.limit)) sc == ScaleOf(cfg, s) IN
    [j \in 1..Len(q) |-> Asked(SubSeq(s, q[j] - cfg.w, q[j] - 1), s[q[j]], cfg, sc)]
Outputs(s, cfg) == LET q == Ascending(Learnt(s, cfg.w, cfg.limit)) sc == ScaleOf(cfg, s) IN
    [j \in 1..Len(q) |-> [o \in 1..Len(cfg.target) |-> Scaled(sc, cfg.target[o], s[q[j]].x[cfg.target[o]])]]
\* ---- the stand-in for the network: a fixed linear function --------------------------------
Weight(r, c, o) == ((r + 2 * c + o) % 3) - 1
Dot(row, r, o) == RSumSeq([c \in 1..Len(row) |-> RMul(R(Weight(r - 1, c - 1, o - 1)), row[c])])
Answer(m, o) == RAdd(RSumSeq([r \in 1..Len(m) |-> Dot(m[r], r, o)]), R(o - 1))
\* what is predicted from what the network was asked
FromAsked(m, cfg, sc) == [l \in SeqSet(cfg.target) |-> LET o == CHOOSE o \in 1..Len(cfg.target) : cfg.target[o] = l IN Unscaled(sc, l, Answer(m, o))]
LastOf(s, w) == SubSeq(s, Len(s) - w + 1, Len(s))
\* next: the item to predict, with its context
Predicted(s, next, cfg, sc) == FromAsked(Asked(LastOf(s, cfg.w), next, cfg, sc), cfg, sc)
Predictable(s, given, cfg) == Len(s) >= cfg.w /\ (given <=> Context(cfg) # <<>>)
\* items can be forecasted only when all of their labels are known
Forecastable(s, given, cfg) == Predictable(s, given, cfg) /\ SeqSet(cfg.target) \cup SeqSet(Context(cfg)) = SeqSet(cfg.labels)
\* hours: those of the following items; c: the context (of each of them)
RECURSIVE Forecast(_, _, _, _, _)
Forecast(s, hours, c, cfg, sc) ==
    IF hours = <<>> THEN <<>>
    ELSE LET next == [x |-> c, hour |-> hours[1], loss |-> <<>>]
             p == Predicted(s, next, cfg, sc)
             it == [x |-> [l \in SeqSet(cfg.labels) |-> IF l \in SeqSet(cfg.target) THEN p[l] ELSE c[l]], hour |-> hours[1], loss |-> <<>>]
         IN <<it>> \o Forecast(Append(s, it), Tail(hours), c, cfg, sc)
\* ---- evaluation: each item, from the ones before it ------------------------------------------
Evaluated(s, cfg, sc) == [j \in 1..(Len(s) - cfg.w) |-> Predicted(SubSeq(s, 1, cfg.w + j - 1), s[cfg.w + j], cfg, sc)]
Errs(s, l, p, w) == [j \in 1..Len(p) |-> RAbs(RSub(s[w + j].x[l], p[j][l]))]
ErrorOf(m, e) == CASE m = "MAE" -> RDiv(RSumSeq(e), R(Len(e)))
                   [] m = "HAE" -> RMaxSeq(e)
                   [] m = "MSE" -> RDiv(RSumSeq([j \in 1..Len(e) |-> RMul(e[j], e[j])]), R(Len(e)))
\* the metrics, when they are not chosen
Auto(minimised) == IF minimised \in {"MSE", "MAE", "MAPE"} THEN <<minimised>> ELSE <<"RMSE", "MAE">>
LossName(minimised) == CASE minimised = "MSE" -> "mean_squared_error" [] minimised = "MAE" -> "mean_absolute_error"
                         [] minimised = "MAPE" -> "mean_absolute_percentage_error" [] minimised = "MSLE" -> "mean_squared_logarithmic_error"
=============================================================================
