------------------------------- MODULE NetworkMC -------------------------------
(* All small series and configurations: nothing of the future, nor the target itself, *)
(* reaches the network; the scale of the data does not matter.                          *)
EXTENDS Network, Json, IOUtils, TLC
N == atoi(IOEnv.N)
VARIABLES s, cfg, phase
Ls == <<"a", "b">>
Values == {[a |-> R(0), b |-> R(0)], [a |-> R(2), b |-> R(0)], [a |-> R(0), b |-> R(4)], [a |-> R(1), b |-> R(2)]}
Items == [x : Values, loss : {<<>>, <<One>>}]
Configs == {c \in [leak : {FALSE}, labels : {Ls}, target : {Ls, <<"a">>, <<"b">>, <<"b", "a">>}, all : BOOLEAN, ctx : BOOLEAN, w : {1, 2}, feats : {<<"values">>, <<"values", "diffs">>, <<"diffs", "hours">>},
                   norm : BOOLEAN, limit : {<<>>, <<One>>}] : c.all => c.target = Ls /\ ~c.ctx}
Init == s = <<>> /\ phase = "items" /\ cfg = [w |-> 0]
Next == \/ phase = "items" /\ Len(s) < N /\ \E it \in Items : s' = Append(s, [x |-> it.x, loss |-> it.loss, hour |-> 5 + Len(s)]) /\ UNCHANGED <<cfg, phase>>
        \/ phase = "items" /\ Len(s) = N /\ \E c \in Configs : cfg' = c /\ phase' = "done" /\ UNCHANGED s
Can == phase = "done" /\ Fittable(s, cfg)
Bump(it, ls) == [it EXCEPT !.x = [l \in DOMAIN it.x |-> IF l \in ls THEN RAdd(it.x[l], One) ELSE it.x[l]]]
\* with no scale, what is asked of item j does not depend on its target nor on what follows
NoLeak == (Can /\ ~cfg.norm) => \A j \in Learnt(s, cfg.w, cfg.limit) :
    LET a == Asked(SubSeq(s, j - cfg.w, j - 1), s[j], cfg, <<>>)
        z == [i \in 1..N |-> IF i > j THEN Bump(s[i], SeqSet(Ls)) ELSE IF i = j THEN Bump(s[i], SeqSet(Ls) \ SeqSet(Context(cfg))) ELSE s[i]]
    IN Asked(SubSeq(z, j - cfg.w, j - 1), z[j], cfg, <<>>) = a
\* but it does on its context, and on the window
UsesContext == (Can /\ ~cfg.norm /\ Context(cfg) # <<>> /\ cfg.feats[1] = "values") => \A j \in Learnt(s, cfg.w, cfg.limit) :
    Asked(SubSeq(s, j - cfg.w, j - 1), Bump(s[j], SeqSet(Context(cfg))), cfg, <<>>) # Asked(SubSeq(s, j - cfg.w, j - 1), s[j], cfg, <<>>)
\* one row for each item of the window and one for the context, all of the same size
Shape == Can => LET X == Inputs(s, cfg) IN
    /\ Len(X) = Len(Outputs(s, cfg)) /\ Len(X) <= N - cfg.w
    /\ (cfg.limit = <<>> => Len(X) = N - cfg.w)
    /\ \A j \in 1..Len(X) : Len(X[j]) = cfg.w + (IF Context(cfg) = <<>> THEN 0 ELSE 1) /\ \A r \in 1..Len(X[j]) : Len(X[j][r]) = Len(X[1][1])
\* normalised data is within zero and one, and so are its values as seen; the scale of the series does not matter
Moved(q) == [j \in 1..Len(q) |-> [q[j] EXCEPT !.x = [l \in DOMAIN q[j].x |-> RAdd(RMul(R(3), q[j].x[l]), R(7))]]]
Scales == (Can /\ cfg.norm) =>
    /\ Inputs(Moved(s), cfg) = Inputs(s, cfg) /\ Outputs(Moved(s), cfg) = Outputs(s, cfg)
    /\ \A j \in 1..Len(Outputs(s, cfg)) : \A o \in 1..Len(cfg.target) : RLe(Zero, Outputs(s, cfg)[j][o]) /\ RLe(Outputs(s, cfg)[j][o], One)
    /\ \A l \in SeqSet(Ls) : \A v \in {Zero, One, R(5)} : Unscaled(ScaleOf(cfg, s), l, Scaled(ScaleOf(cfg, s), l, v)) = v
    /\ (Predictable(s, FALSE, cfg) => \A l \in SeqSet(cfg.target) :
          Predicted(Moved(s), s[1], cfg, ScaleOf(cfg, Moved(s)))[l] = RAdd(RMul(R(3), Predicted(s, s[1], cfg, ScaleOf(cfg, s))[l]), R(7)))
\* the order of the targets only orders the outputs; what is forecasted in steps is what is forecasted one by one
Steps == Can => LET c == [l \in SeqSet(Context(cfg)) |-> One] sc == ScaleOf(cfg, s) IN
    Forecastable(s, Context(cfg) # <<>>, cfg) =>
        LET f == Forecast(s, <<8, 9>>, c, cfg, sc) one == Forecast(s, <<8>>, c, cfg, sc) IN
        /\ Len(f) = 2 /\ f[1] = one[1] /\ f[2] = Forecast(Append(s, one[1]), <<9>>, c, cfg, sc)[1]
        /\ \A j \in 1..2 : \A l \in SeqSet(Context(cfg)) : f[j].x[l] = One
Laws == NoLeak /\ UsesContext /\ Shape /\ Scales /\ Steps
Export == phase = "done" => PrintT("@@BEH" \o ToJson([s |-> s, cfg |-> cfg]))
=============================================================================
