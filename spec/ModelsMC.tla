------------------------------- MODULE ModelsMC -------------------------------
(* Every small series (values, lost or not), period and window: the laws of        *)
(* patterns, reconstructions, forecasts and errors.  The series are exported.       *)
EXTENDS Models, Json, IOUtils
MaxLen == atoi(IOEnv.N)
VARIABLES s, per
It(t, v, b) == [t |-> t, dst |-> 0, n |-> t, x |-> ("a" :> R(v)) @@ ("b" :> R(v * v - t)), loss |-> IF b THEN <<One>> ELSE <<Zero>>]
Init == s = <<>> /\ per \in 1..3
Next == Len(s) < MaxLen /\ \E v \in {0, 1, 3} : \E b \in BOOLEAN : s' = Append(s, It(2 * Len(s) + 4, v, b)) /\ UNCHANGED per
P == [res |-> 2, per |-> per, cal |-> FALSE, da |-> FALSE]
L == {"a", "b"}
Pat(u) == [l \in L |-> Pattern(u, l, P, <<One>>)]
Add(u, c) == [j \in 1..Len(u) |-> [u[j] EXCEPT !.x = [l \in L |-> RAdd(u[j].x[l], c)]]]
Ways(u) == { [how |-> "linear"], [how |-> "stairs"], [how |-> "periodic", pat |-> Pat(u), P |-> P] }
\* what is not lost does not change, nothing is left to reconstruct twice, and adding a constant to the data adds it to what is reconstructed
Reconstruction == \A M \in Ways(s) : Reconstructable(s, One, M) =>
    LET r == Reconstruct(s, One, M) IN
    /\ Len(r) = Len(s) /\ \A j \in 1..Len(s) : r[j].t = s[j].t /\ r[j].loss = s[j].loss /\ (~Lost(s[j], One) => r[j] = s[j])
    /\ Reconstruct(r, One, M) = r
    /\ M.how # "stairs" => Reconstruct(Add(s, R(5)), One, M) = Add(r, R(5))
    /\ M.how = "linear" => \A g \in Gaps(s, One) : \A l \in L : \A j \in g[1]..g[2] :
          LET lo == RMin(s[g[1] - 1].x[l], s[g[2] + 1].x[l]) hi == RMax(s[g[1] - 1].x[l], s[g[2] + 1].x[l]) IN RLe(lo, r[j].x[l]) /\ RLe(r[j].x[l], hi)
\* a reconstruction of what follows the pattern, whatever the level, is exact
Level(j) == IF Index(s[j], P) = 0 THEN R(4) ELSE IF Index(s[j], P) = 1 THEN R(-2) ELSE One
OnPattern == [j \in 1..Len(s) |-> [s[j] EXCEPT !.x = [l \in L |-> Level(j)]]]
Damaged(c) == [j \in 1..Len(s) |-> IF Lost(s[j], One) THEN s[j] ELSE Add(OnPattern, c)[j]]
Exact == LET M == [how |-> "periodic", pat |-> Pat(OnPattern), P |-> P] IN
         Reconstructable(s, One, M) => Reconstruct(Damaged(R(3)), One, M) = Add(OnPattern, R(3))
\* forecasts: of what follows the pattern, exact at any level and window; the trend model step by step
Grid(n) == [j \in 1..n |-> It(2 * (Len(s) + j) + 2, 0, FALSE)]
Forecasts == Len(s) >= 1 =>
    /\ \A w \in 1..Len(s) : LET M == [how |-> "periodic", pat |-> Pat(OnPattern), P |-> [l \in L |-> P], w |-> [l \in L |-> w]]
                                f == Forecast(Add(OnPattern, R(3)), Grid(3), M) IN
          Forecastable(Add(OnPattern, R(3)), Grid(3), M) =>
             \A j \in 1..3 : \A l \in L : f[j].x[l] = RAdd(R(3), M.pat[l][Index(Grid(3)[j], P)])
    /\ LET M == [how |-> "trend"] f == Forecast(s, Grid(3), M) IN
          \A j \in 1..3 : SubSeq(f, j, j) = Forecast(s \o SubSeq(f, 1, j - 1), SubSeq(Grid(3), j, j), M)
\* errors: none exactly when the predictions are the data; the mean is not above the largest; signs do not matter to absolute ones
Errors == Len(s) >= 1 => \A l \in L : LET a == Col(s, l) p == Col(Add(s, One), l) z == [j \in 1..Len(a) |-> R(2)] IN
    /\ \A m \in {"MSE", "MAE", "HAE"} : Metric(m, a, a) = Zero /\ Metric(m, a, p) = One /\ Metric(m, a, z) = Metric(m, z, a)
    /\ RLe(Metric("MAE", a, z), Metric("HAE", a, z))
    /\ RLe(RMul(Metric("MAE", a, z), Metric("MAE", a, z)), Metric("MSE", a, z))
    /\ \A n \in 1..2 : \A w \in 0..1 : \A j \in 1..Len(Tried(s, n, w, One)) : LET i == Tried(s, n, w, One)[j] IN i > w /\ i + n - 1 + w <= Len(s)
Laws == s # <<>> => Reconstruction /\ Exact /\ Forecasts /\ Errors
Export == s # <<>> /\ per = 1 => PrintT("@@BEH" \o ToJson([j \in 1..Len(s) |-> [v |-> s[j].x["a"][1], b |-> s[j].loss = <<One>>]]))
=============================================================================
