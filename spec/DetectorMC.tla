------------------------------ MODULE DetectorMC ------------------------------
(* A series grows one item at a time (values, and losses), for every window, kind  *)
(* of model and metric; the density is any peak around any centre.  Laws of the     *)
(* score; the series are exported.                                                  *)
EXTENDS Detector, Json, IOUtils
MaxLen == atoi(IOEnv.N)
VARIABLES s, w, how
vars == <<s, w, how>>
Recon == how = "between"
Values == {R(1), R(4)}
Init == s = <<>> /\ w \in 1..2 /\ how \in {"last", "mean", "far", "between"}
Add == /\ Len(s) < MaxLen
       /\ \E v \in Values, lost \in BOOLEAN : s' = Append(s, [x |-> [a |-> v], loss |-> IF lost THEN <<One>> ELSE <<>>])
       /\ UNCHANGED <<w, how>>
Next == Add
Ev(t) == Evaluated(Len(t), w, Recon)
Sc(t) == {i \in Ev(t) : Scored(t, i, w, Recon, One)}
Err(t, i) == ErrorOf("E", t[i].x["a"], Predicted(how, t, i, "a", w))
\* what was scored stays scored, with the same error, whatever comes next
Stable == [][\A i \in Sc(s) : i \in Sc(s') /\ Err(s', i) = Err(s, i)]_vars
\* only what is near matters: with other items replaced the error is the same
Local == \A i \in Sc(s) : LET t == [j \in 1..Len(s) |-> IF j \in Needed(i, w, Recon) THEN s[j] ELSE [s[j] EXCEPT !.x = [a |-> R(9)], !.loss = <<One>>]]
                          IN i \in Sc(t) /\ Err(t, i) = Err(s, i)
\* an item is left out of the scored ones only for the lack of history or for a lossy item nearby
Complete == \A i \in 1..Len(s) : i \in Sc(s) \/ i <= w + 1 \/ (Recon /\ i > Len(s) - w) \/ \E j \in Needed(i, w, Recon) : s[j].loss # <<>>
\* no prediction reads outside of the series
Inside == \A i \in Ev(s) : Needed(i, w, Recon) \subseteq 1..Len(s)
Laws == Local /\ Complete /\ Inside
Export == Len(s) = MaxLen /\ Sc(s) # {} => PrintT("@@BEH" \o ToJson([w |-> w, how |-> how, v |-> [j \in 1..Len(s) |-> s[j].x["a"][1]], lost |-> [j \in 1..Len(s) |-> s[j].loss # <<>>]]))
\* -- the index: for any peak and bounds it stays in range and never decreases with the level ------------------
Peak(loc, flat, x) == LET d == RAbs(RSub(x, loc)) IN RDiv(R(12), RAdd(One, IF flat THEN RMul(d, d) ELSE d))
Locs == {R(-2), R(-1), Zero, R(1), R(2)}
Levels == {<<n, 2>> : n \in -3..11} \cup {R(n) : n \in -2..6}
NormLevels == {Norm(r[1], r[2]) : r \in Levels}
Index(loc, f, xs, xe, x) == LET ys == Peak(loc, f, xs) ye == Peak(loc, f, xe) IN Between(x, xs, xe, IF ys = ye THEN One ELSE Linear(Peak(loc, f, x), ys, ye))
ASSUME InRange == \A loc \in Locs, f \in BOOLEAN, xs \in {Zero, R(1), R(2)}, xe \in {R(3), R(5)} :
    \A x \in NormLevels : LET v == Index(loc, f, xs, xe, x) IN RLe(Zero, v) /\ RLe(v, One)
ASSUME Increasing == \A loc \in Locs, f \in BOOLEAN, xs \in {Zero, R(1), R(2)}, xe \in {R(3), R(5)} :
    \A x \in NormLevels, z \in NormLevels : RLe(x, z) => RLe(Index(loc, f, xs, xe, x), Index(loc, f, xs, xe, z))
\* and then the larger the error the larger the level, on either side of the centre
ASSUME Sides == \A loc \in Locs, e \in NormLevels, g \in NormLevels :
    /\ (RLt(e, loc) /\ RLt(g, loc) /\ RLe(RAbs(e), RAbs(g))) => RLe(Level("E", e, loc), Level("E", g, loc))
    /\ (RLe(loc, e) /\ RLe(e, g)) => RLe(Level("E", e, loc), Level("E", g, loc))
ASSUME Unsigned == \A loc \in Locs, e \in NormLevels : Level("AE", RAbs(e), loc) = RAbs(e)
ASSUME Strategies == \A p \in {Zero, <<1, 2>>, One}, q \in {Zero, <<1, 4>>, One} :
    LET v == <<p, q>> IN RLe(Overall("min", v), Overall("avg", v)) /\ RLe(Overall("avg", v), Overall("max", v))
=============================================================================
