---------------------------- MODULE LifecycleMC -----------------------------
(* All short lives of two models on a small catalogue of series.                *)
EXTENDS Lifecycle, Json, IOUtils
CONSTANTS MaxLen
VARIABLES w, hist
vars == <<w, hist>>
S == << [ts |-> TRUE,  n |-> 9, res |-> "60s", labels |-> <<"a">>, pt |-> TRUE],
        [ts |-> TRUE,  n |-> 9, res |-> "3600s", labels |-> <<"a">>, pt |-> TRUE],
        [ts |-> TRUE,  n |-> 9, res |-> "60s", labels |-> <<"b">>, pt |-> TRUE],
        [ts |-> TRUE,  n |-> 0, res |-> "none", labels |-> <<>>, pt |-> TRUE] >>
C == [name |-> "toy", fits |-> TRUE, param |-> TRUE, res |-> "", labels |-> <<>>]
Paths == {"p", "q"}
None == [class |-> "none"]
Init == w = [models |-> <<Fresh(C)>>, disk |-> [p \in Paths |-> None], clean |-> TRUE] /\ hist = <<>>
M == 1..Len(w.models)
Key(s) == ToString(s)
Do(a, v) == hist' = Append(hist, a) /\ w' = v
A(op, m, s, p, good) == [op |-> op, m |-> m, s |-> s, path |-> p, good |-> good]
Next == /\ Len(hist) < MaxLen
        /\ \/ \E m \in M, s \in 1..Len(S), good \in BOOLEAN :
                /\ (s > 2 => good)
                /\ Do(A("fit", m, s, "", good), IF FitRefused(w.models[m], S[s], good) THEN w ELSE [w EXCEPT !.models[m] = Fitted(@, S[s], Key(s), FALSE)])
           \/ \E m \in M, s \in {1, 3} : Do(A("use", m, s, "", TRUE), w)
           \/ \E m \in M, p \in Paths, good \in BOOLEAN :
                Do(A("save", m, 0, p, good), IF SaveRefused(w.models[m], p, w.disk[p] # None, good) THEN w ELSE [w EXCEPT !.disk[p] = w.models[m]])
           \/ \E p \in Paths : w.disk[p] # None /\ Len(w.models) < 2 /\ Do(A("load", 0, 0, p, TRUE), [w EXCEPT !.models = Append(@, Loaded(w.disk[p]))])
           \/ \E m \in M, good \in BOOLEAN : Do(A("cv", m, 1, "", good), IF CvRefused(w.models[m], S[1], good) THEN w ELSE [w EXCEPT !.models[m] = Validated(@)])
Spec == Init /\ [][Next]_vars
\* ---- laws ------------------------------------------------------------------------
FittedIffLearnt == \A m \in M : w.models[m].fitted <=> w.models[m].key # ""
\* what a model knows is the last successful fit only (or what it was loaded from)
LastFit(m) == LET F == {i \in 1..Len(hist) : hist[i].m = m /\ hist[i].op = "fit" /\ hist[i].good /\ hist[i].s \notin {4}} IN
              IF F = {} THEN "" ELSE Key(hist[CHOOSE i \in F : \A j \in F : j <= i].s)
Knows == \A m \in M : w.models[m].fitted /\ ~w.models[m].loaded => w.models[m].key = LastFit(m)
\* nothing on disk ever changes, and nobody is fitted on what it refuses
DiskStable == [][\A p \in Paths : w.disk[p] # None => w'.disk[p] = w.disk[p]]_vars
SavedAreFitted == \A p \in Paths : w.disk[p] # None => w.disk[p].fitted
OwnData == \A m \in M : w.models[m].fitted => ~Incompatible(w.models[m], S[IF w.models[m].key = "1" THEN 1 ELSE IF w.models[m].key = "2" THEN 2 ELSE 3])
Export == IF Len(hist) = MaxLen THEN PrintT("@@BEH" \o ToJson(hist)) ELSE TRUE
=============================================================================
