------------------------------- MODULE ExternalMC ------------------------------
(* Every short life of a model based on an external engine, with series that their   *)
(* owner keeps extending: what is answered depends on what was last fitted, as it    *)
(* was then, and on nothing that happened since; and on the local clock of the zone. *)
EXTENDS External, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLES hist, engine, own, fit
Rome == << <<1546300800, 3600>>, <<1553994000, 7200>>, <<1572138000, 3600>> >>
Utc == << <<1546300800, 0>> >>
H == <<0, 0, 0, 0, 3600>>
Start == 1553994000 - 3 * 3600
Mk(j, n, from) == [i \in 1..n |-> [t |-> Start + 3600 * (from + i), e |-> Start + 3600 * (from + i), v |-> (7 * j + i * i) % 11, lost |-> i % 3 = 0]]
Series == 1..3
Init == /\ engine \in {"clock", "steps"} /\ hist = <<>> /\ fit = <<>>
        /\ own = [j \in Series |-> IF j = 3 THEN Mk(3, 4, 1) ELSE Mk(j, 3 + j, 0)]
Step(op, j) == hist' = Append(hist, [op |-> op, s |-> j]) /\ UNCHANGED engine
Next == /\ Len(hist) < N
        /\ \E j \in Series :
             \/ fit' = <<[z |-> Rome, b |-> own[j], order |-> 5]>> /\ UNCHANGED own /\ Step("fit", j)
             \/ own' = [own EXCEPT ![j] = Append(@, [t |-> Last(@).t + 3600, e |-> Last(@).t + 3600, v |-> 3, lost |-> FALSE])] /\ UNCHANGED fit /\ Step("grow", j)
             \/ fit # <<>> /\ (IF hist = <<>> THEN TRUE ELSE Last(hist).op # "use") /\ UNCHANGED <<own, fit>> /\ Step("use", j)
Eng == IF engine = "clock" THEN "prophet" ELSE "auto"
F(j, n) == Forecasts(Eng, fit[1], H, "point", own[j], n)
\* what follows is on the grid, and asking for more says the same about the first ones
Grids == fit # <<>> => \A j \in Series : LET f == F(j, 3) IN
    /\ \A k \in 1..3 : f[k].t = Last(own[j]).t + 3600 * k
    /\ SubSeq(f, 1, 2) = F(j, 2)
\* the engines on the clock are asked about the time, whoever comes before; the others about the steps since the fit
Clocks == fit # <<>> => \A j, h \in Series :
    /\ (engine = "clock" /\ Last(own[j]).t = Last(own[h]).t => F(j, 2) = F(h, 2))
    /\ (engine = "steps" /\ Usable(Eng, fit[1], own[j]) /\ Usable(Eng, fit[1], own[h]) => F(j, 3) = F(h, 3))
\* series ending elsewhere cannot be continued by the engines counting steps
Ends == (fit # <<>> /\ engine = "steps") => \A j \in Series : Usable(Eng, fit[1], own[j]) <=> Last(own[j]).t = Last(fit[1].b).t
\* engines on the clock tell zones apart, and what is reconstructed is what would be forecasted for the same time
Zoned == (fit # <<>> /\ engine = "clock") => \A j \in Series :
    /\ AtTime([fit[1] EXCEPT !.z = Utc], own[j][1].t) # AtTime(fit[1], own[j][1].t)
    /\ LET r == Reconstructed(fit[1], own[j]) IN \A i \in 1..Len(r) :
         /\ ~own[j][i].lost => r[i] = own[j][i]
         /\ (own[j][i].lost /\ i > 1) => r[i].v = Forecasts("prophet", fit[1], H, "point", SubSeq(own[j], 1, i - 1), 1)[1].v
\* the fit is told apart from the others by a single value, and from what became of its series
Told == (fit # <<>> /\ hist # <<>> /\ Last(hist).op = "fit") => LET b == fit[1].b f == [fit[1] EXCEPT !.b = [b EXCEPT ![1].v = @ + 1]] IN
    IF engine = "clock" THEN AtTime(f, Start) # AtTime(fit[1], Start) ELSE Ahead(f, 1) # Ahead(fit[1], 1)
Laws == Grids /\ Clocks /\ Ends /\ Zoned /\ Told
Export == (hist # <<>> /\ Last(hist).op = "use") => PrintT("@@BEH" \o ToJson([engine |-> engine, hist |-> hist]))
=============================================================================
