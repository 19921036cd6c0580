------------------------------- MODULE FilesMC -------------------------------
(* Every history of a few saves, with or without overwriting, and loads on two     *)
(* files, one of which may exist from before.  The histories are exported.          *)
EXTENDS Files, Json, IOUtils
Depth == atoi(IOEnv.N)
F == {"f", "g"}
C == {"A", "B", "none"}
Content(c) == [kind |-> IF c = "none" THEN "nothing" ELSE "points", id |-> c]
Foreign == [kind |-> "foreign", id |-> "foreign"]
VARIABLES fs, h, last              \* last: what was last accepted to be saved in each file
vars == <<fs, h, last>>
Init == /\ fs \in [F -> {<<>>, <<Foreign>>}] /\ h = << [op |-> "start", f |-> "f", c |-> IF fs["f"] = <<>> THEN "no" ELSE "yes", over |-> fs["g"] # <<>>] >>
        /\ last = [f \in F |-> "-"]
Next == /\ Len(h) <= Depth
        /\ \E f \in F :
             \/ \E c \in C : \E o \in BOOLEAN :
                  /\ fs' = Save(fs, f, Content(c), o)
                  /\ last' = IF MaySave(fs, f, Content(c), o) THEN [last EXCEPT ![f] = c] ELSE last
                  /\ h' = Append(h, [op |-> "save", f |-> f, c |-> c, over |-> o])
             \/ fs' = fs /\ last' = last /\ h' = Append(h, [op |-> "load", f |-> f, c |-> "-", over |-> FALSE])
\* a file has what was last accepted to be saved in it; only overwriting replaces anything; nothing unstorable gets anywhere
Holds == \A f \in F : /\ (last[f] # "-" => MayLoad(fs, f) /\ Load(fs, f) = Content(last[f]))
                      /\ (last[f] = "-" => ~MayLoad(fs, f))
                      /\ last[f] # "none"
Kept == [][\A f \in F : fs[f] # <<>> /\ fs'[f] # fs[f] => h'[Len(h')].op = "save" /\ h'[Len(h')].f = f /\ h'[Len(h')].over]_vars
Export == Len(h) = Depth + 1 => PrintT("@@BEH" \o ToJson(h))
=============================================================================
