-------------------------------- MODULE Files --------------------------------
(* Files holding time series: what saving, overwriting and loading do to them.     *)
(* A file is <<>> when it does not exist and <<content>> otherwise, where a content *)
(*   [kind |-> "points" | "slots" | "foreign" | "nothing", zone, res, labels, items] *)
(* says everything there is to know of the series ("foreign": not written by us,    *)
(* "nothing": a series with nothing that can be stored).                            *)
EXTENDS Sequences, FiniteSets, TLC, Naturals
Storable(c) == c.kind \in {"points", "slots"}
MaySave(fs, f, c, over) == Storable(c) /\ (over \/ fs[f] = <<>>)
Save(fs, f, c, over) == IF MaySave(fs, f, c, over) THEN [fs EXCEPT ![f] = <<c>>] ELSE fs
MayLoad(fs, f) == fs[f] # <<>> /\ fs[f][1].kind # "foreign"
Load(fs, f) == fs[f][1]
=============================================================================
