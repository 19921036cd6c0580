--------------------------- MODULE CrossValidationMC ---------------------------
(* Every length, number of rounds and kind of model: an evaluated item was never   *)
(* used to fit in its round, the chunks are equal, contiguous and disjoint, every  *)
(* fit starts from nothing, and with updates nothing else is left out.  Exported.  *)
EXTENDS CrossValidation, Json, IOUtils
MaxLen == atoi(IOEnv.N)
VARIABLES n, r, u, w, m
Init == /\ n \in 2..MaxLen /\ r \in 2..n /\ u \in BOOLEAN /\ w \in {0, 2} /\ m = Fresh
Next == m.next # "done" /\ m' = Do(m, n, r, u, w) /\ UNCHANGED <<n, r, u, w>>
C == NextCall(m, n, r, u, w)
NoLeak == m.next = "evaluate" => Range_(C) \cap m.known = {} /\ m.known # {}
FromNothing == m.next = "fit" => m.known = {}
NothingLeftOut == (m.next = "evaluate" /\ u /\ w = 0) => m.known = (0..(n - 1)) \ Range_(C)
Evals == SelectSeq(m.calls, LAMBDA c : c.op = "evaluate")
Chunks == /\ \A j \in 1..Len(Evals) : Evals[j].to - Evals[j].from = n \div r
          /\ Evals # <<>> => Evals[1].from = 0
          /\ \A j \in 2..Len(Evals) : Evals[j].from = Evals[j - 1].to
          /\ m.next = "done" => Len(Evals) = r /\ n - Evals[r].to < r
InRange == \A j \in 1..Len(m.calls) : 0 <= m.calls[j].from /\ m.calls[j].from < m.calls[j].to /\ m.calls[j].to <= n
Laws == NoLeak /\ FromNothing /\ NothingLeftOut /\ Chunks /\ InRange
Export == m.next = "done" => PrintT("@@BEH" \o ToJson([n |-> n, r |-> r, u |-> u, w |-> w]))
=============================================================================
