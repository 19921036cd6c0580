---------------------------- MODULE CrossValidation ----------------------------
(* Cross validation as a state machine over the calls made on the model: in every *)
(* round the model is fitted afresh on what is not in the round's chunk (on the    *)
(* larger side, then updated on the other one where the model can be), evaluated   *)
(* on the chunk, and forgotten.  Positions are half open ranges <<from, to>>.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* n items, r rounds; u: the model can be updated; w: its window (0: none)
Chunk(n, r) == n \div r
Eval(n, r, i) == <<Chunk(n, r) * i, Chunk(n, r) * (i + 1)>>          \* of round i = 0..r-1
Before(n, r, i) == <<0, Eval(n, r, i)[1]>>
After(n, r, i) == <<Eval(n, r, i)[2], n>>
Size(x) == x[2] - x[1]
Larger(n, r, i) == IF Size(Before(n, r, i)) > Size(After(n, r, i)) THEN Before(n, r, i) ELSE After(n, r, i)
Other(n, r, i) == IF Larger(n, r, i) = Before(n, r, i) THEN After(n, r, i) ELSE Before(n, r, i)
Updates(n, r, u, w, i) == u /\ Size(Other(n, r, i)) > 0 /\ ~(w > 0 /\ Size(Other(n, r, i)) < w)
Call(op, x) == [op |-> op, from |-> x[1], to |-> x[2]]
Fresh == [round |-> 0, next |-> "fit", known |-> {}, calls |-> <<>>]
\* the calls that the machine makes next
NextCall(m, n, r, u, w) == IF m.next = "fit" THEN Call("fit", Larger(n, r, m.round))
                           ELSE IF m.next = "update" THEN Call("update", Other(n, r, m.round))
                           ELSE Call("evaluate", Eval(n, r, m.round))
Range_(c) == c.from..(c.to - 1)
Do(m, n, r, u, w) ==
    LET c == NextCall(m, n, r, u, w) IN
    [round |-> IF c.op = "evaluate" THEN m.round + 1 ELSE m.round,
     next |-> IF c.op = "evaluate" THEN (IF m.round + 1 = r THEN "done" ELSE "fit")
              ELSE IF c.op = "fit" /\ Updates(n, r, u, w, m.round) THEN "update" ELSE "evaluate",
     known |-> IF c.op = "evaluate" THEN {} ELSE m.known \cup Range_(c),
     calls |-> Append(m.calls, c)]
=============================================================================
