------------------------------- MODULE Export -------------------------------
(* The encoding table for the input generator (what to exercise, not what is  *)
(* right: the verdicts come from the trace specifications).                   *)
EXTENDS Isa, IOUtils, Json
Rec(i) == [mn |-> Enc[i].mn, p |-> Enc[i].p, q |-> Enc[i].q, g |-> Enc[i].g, k |-> Enc[i].k]
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..NE |-> Rec(i)])
=============================================================================
