----------------------------- MODULE ModesEval -----------------------------
(* Prints the keystream terms of Modes.tla so that the closed-form evaluator used
   as the replay oracle can be compared with them term by term.                *)
EXTENDS Modes, TLC, Json
CONSTANTS BSet, NBlk
VARIABLES mode, b, s, i
Init == /\ mode \in {"ctr", "cnt", "ofb", "cfb"} /\ b \in BSet /\ s \in {0, b, 2 * b, 3 * b}
        /\ (mode = "cnt" => b = 8) /\ (mode = "ofb" => s = 0) /\ i = 0
Next == i < NBlk * b /\ i' = i + (IF i % b = 0 THEN 1 ELSE IF i % b = 1 THEN b - 2 ELSE 1) /\ UNCHANGED <<mode, b, s>>
Show == PrintT("@@" \o ToJson([mode |-> mode, B |-> b, S |-> s, i |-> i, ks |-> KsByte(mode, 1, 1, b, s, i)]))
\* meaning-level facts: the keystream changes key exactly at section boundaries, never repeats inside a message
EpochRule == KsByte(mode, 1, 1, b, s, i).blk[3] = IF s = 0 THEN 0 ELSE i \div s
=============================================================================
