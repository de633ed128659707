----------------------------- MODULE FaultsImpl -----------------------------
(* An operation as the engine performs it: it makes the parts it needs one after another (each may fail to come, for want of
   memory or of random numbers), uses them, hands out a result and gives the parts back.  A caller repeats what was refused.
   What must hold whatever fails: a part that did not come is never used, an operation with a failed part has no result,
   a random part that did not come is never replaced by whatever lies in its buffer, persistent objects are as before, and
   a repetition with nothing failing succeeds.  The constants remove one safeguard each. *)
EXTENDS Naturals, FiniteSets

CONSTANTS Parts,         \* number of parts
          Random,        \* those that come from the random source
          MaxTries,
          Checked,       \* a part is checked before use
          Propagated,    \* a failure makes the operation fail
          OldKept,       \* the persistent object changes only when all parts are there
          CleansUp       \* parts made before a failure are given back

VARIABLES pc,      \* idle, or the number of the part to make, or done
          have,    \* parts that came
          stale,   \* random parts whose buffer holds what was there before
          failed,  \* did something fail in this try?
          obj,     \* the persistent object: old, new or torn
          res,     \* none, right, wrong, refused
          left,    \* parts nobody gives back
          crash, tries

vars == <<pc, have, stale, failed, obj, res, left, crash, tries>>

Init == pc = 0 /\ have = {} /\ stale = {} /\ failed = FALSE /\ obj = "old" /\ res = "none" /\ left = 0 /\ crash = FALSE /\ tries = 0

Begin == /\ pc = 0 /\ tries < MaxTries /\ res \in {"none", "refused"}
         /\ pc' = 1 /\ have' = {} /\ stale' = {} /\ failed' = FALSE /\ res' = "none" /\ tries' = tries + 1
         /\ UNCHANGED <<obj, left, crash>>

Came == /\ pc \in 1..Parts
        /\ have' = have \cup {pc} /\ pc' = pc + 1
        /\ obj' = IF OldKept \/ obj = "new" THEN obj ELSE "torn"
        /\ UNCHANGED <<stale, failed, res, left, crash, tries>>

GiveUp == /\ pc' = 0 /\ res' = "refused" /\ left' = left + (IF CleansUp THEN 0 ELSE Cardinality(have))
          /\ have' = {}

DidNotCome == /\ pc \in 1..Parts
              /\ failed' = TRUE
              /\ \/ /\ Checked /\ Propagated
                    /\ GiveUp /\ UNCHANGED <<stale, crash>>
                 \/ /\ ~ (Checked /\ Propagated)
                    /\ pc' = pc + 1
                    /\ stale' = IF pc \in Random THEN stale \cup {pc} ELSE stale
                    /\ UNCHANGED <<have, res, left, crash>>
              /\ UNCHANGED <<obj, tries>>

Use == /\ pc = Parts + 1
       /\ LET missing == (1..Parts) \ (have \cup stale)
          IN \/ /\ missing # {} /\ ~ Checked
                /\ crash' = TRUE /\ pc' = 0 /\ res' = "refused" /\ UNCHANGED <<obj, left, have>>
             \/ /\ missing # {} /\ Checked       \* noticed, but only here, and not reported
                /\ res' = "wrong" /\ pc' = 0 /\ have' = {} /\ UNCHANGED <<obj, left, crash>>
             \/ /\ missing = {}
                /\ res' = IF stale = {} THEN "right" ELSE "wrong"
                /\ obj' = "new" /\ pc' = 0 /\ have' = {} /\ UNCHANGED <<left, crash>>
       /\ UNCHANGED <<stale, failed, tries>>

Next == Begin \/ Came \/ DidNotCome \/ Use

Spec == Init /\ [][Next]_vars

NoCrash == ~ crash
NeverWrong == res # "wrong"
FailedIsRefused == (pc = 0 /\ failed) => res \in {"refused", "none"}
NothingLeft == pc = 0 => left = 0
Untorn == (pc = 0 /\ res = "refused") => obj = "old"
=============================================================================
