----------------------------- MODULE ParamsImpl -----------------------------
(* How the parameters of a cipher travel between contexts, shaped like the code
   (gost89_set/get_asn1_parameters, magma_set/get_asn1_parameters and the init
   functions): a context has an original IV and a current one, an S-box, a section
   size and a section size implied by parameters.  Against it the meaning: what a
   context works with is decided by the last initialisation and the last parameters.
   Kinds: "free" S-box chosen by parameters (gost89, gost89-cbc); "fixed" S-box of
   the cipher (gost89-cnt, magma-cbc); "mesh" sections (..-ctr-acpkm); "plain"
   counter mode without sections (magma-ctr). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, Slots, Keys, Ivs, Boxes, Steps,
          BothIvs, RefuseBox, MeshOnly, NewIvDefault, KeepBig   \* removable safeguards
VARIABLES c, a, wire, n
vars == <<c, a, wire, n>>
Own == CHOOSE b \in Boxes : TRUE
Def == 1
Big == 8
HasSec == Kind = "mesh"
New == [key |-> 0, oiv |-> 0, iv |-> 0, box |-> Own, sec |-> IF HasSec THEN Def ELSE 0, asec |-> 0, moved |-> FALSE]
ANew == [key |-> 0, iv |-> 0, box |-> Own, sec |-> IF HasSec THEN Def ELSE 0]
Init == c = [s \in Slots |-> New] /\ a = [s \in Slots |-> ANew] /\ wire = {} /\ n = 0
Tick == n < Steps /\ n' = n + 1

Reset(s) == /\ Tick /\ c' = [c EXCEPT ![s] = New] /\ a' = [a EXCEPT ![s] = ANew] /\ UNCHANGED wire
Start(s, k, v) ==
  /\ Tick
  /\ LET o == c[s]
         oiv == IF v # 0 THEN v ELSE o.oiv
         asec == IF v # 0 /\ NewIvDefault THEN 0 ELSE o.asec
     IN c' = [c EXCEPT ![s] = [o EXCEPT !.key = IF k # 0 THEN k ELSE @, !.oiv = oiv, !.iv = oiv, !.asec = asec, !.moved = FALSE,
                                       !.sec = IF ~HasSec THEN 0 ELSE IF asec # 0 THEN asec ELSE Def]]
  /\ a' = [a EXCEPT ![s] = [@ EXCEPT !.key = IF k # 0 THEN k ELSE @, !.iv = IF v # 0 THEN v ELSE @,
                                     !.sec = IF HasSec /\ v # 0 THEN Def ELSE @]]
  /\ UNCHANGED wire
SetBox(s, b) ==
  /\ Kind = "free" /\ Tick
  /\ c' = [c EXCEPT ![s].box = b] /\ a' = [a EXCEPT ![s].box = b] /\ UNCHANGED wire
Data(s) == /\ c[s].key # 0 /\ ~c[s].moved /\ Tick /\ c' = [c EXCEPT ![s].moved = TRUE] /\ UNCHANGED <<a, wire>>
BigOf(o) == IF HasSec \/ ~MeshOnly THEN Big ELSE o.sec
Take(s) ==
  /\ c[s].oiv # 0 /\ ~c[s].moved /\ Tick
  /\ wire' = wire \cup {[iv |-> c[s].iv, box |-> c[s].box, from |-> [key |-> a[s].key, iv |-> a[s].iv, box |-> a[s].box]]}
  /\ c' = [c EXCEPT ![s] = [@ EXCEPT !.sec = BigOf(c[s]), !.asec = IF (HasSec \/ ~MeshOnly) /\ KeepBig THEN Big ELSE @]]
  /\ a' = [a EXCEPT ![s].sec = IF HasSec THEN Big ELSE 0]
Fits(p) == Kind # "fixed" \/ p.box = Own
Give(s, p) ==
  /\ Tick
  /\ IF ~Fits(p) /\ RefuseBox THEN UNCHANGED <<c, a>>
     ELSE /\ c' = [c EXCEPT ![s] = [@ EXCEPT !.oiv = p.iv, !.iv = IF BothIvs THEN p.iv ELSE @, !.box = IF Kind \in {"free", "fixed"} THEN p.box ELSE @,
                                            !.sec = BigOf(c[s]), !.asec = IF (HasSec \/ ~MeshOnly) /\ KeepBig THEN Big ELSE @]]
          /\ a' = [a EXCEPT ![s] = IF Fits(p) THEN [@ EXCEPT !.iv = p.iv, !.box = IF Kind = "free" THEN p.box ELSE @,
                                                                      !.sec = IF HasSec THEN Big ELSE @] ELSE @]
  /\ UNCHANGED wire
\* parameters somebody else made
Foreign == {[iv |-> v, box |-> b, from |-> [key |-> 0, iv |-> v, box |-> b]] : v \in Ivs, b \in Boxes}
Next == \E s \in Slots : \/ Reset(s) \/ Take(s) \/ Data(s)
          \/ \E k \in Keys \cup {0}, v \in Ivs \cup {0} : Start(s, k, v)
          \/ \E b \in Boxes : SetBox(s, b)
          \/ \E p \in wire \cup Foreign : Give(s, p)
\* what a context is about to work with is what it was told
Told == \A s \in Slots : (~c[s].moved /\ c[s].key # 0) => c[s].iv = a[s].iv /\ c[s].box = a[s].box /\ c[s].sec = a[s].sec /\ c[s].key = a[s].key
\* parameters say what their sender works with
Says == \A p \in wire : p.iv = p.from.iv /\ p.box = p.from.box
=============================================================================
