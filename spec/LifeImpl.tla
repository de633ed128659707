------------------------------ MODULE LifeImpl ------------------------------
(* What the engine leaves in the process and takes back: the static tables of its own
   image (the image may stay mapped between two lives), the names and the method tables
   of the library.  A pointer is the number of the life that allocated what it points at. *)
EXTENDS Integers, FiniteSets
CONSTANTS Lives, Mapped, RemoveNames, RemoveAliases, UnregFirst, ClearMethods, ClearGroups
VARIABLES life, up, heap, names, alias, table, method, group, bad
vars == <<life, up, heap, names, alias, table, method, group, bad>>
Nil == 0
\* heap: allocations alive, <<what, life>>
Init == life = 0 /\ up = FALSE /\ heap = {} /\ names = Nil /\ alias = FALSE /\ table = {} /\ method = Nil /\ group = Nil /\ bad = FALSE
Load ==
  /\ ~up /\ life < Lives /\ life' = life + 1 /\ up' = TRUE
  /\ LET m == IF method # Nil THEN method ELSE life + 1 IN      \* made once, then handed out
     /\ method' = m /\ names' = m /\ alias' = TRUE
     /\ heap' = heap \cup {<<"engine", life + 1>>} \cup (IF m = life + 1 THEN {<<"method", m>>} ELSE {})
  /\ table' = table \cup {life + 1} /\ UNCHANGED <<group, bad>>
Key == /\ up /\ LET g == IF group # Nil THEN group ELSE life IN
                 /\ group' = g
                 /\ heap' = heap \cup (IF g = life THEN {<<"group", life>>} ELSE {})
                 /\ bad' = (bad \/ <<"group", g>> \notin heap')
       /\ UNCHANGED <<life, up, names, alias, table, method>>
Unregister == up /\ table' = table \ {life} /\ UNCHANGED <<life, up, heap, names, alias, method, group, bad>>
Destroy ==
  /\ up /\ (UnregFirst => life \notin table)
  /\ up' = FALSE /\ heap' = {x \in heap : x[1] = "key"}
  /\ names' = IF RemoveNames THEN Nil ELSE names
  /\ alias' = IF RemoveAliases THEN FALSE ELSE alias
  /\ \* a mapped image keeps its statics, an unmapped one starts from scratch
     method' = (IF ClearMethods \/ ~Mapped THEN Nil ELSE method)
  /\ group' = (IF ClearGroups \/ ~Mapped THEN Nil ELSE group)
  /\ UNCHANGED <<life, table, bad>>
ByName == /\ names # Nil /\ bad' = (bad \/ <<"method", names>> \notin heap) /\ UNCHANGED <<life, up, heap, names, alias, table, method, group>>
ByTable == /\ table # {} /\ bad' = (bad \/ \E t \in table : <<"engine", t>> \notin heap) /\ UNCHANGED <<life, up, heap, names, alias, table, method, group>>
Next == Load \/ Key \/ Unregister \/ Destroy \/ ByName \/ ByTable
\* nothing released is ever used, and nothing stays behind
NoDangling == ~bad
NothingLeft == ~up => (names = Nil /\ ~alias /\ table = {} /\ method = Nil /\ group = Nil)
=============================================================================
