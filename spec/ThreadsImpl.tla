---------------------------- MODULE ThreadsImpl ----------------------------
(* The two places where threads meet, step by step: the group of a parameter set, which
   is made at its first use, kept in a table of the process and known by two names; and
   a setting, looked up in the environment at its first use and kept as a string.
   Each step is one access to shared data or one library call.  What may go wrong can be
   switched on: no lock, the shared group renamed for a caller, the group published before it
   is complete, the old string released by a second first use.                          *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NT, UseLock, RenameShared, PublishEarly, FreeOld, UseString
VARIABLES pc, asks, lock, table, heap, mine, key, str, got, freed
vars == <<pc, asks, lock, table, heap, mine, key, str, got, freed>>
Threads == 1..NT
Nil == 0
\* a group: its name and whether generator and order are set
Group == [name : {"none", "own", "alias"}, full : BOOLEAN]
Init == /\ pc = [t \in Threads |-> "start"] /\ asks \in [Threads -> {"own", "alias", "setting"}]
        /\ lock = Nil /\ table = Nil /\ heap = <<>> /\ mine = [t \in Threads |-> Nil] /\ key = [t \in Threads |-> [name |-> "none", full |-> FALSE]]
        /\ str = Nil /\ got = [t \in Threads |-> Nil] /\ freed = {}
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Same(v) == v' = v
Un(vs) == UNCHANGED vs
Take(t) == /\ pc[t] = "start" /\ (UseLock => lock = Nil) /\ lock' = (IF UseLock THEN t ELSE lock)
           /\ Go(t, IF asks[t] = "setting" THEN "sread" ELSE "check") /\ Un(<<asks, table, heap, mine, key, str, got, freed>>)
\* ------------------------------------------------------------------ groups
Check(t) == pc[t] = "check" /\ Go(t, IF table # Nil THEN "have" ELSE "make") /\ Un(<<asks, lock, table, heap, mine, key, str, got, freed>>)
Make(t) == /\ pc[t] = "make" /\ heap' = Append(heap, [name |-> "none", full |-> FALSE]) /\ mine' = [mine EXCEPT ![t] = Len(heap) + 1]
           /\ table' = (IF PublishEarly THEN Len(heap) + 1 ELSE table) /\ Go(t, "complete") /\ Un(<<asks, lock, key, str, got, freed>>)
Complete(t) == /\ pc[t] = "complete" /\ heap' = [heap EXCEPT ![mine[t]].full = TRUE] /\ Go(t, "name") /\ Un(<<asks, lock, table, mine, key, str, got, freed>>)
Name(t) == /\ pc[t] = "name" /\ heap' = [heap EXCEPT ![mine[t]].name = IF RenameShared THEN asks[t] ELSE "own"] /\ Go(t, "publish") /\ Un(<<asks, lock, table, mine, key, str, got, freed>>)
Publish(t) == /\ pc[t] = "publish" /\ table' = mine[t] /\ Go(t, "have") /\ Un(<<asks, lock, heap, mine, key, str, got, freed>>)
Have(t) == /\ pc[t] = "have" /\ mine' = [mine EXCEPT ![t] = table] /\ Go(t, IF RenameShared THEN "rename" ELSE "release") /\ Un(<<asks, lock, table, heap, key, str, got, freed>>)
Rename(t) == /\ pc[t] = "rename" /\ heap' = [heap EXCEPT ![mine[t]].name = asks[t]] /\ Go(t, "release") /\ Un(<<asks, lock, table, mine, key, str, got, freed>>)
Release(t) == /\ pc[t] = "release" /\ lock' = (IF UseLock THEN Nil ELSE lock) /\ Go(t, IF asks[t] = "setting" THEN "use" ELSE "set") /\ Un(<<asks, table, heap, mine, key, str, got, freed>>)
\* the key gets a copy; a copy may be renamed, the shared one not
SetKey(t) == /\ pc[t] = "set" /\ key' = [key EXCEPT ![t] = IF RenameShared THEN heap[mine[t]] ELSE [heap[mine[t]] EXCEPT !.name = asks[t]]]
             /\ Go(t, "done") /\ Un(<<asks, lock, table, heap, mine, str, got, freed>>)
\* ------------------------------------------------------------------ settings; strings are numbered
SRead(t) == pc[t] = "sread" /\ (IF str # Nil THEN Go(t, "sget") ELSE Go(t, "smake")) /\ Un(<<asks, lock, table, heap, mine, key, str, got, freed>>)
SMake(t) == /\ pc[t] = "smake" /\ freed' = (IF FreeOld /\ str # Nil THEN freed \cup {str} ELSE freed) /\ str' = t /\ Go(t, "sget")
            /\ Un(<<asks, lock, table, heap, mine, key, got>>)
SGet(t) == pc[t] = "sget" /\ got' = [got EXCEPT ![t] = str] /\ Go(t, "release") /\ Un(<<asks, lock, table, heap, mine, key, str, freed>>)
Use(t) == UseString /\ pc[t] = "use" /\ Go(t, IF got[t] \in freed THEN "gone" ELSE "done") /\ Un(<<asks, lock, table, heap, mine, key, str, got, freed>>)
Next == \E t \in Threads : Take(t) \/ Check(t) \/ Make(t) \/ Complete(t) \/ Name(t) \/ Publish(t) \/ Have(t) \/ Rename(t) \/ Release(t) \/ SetKey(t) \/ SRead(t) \/ SMake(t) \/ SGet(t) \/ Use(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == \A t \in Threads : (pc[t] = "done" /\ asks[t] # "setting") => (key[t].name = asks[t] /\ key[t].full)
Once == Len(heap) <= 1
Valid == \A t \in Threads : pc[t] # "gone"
\* nobody waits for ever
AllDone == <>(\A t \in Threads : pc[t] \in {"done", "gone"})
=============================================================================
