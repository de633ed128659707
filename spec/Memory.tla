------------------------------- MODULE Memory -------------------------------
(* Who owns what the library allocates.  A context is a shell that libcrypto allocates and releases; what the engine puts
   into it (a CMAC context, a nested MAC, a key schedule) is a block of its own, made when the context is started, released
   by the cleanup hook.  libcrypto runs the hook once after a final and marks the context as cleaned; it runs it at the end
   only if the context is not so marked.  Copies begin as byte-for-byte images of the shell, so that for a moment two shells
   point at one block.  Whatever the history, every live block must belong to exactly one open object and nothing may be
   released twice - which is what the replay of every other specification's behaviours is weighed against: when all objects
   of a history are closed, as much is outstanding as before it. *)
EXTENDS Naturals, FiniteSets

CONSTANTS Objs, Blocks,
          StartReleases,    \* a start gives back what an earlier start made
          StartUnmarks,     \* a start after a final takes the mark off again
          CopyOwns,         \* the copy hook makes a block of its own for the copy
          CopyReleases,     \* and the copy's earlier block is given back
          RefuseReleases    \* what was made before an operation was refused is given back

VARIABLES open,    \* the open objects
          inner,   \* object -> its block, 0 if none
          marked,  \* cleaned after a final
          heap,    \* blocks allocated and not released
          twice    \* was something released that was not there?

vars == <<open, inner, marked, heap, twice>>

Init == open = {} /\ inner = [o \in Objs |-> 0] /\ marked = {} /\ heap = {} /\ twice = FALSE

Fresh(b) == b \in Blocks \ heap

Open(o) == /\ o \notin open
           /\ open' = open \cup {o} /\ inner' = [inner EXCEPT ![o] = 0] /\ marked' = marked \ {o}
           /\ UNCHANGED <<heap, twice>>

Gone(o) == IF inner[o] = 0 THEN {} ELSE {inner[o]}

Start(o, b) == /\ o \in open /\ Fresh(b)
               /\ inner' = [inner EXCEPT ![o] = b]
               /\ heap' = (IF StartReleases THEN heap \ Gone(o) ELSE heap) \cup {b}
               /\ twice' = (twice \/ (StartReleases /\ ~ (Gone(o) \subseteq heap)))
               /\ marked' = IF StartUnmarks THEN marked \ {o} ELSE marked
               /\ UNCHANGED open

\* refused after the block was made: the object holds nothing then
Refused(o, b) == /\ o \in open /\ Fresh(b)
                 /\ inner' = [inner EXCEPT ![o] = 0]
                 /\ heap' = (heap \ Gone(o)) \cup (IF RefuseReleases THEN {} ELSE {b})
                 /\ twice' = (twice \/ ~ (Gone(o) \subseteq heap))
                 /\ marked' = marked \ {o}
                 /\ UNCHANGED open

Final(o) == /\ o \in open /\ o \notin marked
            /\ heap' = heap \ Gone(o) /\ twice' = (twice \/ ~ (Gone(o) \subseteq heap))
            /\ inner' = [inner EXCEPT ![o] = 0] /\ marked' = marked \cup {o}
            /\ UNCHANGED open

Copy(o, p, b) == /\ o \in open /\ p \in open /\ o # p /\ Fresh(b)
                 /\ LET mine == IF CopyReleases /\ p \notin marked THEN Gone(p) ELSE {}
                        new == IF inner[o] = 0 THEN 0 ELSE IF CopyOwns THEN b ELSE inner[o]
                    IN /\ heap' = (heap \ mine) \cup (IF new = b THEN {b} ELSE {})
                       /\ twice' = (twice \/ ~ (mine \subseteq heap))
                       /\ inner' = [inner EXCEPT ![p] = new]
                 /\ marked' = IF o \in marked THEN marked \cup {p} ELSE marked \ {p}
                 /\ UNCHANGED open

Close(o) == /\ o \in open
            /\ LET mine == IF o \in marked THEN {} ELSE Gone(o)
               IN heap' = heap \ mine /\ twice' = (twice \/ ~ (mine \subseteq heap))
            /\ open' = open \ {o} /\ inner' = [inner EXCEPT ![o] = 0] /\ marked' = marked \ {o}

Next == \E o \in Objs : \/ Open(o) \/ Final(o) \/ Close(o)
                        \/ \E b \in Blocks : Start(o, b) \/ Refused(o, b) \/ \E p \in Objs : Copy(o, p, b)

Spec == Init /\ [][Next]_vars

Owned == heap = {inner[o] : o \in open} \ {0}
OneOwner == \A o, p \in open : o # p /\ inner[o] # 0 => inner[o] # inner[p]
NeverTwice == ~ twice
Balanced == open = {} => heap = {}
=============================================================================
