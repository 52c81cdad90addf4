-------------------------------- MODULE Memory --------------------------------
(* What a user can observe of the collector that Gc describes: the size of the *)
(* heap. Gc keeps what is live, in Bounded: heap <= kept + Limit + 1. Of its   *)
(* state this module has the number of objects only (Heap = Cardinality(heap)),*)
(* its actions are those of Gc as they change that number.                     *)
(*                                                                             *)
(* CASES is a file of recordings: executions of one workload, whose live data  *)
(* does not depend on how long it runs, that differ in the number of rounds.   *)
(* Each has the most memory the process had and (if they could be observed)    *)
(* the collections: how many objects there were before and after.              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
SlackObjects == 400     \* stale references on the stack
                        \* memory: the allowance of the case (kB)

VARIABLES case, run, l, heap, kept, most, why
vars == <<case, run, l, heap, kept, most, why>>

C == Cases[case]
R == C.runs[run]
E == R.collections

Init == /\ case \in DOMAIN Cases
        /\ run = 1 /\ l = 1 /\ heap = 0 /\ kept = 0
        /\ most = <<>>          \* of the runs so far: what their last collections kept
        /\ why = "run"

Stop(x) == why' = x /\ UNCHANGED <<case, run, l, heap, kept, most>>

\* Allocations: the heap grows to what the next collection finds.
Allocate ==
    /\ why = "run" /\ l <= Len(E) /\ heap < E[l][1]
    /\ heap' = E[l][1]
    /\ UNCHANGED <<case, run, l, kept, most, why>>

\* Nothing but a collection frees objects, and it doesn't make any.
Lost == why = "run" /\ l <= Len(E) /\ heap > E[l][1] /\ Stop("objects vanished between collections")

Collect ==
    /\ why = "run" /\ l <= Len(E) /\ heap = E[l][1]
    /\ IF E[l][2] > heap THEN Stop("a collection made objects")
       ELSE /\ heap' = E[l][2] /\ kept' = E[l][2] /\ l' = l + 1
            /\ UNCHANGED <<case, run, most, why>>

\* More rounds don't make a difference.
Finish ==
    /\ why = "run" /\ l > Len(E)
    /\ IF run > 1 /\ Len(E) > 0 /\ most # <<>> /\ kept > most[1] + SlackObjects
         THEN Stop("more is live after more rounds")
       ELSE IF run > 1 /\ R.rss > C.runs[1].rss + C.allowance
         THEN Stop("more rounds take more memory")
       ELSE IF run = Len(C.runs) THEN Stop("accept")
       ELSE /\ run' = run + 1 /\ l' = 1 /\ heap' = 0 /\ kept' = 0
            /\ most' = IF Len(E) > 0 THEN (IF most = <<>> THEN <<kept>> ELSE most) ELSE most
            /\ UNCHANGED <<case, why>>

Next == Allocate \/ Lost \/ Collect \/ Finish
Verdict == why = "run" \/ PrintT("VERDICT " \o ToJson(<<C.id, why, run, l>>))
\* The bound of Gc: what there is has been kept or allocated since.
Bounded == why = "run" /\ l <= Len(E) => kept <= heap
===============================================================================
