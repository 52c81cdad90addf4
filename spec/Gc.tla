---------------------------------- MODULE Gc ----------------------------------
(* The garbage collector of the interpreter.                                   *)
(*                                                                             *)
(* Objects (trees) refer to each other through their fields.  What the         *)
(* interpreter works with is found from its stack, which is scanned            *)
(* conservatively (references that it no longer needs may still be there), and *)
(* from static variables.  Every Limit allocations a collection marks what can *)
(* be reached and sweeps the rest.                                             *)
EXTENDS Naturals, FiniteSets

CONSTANTS Obj,          \* the objects
          Statics,      \* static variables
          Limit,        \* allocations between two collections
          Flaw          \* "none", or a defect that the invariants have to find

VARIABLES heap,         \* the objects that are allocated
          fields,       \* what the fields of each object refer to
          stack,        \* what the stack refers to
          used,         \* what of that the interpreter still works with
          static,       \* what each static variable refers to
          marked,       \* the objects whose mark is set
          work,         \* marking: still to be visited; sweeping: still to be examined
          phase,        \* "run", "mark", "sweep"
          count,        \* allocations since the last collection
          kept          \* what the last collection kept
vars == <<heap, fields, stack, used, static, marked, work, phase, count, kept>>

None == "none"
StaticRefs == {static[s] : s \in Statics} \ {None}

RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {fields[o] : o \in S} IN IF T = S THEN S ELSE Reach(T)

\* What the interpreter can get at.
Live == Reach(used \cup StaticRefs)

Init ==
    /\ heap = {} /\ fields = [o \in Obj |-> {}] /\ stack = {} /\ used = {}
    /\ static = [s \in Statics |-> None]
    /\ marked = {} /\ work = {} /\ phase = "run" /\ count = 0 /\ kept = 0

-------------------------------------------------------------------------------
(* The interpreter *)
Due == count > Limit

Alloc(o) ==
    /\ phase = "run" /\ ~Due /\ o \notin heap
    /\ heap' = heap \cup {o}
    /\ fields' = [fields EXCEPT ![o] = {}]
    /\ stack' = stack \cup {o} /\ used' = used \cup {o}
    /\ count' = count + 1
    /\ UNCHANGED <<static, marked, work, phase, kept>>

Load(o) ==                      \* something reachable gets onto the stack
    /\ phase = "run" /\ o \in Live
    /\ stack' = stack \cup {o} /\ used' = used \cup {o}
    /\ UNCHANGED <<heap, fields, static, marked, work, phase, count, kept>>

Drop(o, stale) ==               \* the reference may stay where it was
    /\ phase = "run" /\ o \in used
    /\ used' = used \ {o}
    /\ stack' = IF stale THEN stack ELSE stack \ {o}
    /\ UNCHANGED <<heap, fields, static, marked, work, phase, count, kept>>

Overwrite(o) ==                 \* a stale reference goes away
    /\ phase = "run" /\ o \in stack \ used
    /\ stack' = stack \ {o}
    /\ UNCHANGED <<heap, fields, used, static, marked, work, phase, count, kept>>

Link(a, o) ==
    /\ phase = "run" /\ a \in Live /\ o \in used
    /\ fields' = [fields EXCEPT ![a] = @ \cup {o}]
    /\ UNCHANGED <<heap, stack, used, static, marked, work, phase, count, kept>>

Unlink(a, o) ==
    /\ phase = "run" /\ a \in Live /\ o \in fields[a]
    /\ fields' = [fields EXCEPT ![a] = @ \ {o}]
    /\ UNCHANGED <<heap, stack, used, static, marked, work, phase, count, kept>>

SetStatic(s, o) ==
    /\ phase = "run" /\ o \in used \cup {None}
    /\ static' = [static EXCEPT ![s] = o]
    /\ UNCHANGED <<heap, fields, stack, used, marked, work, phase, count, kept>>

-------------------------------------------------------------------------------
(* The collector *)
Start ==
    /\ phase = "run" /\ Due
    /\ phase' = "mark"
    /\ work' = (CASE Flaw = "stack only" -> stack
                  [] Flaw = "statics only" -> StaticRefs
                  [] OTHER -> stack \cup StaticRefs)
    /\ UNCHANGED <<heap, fields, stack, used, static, marked, count, kept>>

Mark(o) ==
    /\ phase = "mark" /\ o \in work
    /\ marked' = marked \cup {o}
    /\ work' = (work \ {o}) \cup (IF o \in marked \/ Flaw = "roots only" THEN {} ELSE fields[o])
    /\ UNCHANGED <<heap, fields, stack, used, static, phase, count, kept>>

Marked ==
    /\ phase = "mark" /\ work = {}
    /\ phase' = "sweep" /\ work' = heap
    /\ UNCHANGED <<heap, fields, stack, used, static, marked, count, kept>>

Sweep(o) ==
    /\ phase = "sweep" /\ o \in work
    /\ work' = work \ {o}
    /\ heap' = IF o \in marked THEN heap ELSE heap \ {o}
    /\ marked' = IF Flaw = "marks stay" THEN marked ELSE marked \ {o}
    /\ UNCHANGED <<fields, stack, used, static, phase, count, kept>>

Swept ==
    /\ phase = "sweep" /\ work = {}
    /\ phase' = "run" /\ count' = 0 /\ kept' = Cardinality(heap)
    /\ UNCHANGED <<heap, fields, stack, used, static, marked, work>>

Collect == Start \/ Marked \/ Swept \/ \E o \in Obj : Mark(o) \/ Sweep(o)

Next ==
    \/ Collect
    \/ \E o \in Obj : Alloc(o) \/ Load(o) \/ Drop(o, TRUE) \/ Drop(o, FALSE) \/ Overwrite(o)
    \/ \E a, o \in Obj : Link(a, o) \/ Unlink(a, o)
    \/ \E s \in Statics, o \in Obj \cup {None} : SetStatic(s, o)

Spec == Init /\ [][Next]_vars /\ WF_vars(Collect)

-------------------------------------------------------------------------------
\* Nothing that can be used is ever freed.
Safe == Live \subseteq heap
\* A collection keeps what the roots reach, and nothing else.
Exact == phase = "run" /\ count = 0 /\ kept > 0 => kept >= Cardinality(Live)
JustSwept == phase = "sweep" /\ work = {} => heap = Reach(stack \cup StaticRefs)
\* The next collection starts from clear marks.
Clean == phase = "run" => marked = {}
\* Memory is in proportion to what is live.
Bounded == Cardinality(heap) <= kept + Limit + 1
\* Collections end.
Ends == (phase # "run") ~> (phase = "run")
===============================================================================
