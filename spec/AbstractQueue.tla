---------------------------- MODULE AbstractQueue ----------------------------
(* The queue of work as PoseGraph sees it: items enter at the end and are    *)
(* processed from the front; a waiting client is let go when it is idle.     *)
EXTENDS Integers, Sequences
CONSTANTS Items
VARIABLES q, idle, done
vars == <<q, idle, done>>
Init == q = <<>> /\ idle = TRUE /\ done = <<>>
Put == \E i \in Items : q' = Append(q, i) /\ idle' = FALSE /\ UNCHANGED done
Take == q # <<>> /\ ~idle /\ q' = Tail(q) /\ done' = Append(done, Head(q)) /\ UNCHANGED idle
Rest == q = <<>> /\ ~idle /\ idle' = TRUE /\ UNCHANGED <<q, done>>
Spec == Init /\ [][Put \/ Take \/ Rest]_vars
=============================================================================
