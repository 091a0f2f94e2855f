------------------------------ MODULE Collator ------------------------------
(* Time-ordered merge of the sensor streams of several trajectories          *)
(* (sensor/internal: Collator, TrajectoryCollator, OrderedMultiQueue).       *)
(* Keys are <<trajectory, sensor>>. Trajectories that share a merge are in   *)
(* the same group: all of them for the Collator, each its own for the        *)
(* TrajectoryCollator.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Trajectories, Sensors
VARIABLES
  joint,     \* TRUE: one merge for all trajectories
  live,      \* keys that are expected (and not yet drained after finishing)
  fin,       \* keys that were finished: no further data will come
  q,         \* key -> buffered messages [n, time]
  start,     \* trajectory -> common start time, or NoTime if undecided
  last       \* group -> time of the last delivery
cvars == <<joint, live, fin, q, start, last>>
NoTime == -1
Keys == Trajectories \X Sensors
Group(t) == IF joint THEN 0 ELSE t
Groups == {Group(t) : t \in Trajectories}
CInit == /\ live = {} /\ fin = {} /\ q = [k \in Keys |-> <<>>]
         /\ start = [t \in Trajectories |-> NoTime] /\ last = [g \in 0..10 |-> 0]

Of(g) == {k \in live : Group(k[1]) = g}
Buffered(g) == {k \in Of(g) : q[k] # <<>>}
\* Some sensor that is still expected has nothing buffered: it could still
\* produce the earliest message.
Waiting(g) == {k \in Of(g) : q[k] = <<>> /\ k \notin fin}
Head1(k) == q[k][1].time
MinKeys(g) == {k \in Buffered(g) : \A j \in Buffered(g) : Head1(k) <= Head1(j)}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
\* The common start of a trajectory: the time from which all its sensors have data.
Common(t) == IF start[t] # NoTime THEN start[t]
             ELSE SetMax({Head1(k) : k \in {j \in live : j[1] = t /\ q[j] # <<>>}})
Early(k) == Head1(k) < Common(k[1])
Deliverable(k) == (~Early(k) \/ (Len(q[k]) = 1 /\ k \in fin) \/ (Len(q[k]) > 1 /\ q[k][2].time > Common(k[1]))) = TRUE
Held(k) == (Early(k) /\ Len(q[k]) = 1 /\ k \notin fin) = TRUE
Droppable(k) == Early(k) /\ Len(q[k]) > 1 /\ q[k][2].time <= Common(k[1])

Pop(k) == /\ q' = [q EXCEPT ![k] = Tail(@)]
          /\ start' = [start EXCEPT ![k[1]] = Common(k[1])]
          /\ UNCHANGED <<joint, fin, live>>
Deliver(k) == /\ Waiting(Group(k[1])) = {} /\ k \in MinKeys(Group(k[1])) /\ Deliverable(k)
              /\ last' = [last EXCEPT ![Group(k[1])] = Head1(k)] /\ Pop(k)
Drop(k) == /\ Waiting(Group(k[1])) = {} /\ k \in MinKeys(Group(k[1])) /\ Droppable(k)
           /\ last' = last /\ Pop(k)
\* A call may return only when nothing can be delivered any more.
Quiet(g) == \/ Waiting(g) # {} \/ Buffered(g) = {} \/ \E k \in MinKeys(g) : Held(k)
AllQuiet == (\A g \in Groups : Quiet(g)) = TRUE
\* What the merge waits for.
Blockers(g) == Waiting(g) \cup {k \in MinKeys(g) : Held(k)}

AddTrajectory(t, ss) == /\ \A k \in live : k[1] # t
                        /\ live' = TLCEval(live \cup ({t} \X ss)) /\ UNCHANGED <<joint, fin, q, start, last>>
\* Data of sensors that are not expected is ignored.
Add(k, n, time) == /\ q' = IF k \in live THEN [q EXCEPT ![k] = Append(@, [n |-> n, time |-> time])] ELSE q
                   /\ UNCHANGED <<joint, live, fin, start, last>>
\* A finished key that has been drained disappears.
Finish(t) == fin' = TLCEval(fin \cup {k \in live : k[1] = t}) /\ UNCHANGED <<joint, live, q, start, last>>
Flush == fin' = TLCEval(fin \cup live) /\ UNCHANGED <<joint, live, q, start, last>>
Retire == LET d == {k \in live : k \in fin /\ q[k] = <<>>} IN
          live' = TLCEval(live \ d) /\ fin' = TLCEval(fin \ d) /\ UNCHANGED <<joint, q, start, last>>
=============================================================================
