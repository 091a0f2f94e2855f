--------------------------- MODULE PoseGraphQueue ---------------------------
(* How the pose graph's implementation processes its queue of work:          *)
(* AddWorkItem appends under the queue lock and, if there was no queue,      *)
(* creates it and schedules a drain task; a drain task pops items one at a   *)
(* time until the queue is empty (and removes the queue) or an item asks for *)
(* an optimisation; then the constraint builder is asked to call back when   *)
(* all computations so far are done, which optimises and drains again.       *)
(* Checked here: one drainer at a time, order, nothing lost, no deadlock,    *)
(* and that it implements the abstract queue used in PoseGraph.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, PerClient
Items == Clients \X (1..PerClient)
VARIABLES
  next,    \* client -> next item to add
  wq,      \* [on: queue exists, s: items]
  tasks,   \* scheduled but not started drain tasks
  drain,   \* number of threads draining
  held,    \* item being processed (<<>>: none)
  comp,    \* number of constraint computations running
  cb,      \* callbacks waiting for computations to end
  opt,     \* an optimisation runs
  done,    \* items processed, in order
  added    \* items in the order they were added
vars == <<next, wq, tasks, drain, held, comp, cb, opt, done, added>>
None == <<>>
Init == /\ next = [c \in Clients |-> 1] /\ wq = [on |-> FALSE, s |-> <<>>] /\ tasks = 0 /\ drain = 0
        /\ held = None /\ comp = 0 /\ cb = 0 /\ opt = FALSE /\ done = <<>> /\ added = <<>>
Add(c) ==
  LET it == <<c, next[c]>> IN
  /\ next[c] <= PerClient /\ next' = [next EXCEPT ![c] = @ + 1]
  /\ added' = Append(added, it)
  /\ wq' = [on |-> TRUE, s |-> Append(wq.s, it)]
  /\ tasks' = IF wq.on THEN tasks ELSE tasks + 1
  /\ UNCHANGED <<drain, held, comp, cb, opt, done>>
Begin == tasks > 0 /\ tasks' = tasks - 1 /\ drain' = drain + 1 /\ UNCHANGED <<next, wq, held, comp, cb, opt, done, added>>
Pop == /\ drain > 0 /\ held = None
       /\ IF wq.s = <<>> THEN wq' = [on |-> FALSE, s |-> <<>>] /\ drain' = drain - 1 /\ UNCHANGED held
          ELSE held' = Head(wq.s) /\ wq' = [wq EXCEPT !.s = Tail(@)] /\ UNCHANGED drain
       /\ UNCHANGED <<next, tasks, comp, cb, opt, done, added>>
\* Processing may start computations, and may ask for an optimisation.
Process == /\ held # None /\ held' = None /\ done' = Append(done, held)
           /\ comp' \in {comp, comp + 1} /\ comp' <= 2
           /\ \/ UNCHANGED <<drain, cb>>
              \/ drain' = drain - 1 /\ cb' = cb + 1
           /\ UNCHANGED <<next, wq, tasks, opt, added>>
Computed == comp > 0 /\ comp' = comp - 1 /\ UNCHANGED <<next, wq, tasks, drain, held, cb, opt, done, added>>
Callback == /\ cb > 0 /\ comp = 0 /\ ~opt /\ cb' = cb - 1 /\ opt' = TRUE
            /\ UNCHANGED <<next, wq, tasks, drain, held, comp, done, added>>
Optimised == /\ opt /\ opt' = FALSE /\ drain' = drain + 1 /\ UNCHANGED <<next, wq, tasks, held, comp, cb, done, added>>
Back == Begin \/ Pop \/ Process \/ Computed \/ Callback \/ Optimised
Next == (\E c \in Clients : Add(c)) \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Back)
\* ---- properties
OneDrainer == tasks + drain + cb + (IF opt THEN 1 ELSE 0) <= 1
QueueOnIffBusy == wq.on <=> tasks + drain + cb + (IF opt THEN 1 ELSE 0) = 1
Fifo == done \o (IF held = None THEN <<>> ELSE <<held>>) \o wq.s = added
Finished == \A c \in Clients : next[c] > PerClient
AllDone == (Finished) ~> (Len(done) = Cardinality(Items) /\ ~wq.on)
\* The abstract queue of PoseGraph.
Abs == INSTANCE AbstractQueue WITH q <- (IF held = None THEN <<>> ELSE <<held>>) \o wq.s, idle <- ~wq.on
Refines == Abs!Spec
=============================================================================
