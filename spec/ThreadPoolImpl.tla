--------------------------- MODULE ThreadPoolImpl ---------------------------
(* common::ThreadPool and common::Task at the grain of their critical         *)
(* sections: one action per region held under Task::mutex_ or                 *)
(* ThreadPool::mutex_. TLC checks that every interleaving refines ThreadPool. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Tasks, Workers, MaxDeps

VARIABLES
  deps,        \* history: dependencies named so far (abstract view)
  state,       \* Task::state_
  uncompleted, \* Task::uncompleted_dependencies_
  dependents,  \* Task::dependent_tasks_
  adding,      \* AddDependency between its two critical sections: <<t, d>> or <<>>
  inserted,    \* tasks_not_ready_
  queue,       \* task_queue_
  handle,      \* tasks whose Schedule has returned
  running,     \* running_
  worker,      \* worker[w]: <<"idle">>, <<"popped", t>>, <<"body", t>>, <<"notify", t, rest>>, <<"gone">>
  phase, pool  \* abstract view of the same tasks
vars == <<deps, state, uncompleted, dependents, adding, inserted, queue, handle, running, worker, phase, pool>>

Abs == INSTANCE ThreadPool WITH nthreads <- Cardinality(Workers)

Init == /\ deps = [t \in Tasks |-> {}]
        /\ state = [t \in Tasks |-> "NEW"]
        /\ uncompleted = [t \in Tasks |-> 0]
        /\ dependents = [t \in Tasks |-> {}]
        /\ adding = <<>>
        /\ inserted = {} /\ queue = <<>> /\ handle = {} /\ running = TRUE
        /\ worker = [w \in Workers |-> <<"idle">>]
        /\ phase = [t \in Tasks |-> "new"] /\ pool = "up"

\* Task::AddDependency, first critical section (under t's mutex).
AddDep1(t, d) ==
  /\ running /\ adding = <<>> /\ state[t] = "NEW" /\ t \notin inserted /\ d \in handle /\ d \notin deps[t]
  /\ Cardinality(deps[t]) < MaxDeps
  /\ uncompleted' = [uncompleted EXCEPT ![t] = @ + 1]
  /\ adding' = <<t, d>>
  /\ deps' = [deps EXCEPT ![t] = @ \cup {d}]
  /\ UNCHANGED <<state, dependents, inserted, queue, handle, running, worker, phase, pool>>

\* Task::AddDependentTask (under d's mutex, nesting t's when d is COMPLETED).
AddDep2 ==
  /\ adding # <<>>
  /\ LET t == adding[1]  d == adding[2] IN
     IF state[d] = "COMPLETED"
     THEN /\ uncompleted' = [uncompleted EXCEPT ![t] = @ - 1]
          /\ UNCHANGED dependents
     ELSE /\ dependents' = [dependents EXCEPT ![d] = @ \cup {t}]
          /\ UNCHANGED uncompleted
  /\ adding' = <<>>
  /\ UNCHANGED <<deps, state, inserted, queue, handle, running, worker, phase, pool>>

\* ThreadPool::Schedule: insertion under the pool's mutex ...
Schedule1(t) ==
  /\ adding = <<>> /\ state[t] = "NEW" /\ t \notin inserted /\ running
  /\ inserted' = inserted \cup {t}
  /\ phase' = [phase EXCEPT ![t] = "sched"]
  /\ UNCHANGED <<deps, state, uncompleted, dependents, adding, queue, handle, running, worker, pool>>

\* ... then Task::SetThreadPool (task mutex, nesting the pool's).
Schedule2(t) ==
  /\ t \in inserted /\ state[t] = "NEW"
  /\ IF uncompleted[t] = 0
     THEN /\ state' = [state EXCEPT ![t] = "DEPS"]
          /\ queue' = Append(queue, t) /\ inserted' = inserted \ {t}
     ELSE /\ state' = [state EXCEPT ![t] = "DISPATCHED"] /\ UNCHANGED <<queue, inserted>>
  /\ handle' = handle \cup {t}
  /\ UNCHANGED <<deps, uncompleted, dependents, adding, running, worker, phase, pool>>

Pop(w) ==
  /\ worker[w] = <<"idle">> /\ queue # <<>>
  /\ worker' = [worker EXCEPT ![w] = <<"popped", Head(queue)>>]
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<deps, state, uncompleted, dependents, adding, inserted, handle, running, phase, pool>>

Leave(w) ==
  /\ worker[w] = <<"idle">> /\ queue = <<>> /\ ~running
  /\ worker' = [worker EXCEPT ![w] = <<"gone">>]
  /\ UNCHANGED <<deps, state, uncompleted, dependents, adding, inserted, queue, handle, running, phase, pool>>

ExecuteBegin(w) ==
  /\ worker[w][1] = "popped"
  /\ LET t == worker[w][2] IN
     /\ Assert(state[t] = "DEPS", "CHECK_EQ(state_, DEPENDENCIES_COMPLETED)")
     /\ state' = [state EXCEPT ![t] = "RUNNING"]
     /\ worker' = [worker EXCEPT ![w] = <<"body", t>>]
     /\ phase' = [phase EXCEPT ![t] = "running"]
  /\ UNCHANGED <<deps, uncompleted, dependents, adding, inserted, queue, handle, running, pool>>

\* The work item returns.
BodyEnd(w) ==
  /\ worker[w][1] = "body"
  /\ LET t == worker[w][2] IN
     /\ worker' = [worker EXCEPT ![w] = <<"complete", t>>]
     /\ phase' = [phase EXCEPT ![t] = "done"]
  /\ UNCHANGED <<deps, state, uncompleted, dependents, adding, inserted, queue, handle, running, pool>>

\* state_ = COMPLETED and the walk over dependent_tasks_ happen under the
\* task's mutex; each dependent's own mutex is taken in turn.
Complete(w) ==
  /\ worker[w][1] = "complete"
  /\ LET t == worker[w][2] IN
     /\ state' = [state EXCEPT ![t] = "COMPLETED"]
     /\ worker' = [worker EXCEPT ![w] = <<"notify", t, dependents[t]>>]
  /\ UNCHANGED <<deps, uncompleted, dependents, adding, inserted, queue, handle, running, phase, pool>>

Notify(w) ==
  /\ worker[w][1] = "notify" /\ worker[w][3] # {}
  /\ \E x \in worker[w][3] :
     LET n == uncompleted[x] - 1 IN
     /\ Assert(state[x] \in {"NEW", "DISPATCHED"}, "CHECK in OnDependenyCompleted")
     /\ uncompleted' = [uncompleted EXCEPT ![x] = n]
     /\ IF n = 0 /\ state[x] = "DISPATCHED"
        THEN /\ state' = [state EXCEPT ![x] = "DEPS"]
             /\ Assert(x \in inserted, "CHECK in NotifyDependenciesCompleted")
             /\ queue' = Append(queue, x) /\ inserted' = inserted \ {x}
        ELSE UNCHANGED <<state, queue, inserted>>
     /\ worker' = [worker EXCEPT ![w] = <<"notify", worker[w][2], worker[w][3] \ {x}>>]
  /\ UNCHANGED <<deps, dependents, adding, handle, running, phase, pool>>

NotifyEnd(w) ==
  /\ worker[w][1] = "notify" /\ worker[w][3] = {}
  /\ worker' = [worker EXCEPT ![w] = <<"idle">>]
  /\ UNCHANGED <<deps, state, uncompleted, dependents, adding, inserted, queue, handle, running, phase, pool>>

\* The destructor: only after every Schedule call returned.
CloseImpl == /\ running /\ adding = <<>> /\ \A t \in Tasks : phase[t] = "sched" => t \in handle
             /\ running' = FALSE /\ pool' = "closing"
             /\ UNCHANGED <<deps, state, uncompleted, dependents, adding, inserted, queue, handle, worker, phase>>
JoinAll == /\ pool = "closing" /\ \A w \in Workers : worker[w] = <<"gone">>
           /\ pool' = "down"
           /\ UNCHANGED <<deps, state, uncompleted, dependents, adding, inserted, queue, handle, running, worker, phase>>

WorkerStep(w) == Pop(w) \/ Leave(w) \/ ExecuteBegin(w) \/ BodyEnd(w) \/ Complete(w) \/ Notify(w) \/ NotifyEnd(w)
CallerStep == \/ \E t, d \in Tasks : AddDep1(t, d)
              \/ AddDep2
              \/ \E t \in Tasks : Schedule1(t) \/ Schedule2(t)
              \/ CloseImpl
Next == CallerStep \/ (\E w \in Workers : WorkerStep(w)) \/ JoinAll
Spec == Init /\ [][Next]_vars
        /\ \A w \in Workers : WF_vars(WorkerStep(w))
        /\ WF_vars(JoinAll) /\ WF_vars(AddDep2) /\ \A t \in Tasks : WF_vars(Schedule2(t))

Symm == Permutations(Tasks) \cup Permutations(Workers)

\* --- properties of the implementation model
Refines == Abs!TPInit /\ [][Abs!TPNext]_(Abs!tpvars)
DepsRespected == Abs!DepsRespected
NothingAbandoned == Abs!NothingAbandoned
NotLost == \A t \in Tasks : phase[t] = "sched" =>
             \/ t \in inserted
             \/ \E i \in DOMAIN queue : queue[i] = t
             \/ \E w \in Workers : worker[w][1] = "popped" /\ worker[w][2] = t
EventuallyRun == \A t \in Tasks : (phase[t] = "sched") ~> (phase[t] = "done")
EventuallyDown == (pool = "closing") ~> (pool = "down")
=============================================================================
