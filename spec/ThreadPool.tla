----------------------------- MODULE ThreadPool -----------------------------
(* Abstract behaviour of common::ThreadPool / common::Task as its callers     *)
(* observe it.                                                                *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANT Tasks

VARIABLES nthreads, \* number of worker threads (rigid)
          deps,     \* deps[t]: tasks t was told to wait for
          phase,    \* "new" -> "sched" -> "running" -> "done"
          pool      \* "up" -> "closing" -> "down"
tpvars == <<deps, phase, pool>>

Running == {t \in Tasks : phase[t] = "running"}
Done    == {t \in Tasks : phase[t] = "done"}
Sched   == {t \in Tasks : phase[t] = "sched"}

TypeOK == /\ deps \in [Tasks -> SUBSET Tasks]
          /\ phase \in [Tasks -> {"new", "sched", "running", "done"}]
          /\ pool \in {"up", "closing", "down"}

TPInit == /\ deps = [t \in Tasks |-> {}]
          /\ phase = [t \in Tasks |-> "new"]
          /\ pool = "up"

\* A dependency is named by the handle Schedule returned, so it is scheduled.
AddDep(t, d) ==
  /\ pool # "down" /\ phase[t] = "new" /\ phase[d] # "new" /\ t # d
  /\ deps' = [deps EXCEPT ![t] = @ \cup {d}]
  /\ UNCHANGED <<phase, pool>>

Schedule(t) ==
  /\ pool # "down" /\ phase[t] = "new"
  /\ phase' = [phase EXCEPT ![t] = "sched"]
  /\ UNCHANGED <<deps, pool>>

Ready(t) == phase[t] = "sched" /\ \A d \in deps[t] : phase[d] = "done"

Start(t) ==
  /\ pool # "down" /\ Ready(t)
  /\ Cardinality(Running) < nthreads
  /\ phase' = [phase EXCEPT ![t] = "running"]
  /\ UNCHANGED <<deps, pool>>

End(t) ==
  /\ phase[t] = "running"
  /\ phase' = [phase EXCEPT ![t] = "done"]
  /\ UNCHANGED <<deps, pool>>

Close == pool = "up" /\ pool' = "closing" /\ UNCHANGED <<deps, phase>>

\* The destructor returns only when nothing scheduled is left undone.
Down == /\ pool = "closing" /\ Running = {} /\ Sched = {}
        /\ pool' = "down" /\ UNCHANGED <<deps, phase>>

TPNext == \/ \E t, d \in Tasks : AddDep(t, d)
          \/ \E t \in Tasks : Schedule(t) \/ Start(t) \/ End(t)
          \/ Close \/ Down

TPSpec == TPInit /\ [][TPNext]_tpvars
          /\ \A t \in Tasks : WF_tpvars(Start(t)) /\ WF_tpvars(End(t))

\* --- properties
DepsRespected == \A t \in Running \cup Done : deps[t] \subseteq Done
Rank(p) == CASE p = "new" -> 0 [] p = "sched" -> 1 [] p = "running" -> 2 [] p = "done" -> 3
OncePerTask == [][\A t \in Tasks : Rank(phase'[t]) >= Rank(phase[t])]_tpvars
NothingAbandoned == pool = "down" => \A t \in Tasks : phase[t] \in {"new", "done"}
EventuallyRun == \A t \in Tasks : (phase[t] = "sched") ~> (phase[t] = "done")
=============================================================================
