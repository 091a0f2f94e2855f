-------------------------- MODULE ThreadPoolTrace --------------------------
(* Validates recorded executions of the real ThreadPool against ThreadPool.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, deps, phase, pool, returned, before, nowork, obs
MaxTask == 16
Tr == Traces[tid].ev
Ev == Tr[l]
TP == INSTANCE ThreadPool WITH Tasks <- 1..MaxTask, nthreads <- Traces[tid].in.threads
vars == <<tid, l, deps, phase, pool, returned, before, nowork, obs>>

Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ TP!TPInit /\ returned = {} /\ before = [t \in 1..MaxTask |-> {}] /\ nowork = {} /\ obs = [i \in 0..15 |-> "new"]
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Keep == UNCHANGED <<returned, before, nowork, obs>>

AddDep == Is("AddDep") /\ TP!AddDep(Ev.t, Ev.d) /\ Keep
Sched == /\ Is("Sched") /\ TP!Schedule(Ev.t) /\ UNCHANGED <<returned, obs>> /\ before' = [before EXCEPT ![Ev.t] = returned]
         /\ nowork' = IF Ev.nowork THEN nowork \cup {Ev.t} ELSE nowork
SchedEnd == /\ Is("SchedEnd") /\ phase[Ev.t] # "new" /\ returned' = returned \cup {Ev.t}
            /\ UNCHANGED <<deps, phase, pool, before, nowork, obs>>
\* A pool of one thread starts tasks in the order in which they became ready;
\* for tasks without dependencies: in real-time order of their Schedule calls.
Fifo(t) == (Traces[tid].in.threads = 1 /\ deps[t] = {}) =>
             \A u \in before[t] \ nowork : deps[u] = {} => phase[u] = "done"
Run == /\ Is("Run") /\ TP!Start(Ev.t) /\ Ev.t \notin nowork /\ Ev.th > 0 /\ Fifo(Ev.t) /\ Keep
End == Is("End") /\ TP!End(Ev.t) /\ Keep
\* An expired handle means the task has certainly completed.
Expired == /\ Is("Expired") /\ (phase[Ev.t] = "done" \/ Ev.t \in nowork) /\ UNCHANGED <<deps, phase, pool>> /\ Keep
ObsBegin == /\ Is("ObsBegin") /\ obs' = [obs EXCEPT ![Ev.th] = phase[Ev.t]]
            /\ UNCHANGED <<deps, phase, pool, returned, before, nowork>>
\* GetState took effect somewhere between ObsBegin and now.
State == /\ Is("State")
         /\ \/ Ev.t \in nowork
            \/ /\ obs[Ev.th] \in {"running", "done"} => Ev.s >= 3
               /\ Ev.s >= 2 => \A d \in deps[Ev.t] \ nowork : phase[d] = "done"
               /\ Ev.s = 4 => phase[Ev.t] = "done"
               /\ Ev.s <= 4 /\ phase[Ev.t] # "new"
         /\ UNCHANGED <<deps, phase, pool>> /\ Keep
Close == Is("Close") /\ TP!Close /\ Keep
Down == Is("Down") /\ TP!Down /\ Keep
\* A task without a work item runs invisibly.
Silent == /\ l <= Len(Tr)
          /\ \E t \in nowork : /\ TP!Ready(t) /\ phase' = [phase EXCEPT ![t] = "done"]
                               /\ \A u \in nowork : TP!Ready(u) => t <= u
          /\ UNCHANGED <<tid, l, deps, pool, returned, before, nowork, obs>>
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1
          /\ UNCHANGED <<tid, deps, phase, pool, returned, before, nowork, obs>>
Next == AddDep \/ Sched \/ SchedEnd \/ Run \/ End \/ Expired \/ ObsBegin \/ State \/ Close \/ Down \/ Silent \/ Accept
Spec == Init /\ [][Next]_vars
DepsRespected == TP!DepsRespected
NothingAbandoned == TP!NothingAbandoned
=============================================================================
