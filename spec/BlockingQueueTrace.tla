------------------------- MODULE BlockingQueueTrace -------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, cap, q, pend, pushed, popped
BQ == INSTANCE BlockingQueue WITH Threads <- 0..5
Tr == Traces[tid].ev
Ev == Tr[l]
vars == <<tid, l, cap, q, pend, pushed, popped>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ BQ!BQInit /\ cap = Traces[tid].in.cap
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Call == Is("Call") /\ BQ!Call(Ev.th, Ev.op, Ev.v)
\* The effect happens at the latest when the call returns.
Lin == l <= Len(Tr) /\ (\E t \in 0..5 : BQ!Lin(t)) /\ UNCHANGED <<tid, l>>
Ret == Is("Ret") /\ BQ!Ret(Ev.th, Ev.r)
\* Nothing can move any more: every waiting call must be entitled to wait.
Deadlock == /\ Is("Deadlock") /\ \A t \in 0..5 : pend[t] = BQ!NoOp \/ BQ!Blocked(t)
            /\ UNCHANGED <<cap, q, pend, pushed, popped>>
End == Is("End") /\ (\A t \in 0..5 : pend[t] = BQ!NoOp) /\ UNCHANGED <<cap, q, pend, pushed, popped>>
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1
          /\ UNCHANGED <<tid, cap, q, pend, pushed, popped>>
Next == Call \/ Lin \/ Ret \/ Deadlock \/ End \/ Accept
Spec == Init /\ [][Next]_vars
Bounded == BQ!Bounded
Fifo == BQ!Fifo
=============================================================================
