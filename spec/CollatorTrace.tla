---------------------------- MODULE CollatorTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, joint, live, fin, q, start, last
C == INSTANCE Collator WITH Trajectories <- 0..3, Sensors <- 0..3
cv == <<joint, live, fin, q, start, last>>
vars == <<tid, l, cv>>
Tr == Traces[tid].ev
Ev == Tr[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ joint = Traces[tid].in.joint /\ C!CInit
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Traj == Is("Traj") /\ C!AddTrajectory(Ev.t, Rng(Ev.ss))
Data == Is("Data") /\ C!Add(<<Ev.t, Ev.s>>, Ev.n, Ev.time)
Finish == Is("Finish") /\ C!Finish(Ev.t)
Flush == Is("Flush") /\ C!Flush
\* Delivered to the callback of trajectory t under sensor id s: message n.
Out == /\ Is("Out") /\ <<Ev.t, Ev.s>> \in live /\ q[<<Ev.t, Ev.s>>] # <<>>
       /\ q[<<Ev.t, Ev.s>>][1] = [n |-> Ev.n, time |-> Ev.time]
       /\ C!Deliver(<<Ev.t, Ev.s>>)
Drop == l <= Len(Tr) /\ (\E k \in live : C!Drop(k)) /\ UNCHANGED <<tid, l>>
Ret == Is("Ret") /\ C!AllQuiet /\ C!Retire
\* The reported blocking trajectory really lacks data.
Block == /\ Is("Block") /\ UNCHANGED cv
         /\ IF joint THEN Ev.t \in {k[1] : k \in C!Blockers(0)} ELSE Ev.t = -1
End == Is("End") /\ UNCHANGED cv
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, cv>>
Next == Traj \/ Data \/ Finish \/ Flush \/ Out \/ Drop \/ Ret \/ Block \/ End \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
