---------------------------- MODULE TimeMapTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, hd, nodes
M == INSTANCE TimeMap
mv == <<hd, nodes>>
Tr == Traces[tid].ev
Ev == Tr[l]
T == 0..2
Init == tid \in 1..Len(Traces) /\ l = 1 /\ M!TMInit(T)
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Refused == l + 1 = Len(Tr) /\ Tr[l + 1].e = "Crash"
Returned == l < Len(Tr) /\ Tr[l + 1].e # "Crash"
Data == Is("data") /\ IF M!CanAppend(Ev.t, Ev.time) THEN Returned /\ M!AppendData(Ev.t, Ev.time, Ev.n)
                      ELSE Refused /\ UNCHANGED mv
Node == Is("node") /\ M!AddNode(Ev.t, Ev.time)
Trim == Is("trim") /\ Returned /\ M!Trim(Ev.t, Ev.time)
Crash == Is("Crash") /\ UNCHANGED mv
Obs == /\ Is("obs") /\ UNCHANGED mv
       /\ \A t \in T : LET s == TLCEval(M!ByTime(hd[t])) IN
            /\ Ev.has[t + 1] = (s # <<>>)
            /\ Ev.of[t + 1] = [k \in DOMAIN s |-> <<s[k].time, s[k].n>>]
            /\ \A k \in DOMAIN Ev.lb[t + 1] :
                 LET b == Ev.lb[t + 1][k]  c == {e \in hd[t] : e.time >= b[1]} IN
                 b[2] = (IF c = {} THEN 0 ELSE M!ByTime(c)[1].n)
       /\ Ev.trajs = SelectSeq(<<0, 1, 2>>, LAMBDA t : hd[t] # {})
End == Is("End") /\ UNCHANGED mv
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, mv>>
Next == Data \/ Node \/ Trim \/ Crash \/ Obs \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l, mv>>
=============================================================================
