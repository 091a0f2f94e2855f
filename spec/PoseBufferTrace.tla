--------------------------- MODULE PoseBufferTrace ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, buf, limit
M == INSTANCE PoseBuffer WITH S <- 1000, Tol <- 2
mv == <<buf, limit>>
Tr == Traces[tid].ev
Ev == Tr[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ M!PBInit
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Refused == l + 1 = Len(Tr) /\ Tr[l + 1].e = "Crash"
Returned == l < Len(Tr) /\ Tr[l + 1].e # "Crash"
Push == Is("push") /\ IF M!CanPush(Ev.time) THEN Returned /\ M!Push(Ev.time, Ev.pose) ELSE Refused /\ UNCHANGED mv
Limit == Is("limit") /\ M!SetLimit(Ev.n)
Clear == Is("clear") /\ M!Clear
Crash == Is("Crash") /\ UNCHANGED mv
Lookup == Is("lookup") /\ UNCHANGED mv /\ IF M!Has(Ev.time) THEN Returned /\ (M!Answer(Ev.time, Tr[l + 1].r)) = TRUE ELSE Refused
Ret == Is("ret") /\ UNCHANGED mv
Obs == /\ Is("obs") /\ UNCHANGED mv
       /\ Ev.size = Len(buf) /\ Ev.empty = (buf = <<>>) /\ Ev.limit = limit
       /\ buf # <<>> => Ev.first = buf[1].time /\ Ev.last = buf[Len(buf)].time
       /\ \A k \in DOMAIN Ev.has : Ev.has[k][2] = M!Has(Ev.has[k][1])
       /\ (\A k \in DOMAIN Ev.at : M!Answer(Ev.at[k].time, Ev.at[k].r)) = TRUE
End == Is("End") /\ UNCHANGED mv
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, mv>>
Next == Push \/ Limit \/ Clear \/ Crash \/ Lookup \/ Ret \/ Obs \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l, mv>>
Bounded == M!Bounded
Ordered == M!Ordered
=============================================================================
