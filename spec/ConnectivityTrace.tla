-------------------------- MODULE ConnectivityTrace --------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, tracked, comp, count, lastTime
N == 5
K == INSTANCE Connectivity WITH T <- 0..(N - 1)
kv == <<tracked, comp, count, lastTime>>
Tr == Traces[tid].ev
Ev == Tr[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ K!KInit
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Add == Is("add") /\ K!Add(Ev.a)
Con == Is("con") /\ K!Connect(Ev.a, Ev.b, Ev.time)
\* A list of components: a partition, nobody twice.
IsComponents(cs) == /\ {Rng(cs[i]) : i \in DOMAIN cs} = K!Components
                    /\ Len(cs) = Cardinality(K!Components)
                    /\ \A i \in DOMAIN cs : Len(cs[i]) = Cardinality(Rng(cs[i]))
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Obs == /\ Is("obs") /\ UNCHANGED kv
       /\ (\A a, b \in 0..(N - 1) :
            LET i == a * N + b + 1 IN
            /\ Ev.tc[i] = (b \in comp[a]) /\ Ev.ts[i] = (b \in comp[a])
            /\ Ev.cnt[i] = count[<<a, b>>] /\ Ev.last[i] = lastTime[<<a, b>>]) = TRUE
       /\ (IsComponents(Ev.cc)) = TRUE /\ (IsComponents(Ev.cs)) = TRUE /\ (IsComponents(Ev.proto)) = TRUE
       /\ \A i \in DOMAIN Ev.proto : Sorted(Ev.proto[i])
       /\ \A i \in 1..(Len(Ev.proto) - 1) : Ev.proto[i][1] < Ev.proto[i + 1][1]
       /\ Rng(Ev.gt) = tracked
       /\ \A i \in DOMAIN Ev.gt : Rng(Ev.gc[i]) = comp[Ev.gt[i]] /\ Len(Ev.gc[i]) = Cardinality(comp[Ev.gt[i]])
End == Is("End") /\ UNCHANGED kv
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, kv>>
Next == Add \/ Con \/ Obs \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l, kv>>
=============================================================================
