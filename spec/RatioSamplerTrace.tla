-------------------------- MODULE RatioSamplerTrace --------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, p, q, n, s
R == INSTANCE RatioSampler
Tr == Traces[tid].ev
Ev == Tr[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ p = Traces[tid].in.p /\ q = Traces[tid].in.q /\ n = 0 /\ s = 0
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Pulse == Is("pulse") /\ R!Pulse(Ev.yes)
Bulk == Is("bulk") /\ R!Bulk(Ev.rest, Ev.d, Ev.lo, Ev.hi)
\* A whole batch: points with increasing numbers, some of which pass on.
Range(k) == {Ev.out[i] : i \in 1..k}
Batch == /\ Is("batch")
         /\ n' = n + Len(Ev.inp) /\ s' = s + Len(Ev.out) /\ UNCHANGED <<p, q>>
         /\ \A i \in 1..(Len(Ev.out) - 1) : Ev.out[i] < Ev.out[i + 1]
         /\ {Ev.out[i] : i \in DOMAIN Ev.out} \subseteq {Ev.inp[i] : i \in DOMAIN Ev.inp}
         /\ Ev.attr = Ev.out
         /\ \A k \in DOMAIN Ev.inp : R!InRange(n + k, s + Cardinality({i \in DOMAIN Ev.out : Ev.out[i] <= Ev.inp[k]}))
\* A restarted stream is sampled from the beginning.
Restart == Is("restart") /\ n' = 0 /\ s' = 0 /\ UNCHANGED <<p, q>>
End == Is("End") /\ UNCHANGED <<p, q, n, s>>
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, p, q, n, s>>
Next == Pulse \/ Bulk \/ Batch \/ Restart \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l, p, q, n, s>>
=============================================================================
