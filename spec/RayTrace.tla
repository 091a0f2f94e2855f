------------------------------ MODULE RayTrace ------------------------------
EXTENDS Ray, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Tr == Traces[tid].ev
Ev == Tr[l]
Init == tid \in 1..Len(Traces) /\ l = 1
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Rng(s) == {s[i] : i \in DOMAIN s}
Ray == Is("ray") /\ (Rng(Ev.cells) = RayCells(Ev.b, Ev.x, Ev.s)) = TRUE
Rays == Is("rays") /\ (\A k \in DOMAIN Ev.r : Rng(Ev.r[k][2]) = RayCells(Ev.b, Ev.r[k][1], Ev.s)) = TRUE
End == Is("End")
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED tid
Next == Ray \/ Rays \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
