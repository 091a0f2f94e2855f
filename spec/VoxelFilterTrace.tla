-------------------------- MODULE VoxelFilterTrace --------------------------
EXTENDS VoxelFilter, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Tr == Traces[tid].ev
Ev == Tr[l]
In == Traces[tid].in
Init == tid \in 1..Len(Traces) /\ l = 1
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
All == 1..Len(In.pts)
\* The kept points are unmodified (same position) and keep their attribute.
Voxel1 == /\ Is("voxel") /\ (Filtered(All, In.pts, Ev.out, In.len, 1)) = TRUE
          /\ (\A k \in DOMAIN Ev.out : Ev.pos[k] = In.pts[Ev.out[k]]) = TRUE
Adapt == /\ Is("adaptive") /\ (Adaptive(In.pts, Ev.out, In.len, In.min, In.range)) = TRUE
         /\ (\A k \in DOMAIN Ev.out : Ev.pos[k] = In.pts[Ev.out[k]]) = TRUE
End == Is("End")
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED tid
Next == Voxel1 \/ Adapt \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
