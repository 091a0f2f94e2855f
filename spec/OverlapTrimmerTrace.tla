------------------------ MODULE OverlapTrimmerTrace ------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, sub, ntime, intra, count
P == INSTANCE OverlapTrimmer
tv == <<sub, ntime, intra, count>>
vars == <<tid, l, tv>>
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Init == tid \in 1..Len(Traces) /\ l = 1 /\ P!TInit
Step == /\ Is("Step")
        /\ LET new == {<<Ev.submaps[i].t, Ev.submaps[i].i>> : i \in DOMAIN Ev.submaps}
               of(s) == Ev.submaps[CHOOSE i \in DOMAIN Ev.submaps : <<Ev.submaps[i].t, Ev.submaps[i].i>> = s]
               nn == {<<Ev.nodes[i][1], Ev.nodes[i][2]>> : i \in DOMAIN Ev.nodes} IN
           /\ sub' = TLCEval([s \in DOMAIN sub \cup new |-> IF s \in new THEN [blocks |-> Rng(of(s).blocks), fin |-> of(s).fin] ELSE sub[s]])
           /\ ntime' = TLCEval([n \in DOMAIN ntime \cup nn |-> IF n \in nn
                THEN Ev.nodes[CHOOSE i \in DOMAIN Ev.nodes : <<Ev.nodes[i][1], Ev.nodes[i][2]>> = n][3] ELSE ntime[n]])
           /\ intra' = TLCEval(intra \cup {<<<<Ev.cons[i][1], Ev.cons[i][2]>>, <<Ev.cons[i][3], Ev.cons[i][4]>>>> :
                                   i \in {j \in DOMAIN Ev.cons : Ev.cons[j][5] = 0}})
           /\ UNCHANGED count
Trimmed == /\ Is("Trimmed")
           /\ LET X == IF P!Due(In.added) THEN P!ToTrim(In.fresh, In.min_cells, In.weight) ELSE {} IN
              /\ Rng(Ev.ids) = X /\ Len(Ev.ids) = Cardinality(X)
              /\ P!Drop(X)
              /\ count' = IF P!Due(In.added) THEN Cardinality(DOMAIN sub) - Cardinality(X) ELSE count
End == Is("End") /\ UNCHANGED tv
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, tv>>
Next == Step \/ Trimmed \/ End \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
