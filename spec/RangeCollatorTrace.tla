-------------------------- MODULE RangeCollatorTrace -------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, sens, pend, cend, out
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
Ev == Tr[l]
R == INSTANCE RangeCollator
vars == <<tid, l, sens, pend, cend, out>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ sens = <<>> /\ R!RCInit(0..(Traces[tid].in.n - 1))
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
\* sens: id of a point -> <<origin, intensity>>
Known == sens
Add == /\ Is("Add")
       /\ R!Add(Ev.s, [time |-> Ev.time, pts |-> [i \in DOMAIN Ev.pts |-> [t |-> Ev.time + Ev.pts[i][1], id |-> Ev.pts[i][2]]]])
       /\ sens' = TLCEval([x \in DOMAIN sens \cup {Ev.pts[i][2] : i \in DOMAIN Ev.pts} |->
            IF x \in DOMAIN sens THEN sens[x]
            ELSE LET i == CHOOSE i \in DOMAIN Ev.pts : Ev.pts[i][2] = x IN
                 <<Ev.origin, IF i <= Len(Ev.ints) THEN Ev.ints[i] ELSE 0>>])
\* Points of the result: <<time, id, intensity, origin>>, sorted by time.
Res == /\ Is("Res")
       /\ UNCHANGED <<sens, pend, cend, out>>
       /\ IF out = <<>> \/ out.pts = {} THEN Ev.pts = <<>>
          ELSE /\ Ev.time = out.time /\ Len(Ev.pts) = Cardinality(out.pts)
               /\ {<<Ev.time + Ev.pts[i][1], Ev.pts[i][2]>> : i \in DOMAIN Ev.pts} = {<<p.t, p.id>> : p \in out.pts}
               /\ \A i \in DOMAIN Ev.pts : /\ i > 1 => Ev.pts[i-1][1] <= Ev.pts[i][1]
                                           /\ sens[Ev.pts[i][2]] = <<Ev.pts[i][4], Ev.pts[i][3]>>
\* Unexpected sensors are refused.
Bad == Is("Bad") /\ l + 1 = Len(Tr) /\ Tr[l+1].e = "Crash" /\ UNCHANGED <<sens, pend, cend, out>>
Crash == Is("Crash") /\ l > 1 /\ Tr[l-1].e = "Bad" /\ UNCHANGED <<sens, pend, cend, out>>
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, sens, pend, cend, out>>
Next == Add \/ Res \/ Bad \/ Crash \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
