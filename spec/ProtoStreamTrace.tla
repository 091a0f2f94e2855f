--------------------------- MODULE ProtoStreamTrace ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, msgs, len, rd, want
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
P == INSTANCE ProtoStream
ps == <<msgs, len, rd>>
vars == <<tid, l, ps, want>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ P!PSInit /\ want = <<>>
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Write == Is("Write") /\ P!Write(Ev.m, Ev.len) /\ UNCHANGED want
\* The whole file is what the format says; closing reports success.
Written == Is("Written") /\ Ev.size = P!Size /\ Ev.closed /\ UNCHANGED <<ps, want>>
\* A writer that cannot write says so.
Full == Is("Full") /\ ~Ev.closed /\ UNCHANGED <<ps, want>>
\* An attempt to open: whatever is not signed must be refused (Crash follows).
TryOpen == Is("TryOpen") /\ UNCHANGED ps /\ want' = <<Ev.cut, Ev.dmg>>
Opened == Is("Opened") /\ want # <<>> /\ P!Open(want[1], want[2]) /\ want' = <<>>
Read == Is("Read") /\ want = <<>> /\ P!Read(Ev.m) /\ UNCHANGED want
ReadEnd == Is("ReadEnd") /\ want = <<>> /\ P!ReadEnd /\ (rd.dmg = -1 => Ev.eof) /\ UNCHANGED want
Crash == /\ Is("Crash") /\ UNCHANGED <<ps, want>>
         /\ IF want # <<>> THEN ~P!Signed(want[1], want[2]) ELSE P!Abort
\* The deserializer: header of a known version, then pose graph, then options
\* for as many trajectories as the pose graph has, then anything.
Good(s) == /\ Len(s) >= 3 /\ s[1][1] = "header" /\ s[1][2] \in {1, 2}
           /\ s[2][1] = "graph" /\ s[3][1] = "options" /\ s[2][2] = s[3][2]
Deser == Is("Deser") /\ UNCHANGED <<ps, want>> /\
         (IF l = Len(Tr) THEN FALSE
          ELSE IF Good(Ev.s) THEN Tr[l + 1].e = "Data" ELSE Tr[l + 1].e = "Crash") = TRUE
DeserCrash == Is("Crash") /\ l > 1 /\ Tr[l - 1].e = "Deser" /\ UNCHANGED <<ps, want>>
Data == /\ Is("Data") /\ UNCHANGED <<ps, want>>
        /\ LET s == Tr[l - 1].s IN
           /\ Ev.version = s[1][2] /\ Ev.trajectories = s[2][2] /\ Ev.options = s[3][2]
           /\ (Ev.rest = [i \in 1..(Len(s) - 3) |-> s[i + 3][2]]) = TRUE
           /\ Ev.eof
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, ps, want>>
Next == Write \/ Written \/ Full \/ TryOpen \/ Opened \/ Read \/ ReadEnd \/ Crash \/ Deser \/ DeserCrash \/ Data \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
