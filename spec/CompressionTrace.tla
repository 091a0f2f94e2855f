-------------------------- MODULE CompressionTrace --------------------------
EXTENDS Compression, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Tr == Traces[tid].ev
Ev == Tr[l]
In == Traces[tid].in
Init == tid \in 1..Len(Traces) /\ l = 1
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
\* Supported: below 2^23 mm in every coordinate.
Supported == \A i \in DOMAIN In.pts : \A c \in 1..3 : Abs(In.pts[i][c]) < 8388608
Orig == Is("orig") /\ (Supported <=> (l < Len(Tr) /\ Tr[l + 1].e # "Crash")) = TRUE
Dec == /\ Is("dec") /\ (Matches(Tr[1].pts, Ev.pts, 100)) = TRUE
       \* all ways to read it agree, and it survives serialization
       /\ Ev.size = Len(In.pts) /\ Ev.empty = (In.pts = <<>>)
       /\ Ev.iter = Ev.pts /\ Ev.proto = Ev.pts /\ Ev.eqproto /\ Ev.eqagain
       \* stored coordinates are multiples of the precision
       /\ (\A i \in DOMAIN Ev.pts : \A c \in 1..3 :
             LET r == (Ev.pts[i][c] + 100) % 100  tol == 1 + Abs(Ev.pts[i][c]) \div 1000000 IN r <= tol \/ r >= 100 - tol) = TRUE
Differ == Is("differ") /\ Ev.eq = FALSE
Crash == Is("Crash")
End == Is("End")
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED tid
Next == Orig \/ Dec \/ Differ \/ Crash \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
