----------------------------- MODULE Grid2DTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, g, pend
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
G == INSTANCE Grid2D
vars == <<tid, l, g, pend>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ g = <<>> /\ pend = <<>>
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Fn(cells) == [c \in {<<cells[i][1], cells[i][2]>> : i \in DOMAIN cells} |->
                (CHOOSE i \in DOMAIN cells : <<cells[i][1], cells[i][2]>> = c)]
Map(cells) == LET f == Fn(cells) IN [c \in DOMAIN f |-> cells[f[c]][3]]
Distinct(cells) == Cardinality(DOMAIN Fn(cells)) = Len(cells)
Ins == /\ Is("Ins") /\ pend = <<>> /\ UNCHANGED g
       /\ pend' = TLCEval(LET H == G!Hits(Ev.ret) IN <<H, G!Misses(Ev.org, Ev.ret, Ev.mis, In.free) \ H>>)
\* The cells known after an insertion.
Got == /\ Is("Cells") /\ pend # <<>> /\ pend' = <<>>
       /\ g' = TLCEval(Map(Ev.c))
       /\ Distinct(Ev.c) = TRUE
       /\ G!Inserted(g', pend[1], pend[2], In.hit, In.miss) = TRUE
\* Cropping, serializing and reading back, and growing change no cell.
Same == /\ Is("Same") /\ pend = <<>> /\ UNCHANGED <<g, pend>>
        /\ Distinct(Ev.c) = TRUE
        /\ (Map(Ev.c) = g) = TRUE
\* The rendered texture has the same known cells; brightness says occupied or free.
Tex == /\ Is("Tex") /\ pend = <<>> /\ UNCHANGED <<g, pend>>
       /\ LET m == Fn(Ev.c) IN
          (/\ DOMAIN m = DOMAIN g
           /\ \A c \in DOMAIN g : LET t == Ev.c[m[c]] IN
                /\ (g[c] < 16300 => t[3] = 0 /\ t[4] > 0)
                /\ (g[c] > 16500 => t[3] > 0 /\ t[4] = 0)) = TRUE
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, g, pend>>
Next == Ins \/ Got \/ Same \/ Tex \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
