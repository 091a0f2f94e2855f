--------------------------- MODULE HybridGridTrace ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, g, ig, pend
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
H == INSTANCE HybridGrid
vars == <<tid, l, g, ig, pend>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ g = <<>> /\ ig = <<>> /\ pend = <<>>
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Key(t) == <<t[1], t[2], t[3]>>
Fn(c) == [k \in {Key(c[i]) : i \in DOMAIN c} |-> CHOOSE i \in DOMAIN c : Key(c[i]) = k]
Map(c) == LET f == Fn(c) IN [k \in DOMAIN f |-> c[f[k]][4]]
Distinct(c) == Cardinality(DOMAIN Fn(c)) = Len(c)
Set == /\ Is("Set") /\ pend = <<>> /\ UNCHANGED <<ig, pend>>
       /\ g' = TLCEval((Key(Ev.at) :> Ev.v) @@ g)
Ins == /\ Is("Ins") /\ pend = <<>> /\ UNCHANGED g
       /\ pend' = TLCEval(<<H!Hits(Ev.ret), H!Misses(Ev.org, Ev.ret, In.free)>>)
       /\ ig' = TLCEval(H!AddInt(Ev.ret, Ev.int, In.thr))
Got == /\ Is("Cells") /\ pend # <<>> /\ pend' = <<>> /\ UNCHANGED ig
       /\ g' = TLCEval(Map(Ev.c))
       /\ Distinct(Ev.c) = TRUE
       /\ H!Inserted(g', pend[1], pend[2], In.hit, In.miss) = TRUE
Same == /\ Is("Same") /\ pend = <<>> /\ UNCHANGED <<g, ig, pend>>
        /\ Distinct(Ev.c) = TRUE /\ (Map(Ev.c) = g) = TRUE
\* Single voxels asked for, also unknown ones (0).
Get == /\ Is("Get") /\ pend = <<>> /\ UNCHANGED <<g, ig, pend>>
       /\ (\A i \in DOMAIN Ev.c : Ev.c[i][4] = H!Val(g, Key(Ev.c[i])) /\ Ev.c[i][5] = (Ev.c[i][4] # 0)) = TRUE
\* Intensity of voxels in 1/1000, by query.
Avg(s) == (1000 * s[1]) \div s[2]
GetI == /\ Is("GetI") /\ pend = <<>> /\ UNCHANGED <<g, ig, pend>>
        /\ (\A i \in DOMAIN Ev.c : LET s == H!Ival(Key(Ev.c[i])) IN
              IF s[2] = 0 THEN Ev.c[i][4] = 0 ELSE Ev.c[i][4] - Avg(s) \in -1..1) = TRUE
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, g, ig, pend>>
Next == Set \/ Ins \/ Got \/ Same \/ Get \/ GetI \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
