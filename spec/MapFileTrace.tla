---------------------------- MODULE MapFileTrace ----------------------------
EXTENDS MapFile, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, m, known, slot, loose, want
\* m[w]: the map of world w, if known[w]; loose[w]: nodes of no submap;
\* want[w]: the trajectory that was just deleted, or -1
vars == <<tid, l, m, known, slot, loose, want>>
W == 0..3
Tr == Traces[tid].ev
Ev == Tr[l]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ m = [w \in W |-> EmptyMap] /\ known = {} /\ slot = [s \in W |-> <<>>]
        /\ loose = [w \in W |-> {}] /\ want = [w \in W |-> -1]
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
New == /\ Is("New") /\ m' = [m EXCEPT ![Ev.w] = EmptyMap] /\ known' = known \cup {Ev.w}
       /\ loose' = [loose EXCEPT ![Ev.w] = {}] /\ want' = [want EXCEPT ![Ev.w] = -1] /\ slot' = slot
\* Building goes on (see MapBuilder and PoseGraph); the map has to be looked at again.
Live == /\ Is("Live") /\ known' = known \ {Ev.w} /\ UNCHANGED <<m, slot, loose, want>>
Result == Is("Result") /\ UNCHANGED <<m, known, slot, loose, want>>
Dump == Is("Dump") /\ UNCHANGED <<m, known, slot, loose, want>>
Map == /\ Is("Map") /\ UNCHANGED <<slot>>
       /\ LET w == Tr[l - 1].w IN
          /\ IF w \in known THEN SameMap(Ev.m, m[w]) ELSE want[w] = -1 \/ Removed(m[w], want[w], loose[w], Ev.m)
          /\ m' = [m EXCEPT ![w] = Ev.m] /\ known' = known \cup {w} /\ want' = [want EXCEPT ![w] = -1]
          /\ loose' = IF w \in known THEN loose
                      ELSE [loose EXCEPT ![w] = IF \E i \in DOMAIN Ev.m.st : Ev.m.st[i].s = "z" THEN @ ELSE NodeIds(Ev.m) \ Members(Ev.m.cons)]
Save == Is("Save") /\ Ev.w \in known /\ UNCHANGED <<m, known, slot, loose, want>>
\* What is in the file.
File == /\ Is("File") /\ Ev.f.one /\ UNCHANGED <<m, known, loose, want>>
        /\ LET o == Tr[l - 1] s == Saved(m[o.w], o.inc) IN
           SameFile(Ev.f, s) /\ slot' = [slot EXCEPT ![o.slot] = s]
\* The file is replaced by one with other poses, measurements etc.
Tweak == Is("Tweak") /\ UNCHANGED <<m, known, slot, loose, want>>
Tweaked == /\ Is("Tweaked") /\ UNCHANGED <<m, known, loose, want>>
           /\ LET o == Tr[l - 1] IN
              slot' = [slot EXCEPT ![o.slot] = [@ EXCEPT !.nodes = Ev.f.nodes, !.subs = Ev.f.subs, !.cons = Ev.f.cons, !.lmp = Ev.f.lmp,
                         !.lmo = Ev.f.lmo, !.imu = Ev.f.imu, !.odo = Ev.f.odo, !.ff = Ev.f.ff, !.td = Ev.f.td]]
Load == Is("Load") /\ Ev.w \in known /\ UNCHANGED <<m, known, slot, loose, want>>
Remap == /\ Is("Remap") /\ UNCHANGED <<known, slot, want>>
         /\ LET o == Tr[l - 1] f == slot[o.slot]
                r == [t \in {Ev.r[i][1] : i \in DOMAIN Ev.r} |-> Ev.r[CHOOSE i \in DOMAIN Ev.r : Ev.r[i][1] = t][2]] IN
            /\ Remapping(m[o.w], f, r) /\ Ev.num = Len(m[o.w].opts) + Len(f.trajs)
            /\ m' = [m EXCEPT ![o.w] = Loaded(@, f, r, o.frozen)]
            /\ loose' = [loose EXCEPT ![o.w] = @ \cup {<<r[x[1]], x[2]>> : x \in NodeIds(f) \ Members(f.cons)}]
Remove == /\ Is("Remove") /\ Ev.w \in known /\ known' = known \ {Ev.w} /\ want' = [want EXCEPT ![Ev.w] = Ev.tr]
          /\ UNCHANGED <<m, slot, loose>>
End == Is("End") /\ UNCHANGED <<m, known, slot, loose, want>>
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, m, known, slot, loose, want>>
Next == New \/ Live \/ Result \/ Dump \/ Map \/ Save \/ File \/ Tweak \/ Tweaked \/ Load \/ Remap \/ Remove \/ End \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
