-------------------------- MODULE ActiveSubmapsTrace -------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, n, act, has, done, org, far, hist
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
A == INSTANCE ActiveSubmaps
as == <<n, act, has, done, org>>
vars == <<tid, l, as, far, hist>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ n = Traces[tid].in.n /\ far = {} /\ hist = <<>> /\ A!ASInit
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
\* far: range data whose return lies beyond the range of the fine 3D grid;
\* hist[k]: bin of the angular histogram filled by range data k.
Ins == /\ Is("Ins") /\ A!Insert(Ev.k, Ev.org)
       /\ far' = IF Ev.far THEN far \cup {Ev.k} ELSE far
       /\ hist' = Append(hist, Ev.bin)
Rng(s) == {s[i] : i \in DOMAIN s}
Bins(i) == [b \in 0..3 |-> Cardinality({j \in DOMAIN has[i] : hist[has[i][j]] = b})]
\* Everything about submap i (also those no longer active).
Shows(v, i) ==
  /\ v.n = A!Count(i) /\ v.fin = (i \in done) /\ v.org = org[i]
  /\ Rng(v.marks) = Rng(has[i]) \ (IF In.dim = 3 THEN far ELSE {}) /\ Len(v.marks) = Cardinality(Rng(v.marks))
  /\ (In.dim = 3 => Rng(v.low) = Rng(has[i]) /\ \A b \in 0..3 : v.bins[b + 1] = Bins(i)[b])
Res == /\ Is("Res") /\ UNCHANGED <<as, far, hist>>
       /\ Ev.ids = act /\ Ev.now = act
       /\ Len(Ev.all) = Len(has)
       /\ (\A i \in DOMAIN has : Shows(Ev.all[i], i)) = TRUE
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, as, far, hist>>
Next == Ins \/ Res \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
