--------------------------- MODULE MapBuilderTrace ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, joint, live, fin, q, start, last, conf, done, imuSeen, acc, nodes, imu, odo, ff, lm, busy
M == INSTANCE MapBuilder WITH Trajectories <- 0..3, Sensors <- {"r0", "i0", "o0", "f0", "l0"}
cv == <<joint, live, fin, q, start, last>>
mv == <<conf, done, imuSeen, acc, nodes, imu, odo, ff, lm>>
vars == <<tid, l, busy, cv, mv>>
In == Traces[tid].in
Dim == In.c.dim
Tr == Traces[tid].ev
Ev == Tr[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ busy = FALSE /\ joint = ~Traces[tid].in.c.bytraj /\ M!MInit
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Op(e) == Is(e) /\ ~busy /\ busy' = TRUE
Traj == Op("Traj") /\ M!NewTrajectory(Ev.t)
Id == /\ Is("Id") /\ busy /\ UNCHANGED <<busy, cv, mv>>
      /\ Ev.id = Len(conf) - 1 /\ Ev.num = Len(conf) /\ Ev.opts = Len(conf)
Data == Op("Data") /\ M!Give(Ev.tr, Ev.s, Ev.t, Dim)
Finish == Op("Finish") /\ M!FinishIt(Ev.tr)
Query == Op("Query") /\ UNCHANGED <<cv, mv>>
Known(t) == t >= 0 /\ t < Len(conf)
Answer == /\ Is("Answer") /\ busy /\ UNCHANGED <<busy, cv, mv>>
          /\ LET o == Tr[l - 1] exists == Known(o.tr) /\ o.n >= 0 /\ o.n < M!Submaps(o.tr) IN
             IF exists THEN Ev.ok /\ Ev.textures >= 1 /\ Ev.version = M!Scans(o.tr, o.n)
             ELSE ~Ev.ok /\ Ev.textures = 0
\* A delivery that completes a scan is reported by the callback.
Out == \E k \in live :
  /\ l <= Len(Tr) /\ busy /\ q[k] # <<>>
  /\ M!Arrive(k, Dim) /\ busy' = busy /\ tid' = tid
  /\ LET t == k[1] time == M!Head1(k) IN
     IF k[2] = "r0" /\ M!Completes(t, Dim)
     THEN /\ Is("Result") /\ Ev.tr = t /\ Ev.t = time /\ Ev.pts = 3 + t
          /\ IF M!Inserts(t, time)
             THEN Ev.node.tr = t /\ Ev.node.n = Len(nodes[t]) /\ Ev.node.t = time /\ Ev.node.subs = IF Len(nodes[t]) < M!Conf(t).nrd THEN 1 ELSE 2
             ELSE Ev.node.n = -1
     ELSE l' = l
Drop == l <= Len(Tr) /\ busy /\ (\E k \in live : M!Forget(k)) /\ UNCHANGED <<tid, l, busy>>
Ret == Is("Ret") /\ busy /\ busy' = FALSE /\ M!AllQuiet /\ M!Retire /\ UNCHANGED mv
Check == Op("Check") /\ UNCHANGED <<cv, mv>>
Of(s, t) == SelectSeq(s, LAMBDA x : x[1] = t)
Exact(s, f, v) == \A t \in M!Ids : LET o == Of(s, t) IN
                    IF M!Conf(t).trim = 0
                    THEN o = [i \in 1..Len(f[t]) |-> IF v = 0 THEN <<t, f[t][i]>> ELSE <<t, f[t][i], 100 * (t + v)>>]
                    ELSE \A i \in DOMAIN o : o[i][2] \in Rng(f[t])
Near(a, b) == a - b <= 1 /\ b - a <= 1
State ==
  /\ Is("State") /\ UNCHANGED <<busy, cv, mv>>
  /\ (\A s \in {1, 2, 3, 4, 5} : LET w == <<Ev.nodes, Ev.subs, Ev.imu, Ev.odo, Ev.ff>>[s] IN \A i \in DOMAIN w : w[i][1] \in M!Ids) = TRUE
  /\ (\A i \in DOMAIN Ev.st : Ev.st[i][1] \in M!Ids) = TRUE
  /\ (\A t \in M!Ids :
        /\ Of(Ev.subs, t) = [i \in 1..Cardinality(M!Kept(t)) |-> <<t, M!Submaps(t) - Cardinality(M!Kept(t)) + i - 1>>]
        /\ Rng(Of(Ev.nodes, t)) = {<<t, i - 1, nodes[t][i]>> : i \in M!KeptNodes(t)}
        /\ Len(Of(Ev.nodes, t)) = Cardinality(M!KeptNodes(t))
        /\ LET s == Of(Ev.st, t) IN
           IF t \in done THEN s = <<<<t, IF M!Conf(t).trim > 0 THEN "d" ELSE "f">>>>
           ELSE s = <<<<t, "a">>>> \/ (s = <<>> /\ nodes[t] = <<>>)
        /\ LET p == Ev.l2g[t + 1] IN
           lm # <<>> \/ (t \in done /\ M!Conf(t).trim > 0)
             \/ (Near(p[1], IF M!Conf(t).init.to >= 0 THEN 100 * M!Conf(t).init.x ELSE 0) /\ Near(p[2], 0) /\ Near(p[3], 0))) = TRUE
  /\ Exact(Ev.imu, imu, 0) /\ Exact(Ev.odo, odo, 1) /\ Exact(Ev.ff, ff, 11)
  \* observations of one landmark keep their order
  /\ (\A b \in {0, 1} : SelectSeq(Ev.lm, LAMBDA x : x[4] = (IF b = 0 THEN "L0" ELSE "L1")) =
        LET s == SelectSeq(lm, LAMBDA x : x[2] % 2 = b) IN
        [i \in 1..Len(s) |-> <<s[i][1], s[i][2], 100 * (s[i][1] + 21), IF b = 0 THEN "L0" ELSE "L1">>]) = TRUE
  /\ Len(Ev.lm) = Len(lm)
End == Is("End") /\ ~busy /\ UNCHANGED <<busy, cv, mv>>
\* Finishing a trajectory whose data still waits for another trajectory is a
\* known finding: what happens afterwards is judged in its own history only.
Unsettled == (~busy /\ M!Backlog /\ ~In.strict) = TRUE
Accept == /\ (l = Len(Tr) + 1 \/ (l <= Len(Tr) /\ Unsettled)) = TRUE
          /\ PrintT(<<"ACCEPT", tid>>) /\ l' = Len(Tr) + 2 /\ UNCHANGED <<tid, busy, cv, mv>>
Next == Traj \/ Id \/ Data \/ Finish \/ Query \/ Answer \/ Out \/ Drop \/ Ret \/ Check \/ State \/ End \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
