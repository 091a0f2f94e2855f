---------------------------- MODULE LocalSlamTrace ----------------------------
EXTENDS LocalSlam, TLC, Json, IOUtils
VARIABLES tid, l, s, want
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
C == Traces[tid].in.c
Ev == Tr[l]
vars == <<tid, l, s, want>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = LInit /\ want = <<>>
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Refused == l < Len(Tr) /\ Tr[l + 1].e = "Crash"
Do(ok, next) == IF ok THEN ~Refused /\ s' = TLCEval(next) ELSE Refused /\ s' = s
ImuE == Is("Imu") /\ want = <<>> /\ Do(MayImu(C, s, Ev.t), Imu(C, s, Ev.t, Ev.w)) /\ UNCHANGED want
OdoE == Is("Odo") /\ want = <<>> /\ Do(MayOdo(s, Ev.t), Odo(s, Ev.t, Ev.p[1], Ev.p[2], Ev.p[3])) /\ UNCHANGED want
CloudE == /\ Is("Cloud") /\ want = <<>>
          /\ LET r == Cloud(C, s, Ev.t, Ev.pts, Ev.o) IN s' = TLCEval(r.s) /\ want' = <<TLCEval(r.r)>>
Near(a, b) == Abs(a - b) <= 3000 + Abs(b) \div 1000
AngNear(a, b) == LET d == (a - b) % Full IN d <= 3000 \/ d >= Full - 3000
PNear(p, q) == Near(p[1], q[1]) /\ Near(p[2], q[2]) /\ Near(p[3], q[3])
RECURSIVE SubSeqNear(_, _, _, _)
\* got is a subsequence of want ...
SubSeqNear(got, i, exp, j) ==
  IF i > Len(got) THEN TRUE
  ELSE IF j > Len(exp) THEN FALSE
  ELSE IF PNear(got[i], exp[j]) THEN SubSeqNear(got, i + 1, exp, j + 1)
  ELSE SubSeqNear(got, i, exp, j + 1)
\* ... missing only points that coincide with one it has.
Same(got, exp) == SubSeqNear(got, 1, exp, 1) /\ \A j \in DOMAIN exp : \E i \in DOMAIN got : PNear(got[i], exp[j])
W == want[1]
Nothing == Is("Nothing") /\ want # <<>> /\ W.none /\ want' = <<>> /\ UNCHANGED s
Pose == [t |-> Ev.t, x |-> Ev.pose[1], y |-> Ev.pose[2], a |-> Ev.pose[4]]
Result ==
  /\ Is("Result") /\ want # <<>> /\ ~W.none /\ want' = <<>>
  /\ Ev.t = W.t
  /\ (Near(Ev.pose[1], W.pose.x) /\ Near(Ev.pose[2], W.pose.y) /\ Near(Ev.pose[3], 0)
      /\ AngNear(Ev.pose[4], W.pose.a) /\ Near(Ev.pose[5], 0)) = TRUE
  /\ (PNear(Ev.origin, <<W.pose.x, W.pose.y, 0>>)) = TRUE
  /\ Same(Ev.returns, W.returns) = TRUE /\ Same(Ev.misses, W.misses) = TRUE
  \* inserted or filtered out
  /\ LET sim == Similar(C.mf, s.mf, Ev.t, Pose) IN
     IF Ev.inserted THEN sim # "yes" ELSE sim # "no"
  /\ IF Ev.inserted
     THEN /\ Ev.submaps = Submaps(C, s.ins)
          /\ Ev.counts = Counts(C, s.ins)
          /\ (\A i \in DOMAIN Ev.counts : Ev.finished[i] = (Ev.counts[i] = 2 * C.nrd)) = TRUE
          \* the node: same time, pose, heading and points
          /\ Ev.node.t = Ev.t /\ Ev.node.pose = Ev.pose
          /\ AngNear(Ev.node.grav, W.grav) = TRUE
          /\ (\A k \in DOMAIN Ev.node.points : Same(Ev.node.points[k], Ev.returns)) = TRUE
          /\ s' = TLCEval([s EXCEPT !.ext = AddPose(@, Ev.t, Ev.pose[1], Ev.pose[2], Ev.pose[4]),
                                    !.mf = [t |-> Ev.t, pose |-> Pose], !.ins = @ + 1])
     ELSE s' = TLCEval([s EXCEPT !.ext = AddPose(@, Ev.t, Ev.pose[1], Ev.pose[2], Ev.pose[4])])
Crash == Is("Crash") /\ l > 1 /\ l = Len(Tr) /\ Tr[l - 1].e \in {"Imu", "Odo"} /\ want = <<>> /\ UNCHANGED <<s, want>>
\* ---- the motion filter alone: exact --------------------------------------
\* C: [t, d, a]; poses whole units and degrees.
MF == /\ Is("MF") /\ want = <<>> /\ UNCHANGED want
      /\ LET last == s.mf
             d2 == Sq(Ev.p[1] - last.p[1]) + Sq(Ev.p[2] - last.p[2]) + Sq(Ev.p[3] - last.p[3])
             da == Abs(((Ev.p[4] - last.p[4] + 180) % 360) - 180)
         IN IF last = <<>> THEN ~Ev.similar
            ELSE IF Ev.t - last.t <= C.t /\ d2 <= Sq(C.d) /\ da # C.a
                 THEN Ev.similar = (da < C.a)
                 ELSE IF da = C.a /\ Ev.t - last.t <= C.t /\ d2 <= Sq(C.d) THEN TRUE
                 ELSE ~Ev.similar
      /\ s' = IF Ev.similar THEN s ELSE [s EXCEPT !.mf = [t |-> Ev.t, p |-> Ev.p]]
Accept == l = Len(Tr) + 1 /\ want = <<>> /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, s, want>>
Next == ImuE \/ OdoE \/ CloudE \/ Nothing \/ Result \/ Crash \/ MF \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
