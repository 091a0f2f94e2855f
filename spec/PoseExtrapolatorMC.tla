-------------------------- MODULE PoseExtrapolatorMC --------------------------
\* All short histories of poses, measurements and questions.
EXTENDS PoseExtrapolator, FiniteSets, TLC, Json
CONSTANTS MaxOps, MaxT, Dur, Gen
VARIABLES s, hist, now
vars == <<s, hist, now>>
Init == s = New(Dur) /\ hist = <<>> /\ now = 0
N == Len(hist)
Log(e) == hist' = Append(hist, e)
Pose(t) == MayAddPose(s, t) /\ s' = AddPose(s, t, 3 * N * D, -N * N * D, 20 * D * N) /\ Log([op |-> "Pose", t |-> t, p |-> <<3 * N, -N * N, 20 * N>>])
Imu(t) == MayAddData(s, t) /\ (s.imu = <<>> \/ (IF s.imu # <<>> THEN t > Last(s.imu).t ELSE FALSE)) /\ s' = AddImu(s, t, (5 - 4 * N) * D) /\ Log([op |-> "Imu", t |-> t, w |-> 5 - 4 * N])
Odo(t) == /\ MayAddOdo(s, t) /\ (s.odo = <<>> \/ (IF s.odo # <<>> THEN t > Last(s.odo).t ELSE FALSE))
          /\ s' = AddOdo(s, t, N, 2 * N, 15 * D * N) /\ Log([op |-> "Odo", t |-> t, p |-> <<N, 2 * N, 15 * N>>])
Query(t) == MayAsk(s, t) /\ s' = Ask(s, t).s /\ Log([op |-> "Ask", t |-> t])
Step == /\ N < MaxOps
        /\ \E t \in now..MaxT : now' = t /\ (Pose(t) \/ Imu(t) \/ Odo(t) \/ Query(t))
Out == Gen /\ N = MaxOps /\ (\E i \in DOMAIN hist : hist[i].op = "Ask") /\ PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE /\ UNCHANGED vars
Next == Step \/ Out
Spec == Init /\ [][Next]_vars
\* The last pose is what is reported for its time, whatever was asked before.
AtPose == HasPose(s) /\ (IF HasPose(s) THEN MayAsk(s, PoseTime(s)) ELSE FALSE) =>
            LET r == Ask(s, PoseTime(s)).ans  p == Last(s.poses) IN r.x = p.x /\ r.y = p.y /\ r.a = p.a
\* Enough history is kept, and no more than one pose beyond the duration.
Window == \A i \in 2..Len(s.poses) : Len(s.poses) > 2 => s.poses[i].t > PoseTime(s) - s.dur
\* Asking in between does not change the answer, while no odometry came in
\* since the last pose (an answered question fixes the heading up to it).
Steady == HasPose(s) /\ s.imu # <<>> /\ (IF s.imu # <<>> THEN s.imu[1].t <= PoseTime(s) ELSE FALSE) =>
   \A t \in 0..MaxT, u \in 0..MaxT :
     (t <= u /\ MayAsk(s, t)) => Ask(Ask(s, t).s, u).ans = Ask(s, u).ans \/ t = s.ex.t \/ u = t
=============================================================================
