------------------------ MODULE PoseExtrapolatorTrace ------------------------
EXTENDS PoseExtrapolator, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, s
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
vars == <<tid, l, s>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ s = New(Traces[tid].in.dur)
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
\* Either the operation is allowed and goes on, or it is refused.
Refused == l < Len(Tr) /\ Tr[l + 1].e = "Crash"
Do(ok, next) == IF ok THEN ~Refused /\ s' = TLCEval(next) ELSE Refused /\ s' = s
Abs(x) == IF x < 0 THEN -x ELSE x
\* 1/50 of a unit, and 1/2000 of the length for the approximations made here.
Near(a, b) == Abs(a - b) <= 2000 + Abs(b) \div 2000
AngNear(a, b) == LET d == (a - b) % Full IN d <= 2000 \/ d >= Full - 2000
InitImuE == Is("InitImu") /\ s' = TLCEval(InitImu(In.dur, Ev.t, Ev.w))
Pose == Is("Pose") /\ Do(MayAddPose(s, Ev.t), AddPose(s, Ev.t, Ev.p[1] * D, Ev.p[2] * D, Ev.p[3]))
Imu == Is("Imu") /\ Do(MayAddData(s, Ev.t), AddImu(s, Ev.t, Ev.w))
Odo == Is("Odo") /\ Do(MayAddOdo(s, Ev.t), AddOdo(s, Ev.t, Ev.p[1], Ev.p[2], Ev.p[3]))
AskE == Is("Ask") /\ (IF MayAsk(s, Ev.t) THEN ~Refused ELSE Refused) = TRUE /\ UNCHANGED s
Matches(g, ans) == Near(g[1], ans.x) /\ Near(g[2], ans.y) /\ Near(g[3], 0) /\ AngNear(g[4], ans.a) /\ Near(g[5], 0)
\* The answer, and the times reported.
Answer == /\ Is("Answer")
          /\ LET r == Ask(s, Tr[l - 1].t) IN
             /\ Matches(Ev.g, r.ans) = TRUE
             /\ s' = TLCEval(r.s)
             /\ Ev.lastpose = PoseTime(s) /\ Ev.lastex = r.s.ex.t
\* Several times at once, with the velocity and the heading of the tracker.
RECURSIVE AskAll(_, _, _)
AskAll(s0, ts, i) == IF i > Len(ts) THEN [s |-> s0, ans |-> <<>>]
                     ELSE LET r == Ask(s0, ts[i])  q == AskAll(r.s, ts, i + 1)
                          IN [s |-> q.s, ans |-> <<r.ans>> \o q.ans]
RECURSIVE MayAskAll(_, _, _)
MayAskAll(s0, ts, i) == IF i > Len(ts) THEN TRUE
                        ELSE IF MayAsk(s0, ts[i]) THEN MayAskAll(Ask(s0, ts[i]).s, ts, i + 1) ELSE FALSE
Many == Is("Many") /\ (IF MayAskAll(s, Ev.ts, 1) THEN ~Refused ELSE Refused) = TRUE /\ UNCHANGED s
Answers == /\ Is("Answers")
           /\ LET ts == Tr[l - 1].ts  r == AskAll(s, ts, 1)  v == Vel(r.s) IN
              /\ (/\ Len(Ev.g) = Len(ts)
                  /\ \A i \in DOMAIN ts : Matches(Ev.g[i], r.ans[i])
                  /\ Near(Ev.v[1], Div(v[1], v[3])) /\ Near(Ev.v[2], Div(v[2], v[3])) /\ Near(Ev.v[3], 0)
                  /\ AngNear(Ev.grav[1], Gravity(r.s, ts[Len(ts)])) /\ Near(Ev.grav[2], 0)) = TRUE
              /\ s' = TLCEval(r.s)
\* Asking for gravity changes nothing.
Grav == /\ Is("Grav") /\ UNCHANGED s
        /\ (IF s.base # <<>> /\ (IF s.base # <<>> THEN Ev.t >= s.base.t ELSE FALSE) THEN ~Refused ELSE Refused) = TRUE
GravAns == Is("GravAns") /\ UNCHANGED s /\ (AngNear(Ev.grav[1], Gravity(s, Tr[l - 1].t)) /\ Near(Ev.grav[2], 0)) = TRUE
Crash == Is("Crash") /\ l > 1 /\ l = Len(Tr) /\ Tr[l - 1].e \in {"Pose", "Imu", "Odo", "Ask", "Many", "Grav"} /\ UNCHANGED s
\* ---- gravity direction: a moving average of the accelerations, halving in
\* one second; the vector scaled, tilt the direction of "up" in the tracker.
Abs3(v) == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
RECURSIVE Avg(_, _, _)
Avg(obs, i, g) ==
  IF i > Len(obs) THEN g
  ELSE LET k == IF i = 1 THEN -1 ELSE obs[i].t - obs[i - 1].t
           mix(a, b) == IF k < 0 THEN b * 1000 ELSE a \div 2 ^ k + (b * 1000 * (2 ^ k - 1)) \div 2 ^ k
       IN Avg(obs, i + 1, <<mix(g[1], obs[i].a[1]), mix(g[2], obs[i].a[2]), mix(g[3], obs[i].a[3])>>)
\* up (scaled by 1000) is parallel to g and points the same way.
Parallel(u, g) ==
  LET c(i, j) == Abs(u[i] * g[j] - u[j] * g[i]) IN
  /\ c(1, 2) <= 3 * Abs3(g) /\ c(2, 3) <= 3 * Abs3(g) /\ c(1, 3) <= 3 * Abs3(g)
  /\ u[1] * g[1] + u[2] * g[2] + u[3] * g[3] > 0
Tilt == /\ Is("Tilt") /\ UNCHANGED s
        /\ Parallel(Ev.up, Avg(SubSeq(In.obs, 1, Ev.n), 1, <<0, 0, 1000>>)) = TRUE
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, s>>
Next == InitImuE \/ Pose \/ Imu \/ Odo \/ AskE \/ Answer \/ Many \/ Answers \/ Grav \/ GravAns \/ Crash \/ Tilt \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
