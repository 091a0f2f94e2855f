--------------------------- MODULE PoseExtrapolator ---------------------------
\* Extrapolation of planar motion. Times are ticks, positions scaled by D (odometry:
\* not scaled), angles
\* 1/100000 degree, angular velocities that per tick.
\*   poses  retained poses   [t, x, y, a]
\*   odo    retained odometry [t, x, y, a]
\*   imu    all angular velocities [t, w]
\*   vp, wp velocity by poses (vector over a number of ticks), angular velocity
\*   vo, wo the same by odometry
\*   base, od, ex  heading integrators [t, a, w]: up to the last pose, to the
\*          newest odometry, and to the last extrapolated time
\*   memo   the last answer [t, x, y, a], or <<>>
EXTENDS Integers, Sequences, Trig
Zero == <<0, 0, 1>>
New(dur) == [dur |-> dur, poses |-> <<>>, odo |-> <<>>, imu |-> <<>>, vp |-> Zero, wp |-> 0,
             vo |-> Zero, wo |-> 0, base |-> <<>>, od |-> <<>>, ex |-> <<>>, memo |-> <<>>]
Last(q) == q[Len(q)]
HasPose(s) == s.poses # <<>>
PoseTime(s) == Last(s.poses).t
\* ---- heading integration -------------------------------------------------
Turn(k, t) == [t |-> t, a |-> k.a + k.w * (t - k.t), w |-> k.w]
RECURSIVE Follow(_, _, _, _)
\* Through the measurements from the i-th on, up to t.
Follow(k, imu, i, t) ==
  IF i > Len(imu) THEN Turn(k, t)
  ELSE IF imu[i].t < k.t THEN Follow(k, imu, i + 1, t)
  ELSE IF imu[i].t < t THEN Follow([Turn(k, imu[i].t) EXCEPT !.w = imu[i].w], imu, i + 1, t)
  ELSE Turn(k, t)
Omega(s) == IF Len(s.odo) < 2 THEN s.wp ELSE s.wo
Advance(s, k, t) ==
  IF s.imu = <<>> THEN [Turn(k, t) EXCEPT !.w = Omega(s)]
  ELSE IF t < s.imu[1].t THEN [Turn(k, t) EXCEPT !.w = Omega(s)]
  ELSE Follow(k, s.imu, 1, t)
\* ---- data ------------------------------------------------------------------
RECURSIVE Shrink(_, _, _)
\* Only what is needed to reach back to time t, but `keep` at least.
Shrink(q, t, keep) == IF Len(q) > keep /\ (IF Len(q) > keep THEN q[2].t <= t ELSE FALSE) THEN Shrink(Tail(q), t, keep) ELSE q
\* Angles are compared the short way round.
Norm(a) == ((a + 180 * D) % Full) - 180 * D
Div(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -(((-a) + b \div 2) \div b)
AddPose(s0, t, x, y, a) ==
  LET q == Shrink(Append(s0.poses, [t |-> t, x |-> x, y |-> y, a |-> a]), t - s0.dur, 2)
      dt == t - q[1].t
      enough == Len(q) >= 2 /\ dt >= s0.dur
      s == [s0 EXCEPT !.poses = q,
              !.vp = IF enough THEN <<x - q[1].x, y - q[1].y, dt>> ELSE @,
              !.wp = IF enough THEN Div(Norm(a - q[1].a), dt) ELSE @]
      start == IF s.imu = <<>> THEN t ELSE IF s.imu[1].t < t THEN s.imu[1].t ELSE t
      k0 == IF s.base = <<>> THEN [t |-> start, a |-> 0, w |-> 0] ELSE s.base
      \* (integrated before odometry is forgotten)
      k == Advance(s, k0, t)
  IN [s EXCEPT !.base = k, !.od = k, !.ex = k, !.odo = Shrink(@, t, 2), !.memo = <<>>]
MayAddPose(s, t) == s.base # <<>> => t >= s.base.t
AddImu(s, t, w) == [s EXCEPT !.imu = Append(@, [t |-> t, w |-> w])]
MayAddData(s, t) == HasPose(s) => t >= PoseTime(s)
AddOdo(s, t, x, y, a) ==
  LET q0 == Append(s.odo, [t |-> t, x |-> x, y |-> y, a |-> a])
      q == IF HasPose(s) THEN Shrink(q0, PoseTime(s), 2) ELSE q0
  IN IF Len(q) < 2 THEN [s EXCEPT !.odo = q]
     ELSE LET dt == t - q[1].t
              s1 == [s EXCEPT !.odo = q, !.wo = Div(Norm(a - q[1].a), dt)]
          IN IF ~HasPose(s) THEN s1
             ELSE LET k == Advance(s1, s.od, t)
                      \* from the odometry's frame into the map's
                      r == Last(s.poses).a + (k.a - s.base.a) - a
                      dx == x - q[1].x  dy == y - q[1].y
                  IN [s1 EXCEPT !.od = k, !.vo = <<Cos(r) * dx - Sin(r) * dy, Sin(r) * dx + Cos(r) * dy, dt>>]
MayAddOdo(s, t) == MayAddData(s, t) /\ (s.od # <<>> /\ Len(s.odo) >= 1 => t >= s.od.t)
InitImu(dur, t, w) ==
  AddPose([AddImu(New(dur), t, w) EXCEPT !.base = [t |-> t, a |-> 0, w |-> w]], t, 0, 0, 0)
\* ---- answers (positions scaled by D) ---------------------------------------
Vel(s) == IF Len(s.odo) < 2 THEN s.vp ELSE s.vo
MayAsk(s, t) == /\ HasPose(s) /\ t >= PoseTime(s)
                /\ (IF s.memo = <<>> THEN t >= s.ex.t ELSE t = s.memo.t \/ t >= s.ex.t)
Ask(s, t) ==
  IF s.memo # <<>> /\ (IF s.memo # <<>> THEN s.memo.t = t ELSE FALSE) THEN [s |-> s, ans |-> s.memo]
  ELSE LET p == Last(s.poses)  k == Advance(s, s.ex, t)  v == Vel(s)  dt == t - p.t
           ans == [t |-> t, x |-> p.x + Div(v[1], v[3]) * dt, y |-> p.y + Div(v[2], v[3]) * dt,
                   a |-> p.a + k.a - s.base.a]
       IN [s |-> [s EXCEPT !.ex = k, !.memo = ans], ans |-> ans]
Gravity(s, t) == Advance(s, s.base, t).a
=============================================================================
