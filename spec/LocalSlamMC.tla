----------------------------- MODULE LocalSlamMC -----------------------------
\* Short histories of local SLAM over a small world.
EXTENDS LocalSlam, TLC
CONSTANTS MaxOps, MaxT
VARIABLES s, c, n, now, out, clouds
vars == <<s, c, n, now, out, clouds>>
Mf == [t |-> 1, d |-> 130, a |-> 500000]
Confs == {[d3 |-> d, imu |-> i, dur |-> 1, num |-> k, min2 |-> 1, max2 |-> 31, miss |-> 10, zmin |-> -2, zmax |-> 2, mf |-> Mf, nrd |-> 1] :
            d \in BOOLEAN, i \in BOOLEAN, k \in {1, 2}}
Init == s = LInit /\ c \in {x \in Confs : x.d3 => x.imu} /\ n = 0 /\ now = 0 /\ out = <<>> /\ clouds = 0
Data(t) == \/ MayImu(c, s, t) /\ (Started(s) => (\A i \in DOMAIN s.ext.imu : s.ext.imu[i].t < t)) /\ s' = Imu(c, s, t, D)
           \/ MayOdo(s, t) /\ (Started(s) => (\A i \in DOMAIN s.ext.odo : s.ext.odo[i].t < t)) /\ s' = Odo(s, t, t, 2 * t, 0)
Pts == {<<>>, <<<<0, 5, 0, 0>>>>, <<<<-1, 30, 40, 0>>, <<0, 0, 6, 0>>>>}
Scan(t) == \E p \in Pts :
   LET r == Cloud(c, s, t, p, <<0, 0, 0>>) IN
   /\ clouds' = IF r.s.num # s.num \/ ~r.r.none THEN clouds + 1 ELSE clouds
   /\ IF r.r.none THEN s' = r.s /\ UNCHANGED out
      ELSE LET ps == [t |-> t, x |-> r.r.pose.x, y |-> r.r.pose.y, a |-> r.r.pose.a]
               in == Similar(c.mf, s.mf, t, ps) = "no"
               e == AddPose(r.s.ext, t, ps.x, ps.y, ps.a)
           IN /\ s' = IF in THEN [r.s EXCEPT !.ext = e, !.mf = [t |-> t, pose |-> ps], !.ins = @ + 1] ELSE [r.s EXCEPT !.ext = e]
              /\ out' = Append(out, [t |-> t, in |-> in, k |-> clouds'])
Next == /\ n < MaxOps /\ n' = n + 1 /\ c' = c
        /\ \E t \in now..MaxT : now' = t /\ ((Data(t) /\ UNCHANGED <<out, clouds>>) \/ Scan(t))
Spec == Init /\ [][Next]_vars
Types == s.num < c.num
\* A result for every c.num accumulated clouds at most.
Accumulate == Len(out) * c.num <= clouds + s.num
Inserted == s.ins = Cardinality({i \in DOMAIN out : out[i].in}) /\ (out # <<>> => out[1].in)
Monotone == [][\A i \in DOMAIN out : i > 1 => out[i - 1].t <= out[i].t]_vars
=============================================================================
