------------------------------ MODULE LocalSlam ------------------------------
\* Local SLAM over planar motion with a scan matcher that keeps its prediction.
\* A state is
\*   ext   the extrapolator, or <<>> before it is started
\*   acc   2D: points accumulated so far, already in the map's frame;
\*         3D: clouds accumulated so far
\*   num   clouds accumulated
\*   mf    time and pose of the last insertion, or <<>>
\*   ins   number of insertions
\*   end   time of the last cloud; earlier points of a later cloud are dropped
\* c: the configuration [d3, imu, dur, num, min2, max2, miss, zmin, zmax, mf, nrd]
\* (min2, max2: twice the range limits; positions of points are whole units).
EXTENDS PoseExtrapolator, FiniteSets
LInit == [ext |-> <<>>, acc |-> <<>>, num |-> 0, mf |-> <<>>, ins |-> 0, end |-> -1000000]
Started(s) == s.ext # <<>>
\* ---- input -----------------------------------------------------------------
MayImu(c, s, t) == c.imu /\ (IF Started(s) THEN MayAddData(s.ext, t) ELSE TRUE)
Imu(c, s, t, w) ==
  IF Started(s) THEN [s EXCEPT !.ext = AddImu(@, t, w)]
  ELSE IF c.d3 THEN [s EXCEPT !.ext = InitImu(c.dur, t, w)]
  ELSE [s EXCEPT !.ext = AddImu(AddPose(New(c.dur), t, 0, 0, 0), t, w)]
MayOdo(s, t) == IF Started(s) THEN MayAddOdo(s.ext, t) ELSE TRUE
Odo(s, t, x, y, a) == IF Started(s) THEN [s EXCEPT !.ext = AddOdo(@, t, x, y, a)] ELSE s
\* ---- points ------------------------------------------------------------------
Sq(x) == x * x
R2(p, o) == Sq(p[1] - o[1]) + Sq(p[2] - o[2]) + Sq(p[3] - o[3])
\* A tracking-frame vector (times k / m) in the map's frame.
Place(ps, x, y, z) == <<ps.x + Cos(ps.a) * x - Sin(ps.a) * y, ps.y + Sin(ps.a) * x + Cos(ps.a) * y, z * D>>
Root(n) == CHOOSE r \in 0..400 : r * r = n
\* A return, a miss, or nothing; `far` points have a whole distance.
Classify(c, p, o) ==
  LET r == 4 * R2(p, o) IN
  IF r < Sq(c.min2) THEN "none" ELSE IF r <= Sq(c.max2) THEN "return" ELSE "miss"
\* Far points: the ray cut to a length (2D: as configured; 3D: the range limit).
Cut(c, ps, p, o) ==
  LET r == Root(R2(p, o))
      len2 == IF c.d3 THEN c.max2 ELSE 2 * c.miss
      a == Place(ps, o[1], o[2], o[3])
      d(i) == p[i] - o[i]
      x == (Cos(ps.a) * d(1) - Sin(ps.a) * d(2)) \div (2 * r)
      y == (Sin(ps.a) * d(1) + Cos(ps.a) * d(2)) \div (2 * r)
  IN <<a[1] + x * len2, a[2] + y * len2, a[3] + ((d(3) * D) \div (2 * r)) * len2>>
Hit(c, ps, p, o) ==
  LET k == Classify(c, p, o) IN
  CASE k = "none" -> <<>>
    [] k = "return" -> <<[k |-> "return", p |-> Place(ps, p[1], p[2], p[3])]>>
    [] k = "miss" -> <<[k |-> "miss", p |-> Cut(c, ps, p, o)]>>
\* The points of one cloud (time t, points <<dt, x, y, z>>, origin o), each
\* placed by the pose at its time; time never runs backwards.
RECURSIVE PlaceAll(_, _, _, _, _, _)
PlaceAll(c, e, t, pts, o, i) ==
  IF i > Len(pts) THEN [e |-> e, out |-> <<>>]
  ELSE LET tp == IF t + pts[i][1] < e.ex.t THEN e.ex.t ELSE t + pts[i][1]
           q == Ask(e, tp)
           r == PlaceAll(c, q.s, t, pts, o, i + 1)
       IN [e |-> r.e, out |-> Hit(c, q.ans, <<pts[i][2], pts[i][3], pts[i][4]>>, o) \o r.out]
RECURSIVE PlaceClouds(_, _, _, _)
PlaceClouds(c, e, clouds, i) ==
  IF i > Len(clouds) THEN [e |-> e, out |-> <<>>]
  ELSE LET q == PlaceAll(c, e, clouds[i].t, clouds[i].pts, clouds[i].o, 1)
           r == PlaceClouds(c, q.e, clouds, i + 1)
       IN [e |-> r.e, out |-> q.out \o r.out]
Select(out, kind) == LET q == SelectSeq(out, LAMBDA h : h.k = kind) IN [i \in DOMAIN q |-> q[i].p]
CropZ(c, q) == IF c.d3 THEN q ELSE SelectSeq(q, LAMBDA p : p[3] >= c.zmin * D /\ p[3] <= c.zmax * D)
None == [none |-> TRUE]
\* ---- a cloud: the new state and what is to be reported ------------------------
\* (the state before the matched pose is added).
Cloud(c, sOld, t, all, o) ==
  LET s0 == [sOld EXCEPT !.end = t]
      pts == SelectSeq(all, LAMBDA p : t + p[1] >= sOld.end)
  IN
  IF pts = <<>> THEN [s |-> s0, r |-> None]
  ELSE LET s == IF ~Started(s0) /\ ~c.imu THEN [s0 EXCEPT !.ext = AddPose(New(c.dur), t, 0, 0, 0)] ELSE s0 IN
    IF ~Started(s) THEN [s |-> s, r |-> None]
    ELSE IF t + pts[1][1] < PoseTime(s.ext) THEN [s |-> s, r |-> None]
    ELSE LET before == IF s.num = 0 THEN <<>> ELSE s.acc
             now == IF c.d3 THEN [e |-> s.ext, out |-> <<[t |-> t, pts |-> pts, o |-> o]>>]
                    ELSE PlaceAll(c, s.ext, t, pts, o, 1)
             acc == before \o now.out
             s1 == [s EXCEPT !.ext = now.e, !.acc = acc, !.num = @ + 1]
         IN IF s1.num < c.num THEN [s |-> s1, r |-> None]
            ELSE LET fin == IF c.d3 THEN PlaceClouds(c, s1.ext, acc, 1) ELSE [e |-> s1.ext, out |-> acc]
                     q == Ask(fin.e, t)
                     rets == CropZ(c, Select(fin.out, "return"))
                     miss == CropZ(c, Select(fin.out, "miss"))
                     s2 == [s1 EXCEPT !.num = 0, !.acc = <<>>, !.ext = IF c.d3 THEN q.s ELSE fin.e]
                 IN IF rets = <<>> THEN [s |-> s2, r |-> None]
                    ELSE [s |-> [s2 EXCEPT !.ext = q.s],
                          r |-> [none |-> FALSE, t |-> t, pose |-> q.ans, returns |-> rets, misses |-> miss,
                                 grav |-> Gravity(s2.ext, t)]]
\* ---- motion filter (distances in hundredths of a unit) --------------------------
Abs(x) == IF x < 0 THEN -x ELSE x
Dist2(p, q) == Sq((p.x - q.x) \div 1000) + Sq((p.y - q.y) \div 1000)
\* "yes", "no", or "either" where the limits are too close to tell.
Similar(m, last, t, pose) ==
  IF last = <<>> THEN "no"
  ELSE LET d2 == Dist2(last.pose, pose)  a == Abs(Norm(pose.a - last.pose.a)) IN
       IF t - last.t > m.t \/ d2 > Sq(m.d + 3) \/ a > m.a + 3000 THEN "no"
       ELSE IF d2 < Sq(IF m.d > 3 THEN m.d - 3 ELSE 0) /\ a < m.a - 3000 THEN "yes"
       ELSE "either"
\* ---- submaps: the i-th insertion (from 0) goes into these ------------------------
Submaps(c, i) == LET k == i \div c.nrd IN IF k = 0 THEN <<0>> ELSE <<k - 1, k>>
Counts(c, i) == LET k == i \div c.nrd IN
                IF k = 0 THEN <<i + 1>> ELSE <<i - (k - 1) * c.nrd + 1, i - k * c.nrd + 1>>
=============================================================================
