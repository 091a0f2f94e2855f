---------------------------- MODULE Optimization ----------------------------
(* The pose graph optimisation problem (mapping/internal/optimization): which *)
(* measurements count, what they tie together, what stays where it is, and    *)
(* what the result of solving it must look like.                              *)
(*                                                                            *)
(* Elements are tuples <<kind, trajectory, index>>: submaps "s", nodes "n",   *)
(* landmarks <<"l", -1, id>>, the origin <<"f", t, 0>> of the fixed frame in   *)
(* which trajectory t gets its fixed-frame poses.                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
VARIABLES opt,     \* [dim, fixz, w]: options; w has the weights (integers)
          nodes,   \* <<t, i>> -> [time, local]
          subs,    \* set of <<t, i>>
          odo,     \* t -> set of [time, x]
          ffx,     \* t -> set of [time, has, x]
          imu      \* t -> set of [time, x]
ovars == <<opt, nodes, subs, odo, ffx, imu>>
CONSTANT Traj
OInit == /\ nodes = <<>> /\ subs = {}
         /\ odo = [t \in Traj |-> {}] /\ ffx = [t \in Traj |-> {}] /\ imu = [t \in Traj |-> {}]
SMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
\* ------------------------------------------------------------ the problem
Index(D, t) == {d[2] : d \in {x \in D : x[1] = t}}
AddNode(t, i, time, local) ==
  /\ <<t, i>> \notin DOMAIN nodes
  /\ \A j \in Index(DOMAIN nodes, t) : j < i /\ nodes[<<t, j>>].time < time
  /\ nodes' = TLCEval((<<t, i>> :> [time |-> time, local |-> local]) @@ nodes)
  /\ UNCHANGED <<opt, subs, odo, ffx, imu>>
AddSubmap(t, i) == /\ \A j \in Index(subs, t) : j < i
                   /\ subs' = TLCEval(subs \cup {<<t, i>>}) /\ UNCHANGED <<opt, nodes, odo, ffx, imu>>
Later(S, time) == \A e \in S : e.time < time
AddOdometry(t, time, x) == Later(odo[t], time) /\ odo' = [odo EXCEPT ![t] = TLCEval(@ \cup {[time |-> time, x |-> x]})]
                           /\ UNCHANGED <<opt, nodes, subs, ffx, imu>>
AddFixed(t, time, has, x) == Later(ffx[t], time) /\ ffx' = [ffx EXCEPT ![t] = TLCEval(@ \cup {[time |-> time, has |-> has, x |-> x]})]
                             /\ UNCHANGED <<opt, nodes, subs, odo, imu>>
AddImu(t, time, x) == Later(imu[t], time) /\ imu' = [imu EXCEPT ![t] = TLCEval(@ \cup {[time |-> time, x |-> x]})]
                      /\ UNCHANGED <<opt, nodes, subs, odo, ffx>>
NodeTimes(N, t) == {N[<<t, i>>].time : i \in Index(DOMAIN N, t)}
\* What is left of a history when a node goes (see TimeMap).
Trimmed(S, T, time) ==
  LET before == {x \in T : x < time}
      after == {x \in T : x > time}
      gap == {e.time : e \in {x \in S : (before = {} \/ x.time >= SMax(before)) /\ (after = {} \/ x.time <= SMin(after))}}
      keep == (IF before # {} /\ gap # {} THEN {SMin(gap)} ELSE {}) \cup (IF after # {} /\ gap # {} THEN {SMax(gap)} ELSE {})
  IN {e \in S : e.time \notin gap \/ e.time \in keep}
TrimNode(t, i) ==
  LET T == NodeTimes(nodes, t)
      time == nodes[<<t, i>>].time IN
  /\ <<t, i>> \in DOMAIN nodes
  /\ nodes' = TLCEval([n \in DOMAIN nodes \ {<<t, i>>} |-> nodes[n]])
  /\ odo' = [odo EXCEPT ![t] = TLCEval(Trimmed(@, T, time))]
  /\ ffx' = [ffx EXCEPT ![t] = TLCEval(Trimmed(@, T, time))]
  /\ imu' = [imu EXCEPT ![t] = TLCEval(Trimmed(@, T, time))]
  /\ UNCHANGED <<opt, subs>>
TrimSubmap(t, i) == <<t, i>> \in subs /\ subs' = TLCEval(subs \ {<<t, i>>}) /\ UNCHANGED <<opt, nodes, odo, ffx, imu>>
\* -------------------------------------------------- which measurements count
\* Histories are interpolated linearly between their samples, never beyond them.
Floor(S, time) == CHOOSE e \in S : e.time <= time /\ \A d \in S : d.time <= time => d.time <= e.time
Ceil(S, time) == CHOOSE e \in S : e.time >= time /\ \A d \in S : d.time >= time => d.time >= e.time
Covers(S, time) == (\E e \in S : e.time >= time) /\ (\E e \in S : e.time <= time)
At(S, time) == LET a == Floor(S, time)
                   b == Ceil(S, time) IN
               IF a.time = b.time THEN a.x * 1000
               ELSE a.x * 1000 + ((b.x - a.x) * 1000 * (time - a.time)) \div (b.time - a.time)
FixedCovers(S, time) == Covers(S, time) /\ Floor(S, time).has /\ Ceil(S, time).has
\* Pairs of nodes that follow each other, of trajectories that may move.
Steps(frozen) == {n \in DOMAIN nodes : n[1] \notin frozen /\ <<n[1], n[2] + 1>> \in DOMAIN nodes}
Succ(n) == <<n[1], n[2] + 1>>
Chain == opt.dim = 2 \/ opt.fixz      \* consecutive nodes tied by local SLAM and odometry; otherwise by the IMU
OdoSteps(frozen) == {n \in Steps(frozen) : Covers(odo[n[1]], nodes[n].time) /\ Covers(odo[n[1]], nodes[Succ(n)].time)}
Node(n) == <<"n", n[1], n[2]>>
Sub(s) == <<"s", s[1], s[2]>>
FixedNodes == {n \in DOMAIN nodes : FixedCovers(ffx[n[1]], nodes[n].time)}
Triples(frozen) == {n \in Steps(frozen) : Succ(n) \in Steps(frozen)}
\* A landmark observation relates the landmark to the two nodes around it.
Seen(ob) == LET T == NodeTimes(nodes, ob.t) IN
            Cardinality(T) >= 2 /\ ob.time >= SMin(T) /\ ob.time <= SMax(T)
NodeAt(t, time) == CHOOSE n \in DOMAIN nodes : n[1] = t /\ nodes[n].time = time
Next2(ob) == LET T == NodeTimes(nodes, ob.t) IN NodeAt(ob.t, SMin({x \in T : x >= ob.time /\ x # SMin(T)}))
Prev2(ob) == LET T == NodeTimes(nodes, ob.t)
                 x == nodes[Next2(ob)].time IN NodeAt(ob.t, SMax({y \in T : y < x}))
Obs(lm) == {[l |-> lm[i].i, k |-> k, ob |-> lm[i].obs[k]] : <<i, k>> \in
              {<<a, b>> \in (DOMAIN lm) \X (1..SMax({0} \cup {Len(lm[j].obs) : j \in DOMAIN lm})) : b \in DOMAIN lm[a].obs /\ Seen(lm[a].obs[b])}}
\* Every measurement as a residual  sum of coef[e] * x[e] / den - z  on the line
\* (or, likewise, for the angles about a common axis),
\* weighted by w (translation) and wr (rotation), robust beyond the Huber scale if h.
\* rigid: it fixes the relative pose of its elements completely.
Res(id, els, den, z, w, wr, h, rigid) == [id |-> id, els |-> els, den |-> den, z |-> z, w |-> w, wr |-> wr, h |-> h, rigid |-> rigid]
W == opt.w
Residuals(cs, frozen, lm) ==
  {Res(<<"c", i, 0>>, {<<Sub(cs[i].s), -1>>, <<Node(cs[i].n), 1>>}, 1, cs[i].z * 1000, cs[i].w, cs[i].wr, cs[i].inter, TRUE)
     : i \in DOMAIN cs}
  \cup (IF Chain THEN
    {Res(<<"local", n[1], n[2]>>, {<<Node(n), -1>>, <<Node(Succ(n)), 1>>}, 1,
         (nodes[Succ(n)].local - nodes[n].local) * 1000, W.lt, W.lr, FALSE, TRUE) : n \in Steps(frozen)}
    \cup {Res(<<"odom", n[1], n[2]>>, {<<Node(n), -1>>, <<Node(Succ(n)), 1>>}, 1,
         At(odo[n[1]], nodes[Succ(n)].time) - At(odo[n[1]], nodes[n].time), W.ot, W["or"], FALSE, TRUE) : n \in OdoSteps(frozen)}
    ELSE
    {LET d1 == nodes[Succ(n)].time - nodes[n].time
         d2 == nodes[Succ(Succ(n))].time - nodes[Succ(n)].time IN
     Res(<<"acc", n[1], n[2]>>, {<<Node(n), d2>>, <<Node(Succ(n)), -(d1 + d2)>>, <<Node(Succ(Succ(n))), d1>>},
         d1 * d2 * (d1 + d2), (CHOOSE e \in imu[n[1]] : TRUE).x * 500, W.acc, 0, FALSE, FALSE) : n \in Triples(frozen)}
    \cup {Res(<<"rot", n[1], n[2]>>, {<<Node(n), -1>>, <<Node(Succ(n)), 1>>},
              2 * (nodes[Succ(n)].time - nodes[n].time), 0, 0, W.rot, FALSE, FALSE) : n \in Steps(frozen)})
  \cup {Res(<<"fix", n[1], n[2]>>, {<<<<"f", n[1], 0>>, -1>>, <<Node(n), 1>>}, 1,
         At(ffx[n[1]], nodes[n].time), W.ft, W.fr, FALSE, TRUE) : n \in FixedNodes}
  \cup {LET p == Prev2(o.ob)
            x == Next2(o.ob)
            den == nodes[x].time - nodes[p].time
            k == o.ob.time - nodes[p].time IN
        Res(<<"lm", o.l, o.k>>, {<<<<"l", -1, o.l>>, den>>, <<Node(p), k - den>>, <<Node(x), -k>>}, den,
            o.ob.z * 1000, o.ob.w, o.ob.wr, TRUE, TRUE) : o \in Obs(lm)}
Touches(r) == {p[1] : p \in r.els}
\* The elements a rigid measurement really relates.
Ties(r) == {p[1] : p \in {q \in r.els : q[2] # 0}}
Elements(cs, frozen, lm) ==
  {Sub(s) : s \in subs} \cup {Node(n) : n \in DOMAIN nodes}
    \cup {<<"f", n[1], 0>> : n \in FixedNodes} \cup {<<"l", -1, o.l>> : o \in Obs(lm)}
\* What is tied to e: all but one element of a measurement known, the last follows.
RECURSIVE Closure(_, _)
Closure(S, R) ==
  LET N == S \cup UNION {Ties(r) : r \in {q \in R : Cardinality(Ties(q) \ S) = 1}}
  IN IF N = S THEN S ELSE Closure(TLCEval(N), R)
\* -------------------------------------------------------- what stays in place
First(S) == CHOOSE s \in S : \A o \in S : s[1] < o[1] \/ (s[1] = o[1] /\ s[2] <= o[2])
FrozenLm(lm) == {<<"l", -1, lm[i].i>> : i \in {j \in DOMAIN lm : lm[j].frozen}}
Constant(e, frozen, lm) == \/ e[1] \in {"s", "n"} /\ e[2] \in frozen
                           \/ e[1] = "s" /\ opt.dim = 2 /\ e = Sub(First(subs))
                           \/ e \in FrozenLm(lm)
\* In 3D the first submap may tilt to align with gravity, but neither shift nor turn.
Held(e) == opt.dim = 3 /\ e[1] = "s" /\ e = Sub(First(subs))
=============================================================================
