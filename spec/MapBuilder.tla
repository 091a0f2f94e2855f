----------------------------- MODULE MapBuilder -----------------------------
(* The map builder (mapping/map_builder.cc with the collated and the global  *)
(* trajectory builders) for a robot that stands still: how every message     *)
(* given to a trajectory travels through the collator to local SLAM and to   *)
(* the pose graph of that trajectory.                                        *)
(* Sensors are named by their type: r range, i IMU, o odometry, f fixed      *)
(* frame pose, l landmarks.                                                  *)
EXTENDS Collator
VARIABLES
  conf,      \* the trajectories in the order of their ids: options
  done,      \* trajectories that were finished
  imuSeen,   \* local SLAM of the trajectory has got IMU data
  acc,       \* clouds accumulated for the next scan
  nodes,     \* times of the nodes
  imu, odo, ff,  \* times of the data that the pose graph keeps
  lm         \* landmark observations <<trajectory, time>> in order of arrival
mvars == <<conf, done, imuSeen, acc, nodes, imu, odo, ff, lm>>
Ids == 0..(Len(conf) - 1)
Conf(t) == conf[t + 1]
MInit == /\ CInit /\ conf = <<>> /\ done = {} /\ imuSeen = {} /\ acc = [t \in Trajectories |-> 0]
         /\ nodes = [t \in Trajectories |-> <<>>] /\ imu = nodes /\ odo = nodes /\ ff = nodes /\ lm = <<>>

Collated(c) == {c.sensors[i] : i \in DOMAIN c.sensors}
               \ ({s \in {"l0"} : ~c.cl} \cup {s \in {"f0"} : ~c.cf})
NewTrajectory(c) ==
  /\ AddTrajectory(Len(conf), Collated(c))
  /\ conf' = Append(conf, c) /\ UNCHANGED <<done, imuSeen, acc, nodes, imu, odo, ff, lm>>

LastOr(s) == IF s = <<>> THEN -1000000 ELSE s[Len(s)]
\* A cloud completes a scan: local SLAM gives a result ...
NeedsImu(t, dim) == dim = 3 \/ Conf(t).imu
Completes(t, dim) == Conf(t).local /\ (NeedsImu(t, dim) => t \in imuSeen) /\ acc[t] + 1 = Conf(t).num
\* ... which becomes a node if enough time has passed since the last one.
Inserts(t, time) == nodes[t] = <<>> \/ time - LastOr(nodes[t]) > Conf(t).mf
Keep(f, t, time) == [f EXCEPT ![t] = Append(@, time)]
\* What a message does once it reaches its trajectory.
Effect(t, s, time, dim) ==
  CASE s = "r0" ->
         /\ acc' = IF Completes(t, dim) THEN [acc EXCEPT ![t] = 0]
                   ELSE IF NeedsImu(t, dim) /\ t \notin imuSeen THEN acc ELSE [acc EXCEPT ![t] = @ + 1]
         /\ nodes' = IF Completes(t, dim) /\ Inserts(t, time) THEN Keep(nodes, t, time) ELSE nodes
         /\ UNCHANGED <<imuSeen, imu, odo, ff, lm>>
    [] s = "i0" -> /\ imuSeen' = imuSeen \cup {t}
                   /\ imu' = IF dim = 3 THEN Keep(imu, t, time) ELSE imu
                   /\ UNCHANGED <<acc, nodes, odo, ff, lm>>
    [] s = "o0" -> /\ odo' = IF Conf(t).omf < 0 \/ odo[t] = <<>> \/ time - LastOr(odo[t]) > Conf(t).omf
                             THEN Keep(odo, t, time) ELSE odo
                   /\ UNCHANGED <<imuSeen, acc, nodes, imu, ff, lm>>
    [] s = "f0" -> ff' = Keep(ff, t, time) /\ UNCHANGED <<imuSeen, acc, nodes, imu, odo, lm>>
    [] s = "l0" -> lm' = Append(lm, <<t, time>>) /\ UNCHANGED <<imuSeen, acc, nodes, imu, odo, ff>>
\* Data that is not collated takes effect at once.
Give(t, s, time, dim) ==
  IF ~((s = "l0" /\ ~Conf(t).cl) \/ (s = "f0" /\ ~Conf(t).cf))
  THEN Add(<<t, s>>, 0, time) /\ UNCHANGED mvars
  ELSE Effect(t, s, time, dim) /\ UNCHANGED <<cvars, conf, done>>
Arrive(k, dim) == Deliver(k) /\ Effect(k[1], k[2], Head1(k), dim) /\ UNCHANGED <<conf, done>>
Forget(k) == Drop(k) /\ UNCHANGED mvars
FinishIt(t) == Finish(t) /\ done' = done \cup {t} /\ UNCHANGED <<conf, imuSeen, acc, nodes, imu, odo, ff, lm>>
\* A finished trajectory with data that still waits for another trajectory.
Backlog == (\E k \in live : k[1] \in done /\ q[k] # <<>>) = TRUE

\* Submaps of a trajectory: each takes 2 * nrd scans, a new one starts every nrd.
Submaps(t) == IF nodes[t] = <<>> THEN 0 ELSE (Len(nodes[t]) - 1) \div Conf(t).nrd + 1
Scans(t, n) == LET k == Len(nodes[t]) - n * Conf(t).nrd IN IF k > 2 * Conf(t).nrd THEN 2 * Conf(t).nrd ELSE k
\* A localization-only trajectory keeps its last submaps, and nothing once it is finished.
Kept(t) == IF Conf(t).trim = 0 THEN 0..(Submaps(t) - 1)
           ELSE IF t \in done THEN {}
           ELSE {n \in 0..(Submaps(t) - 1) : n >= Submaps(t) - Conf(t).trim}
KeptNodes(t) == {i \in 1..Len(nodes[t]) : ((i - 1) \div Conf(t).nrd) \in Kept(t) \/ ((i - 1) \div Conf(t).nrd) - 1 \in Kept(t)}
=============================================================================
