----------------------------- MODULE CollatorMC -----------------------------
(* Model checking of Collator, and generation of all histories of calls up   *)
(* to a bound (printed for replay into the real collators).                  *)
EXTENDS Collator, TLC, Json
CONSTANTS Depth, Dts, Joint, Gen
VARIABLES hist, now, given, out, dropped, busy
mvars == <<cvars, hist, now, given, out, dropped, busy>>
Init == /\ CInit /\ joint = Joint /\ hist = <<>> /\ now = [k \in Keys |-> 1] /\ given = <<>> /\ out = <<>>
        /\ dropped = {} /\ busy = FALSE
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Op(op) == ~busy /\ Len(hist) < Depth /\ hist' = Append(hist, op) /\ busy' = TRUE
Joined(t) == \E k \in live : k[1] = t
Ever(t) == \E i \in DOMAIN hist : hist[i].o = "traj" /\ hist[i].t = t
Closed == \E i \in DOMAIN hist : hist[i].o = "flush"
Done(t) == \E i \in DOMAIN hist : hist[i].o = "finish" /\ hist[i].t = t
AddT == \E t \in Trajectories : ~Ever(t) /\ ~Closed /\ Op([o |-> "traj", t |-> t, ss |-> Sensors])
          /\ AddTrajectory(t, Sensors)
          \* a trajectory that joins later has no data from before
          /\ now' = [k \in Keys |-> IF k[1] = t THEN IF Joint THEN last[Group(t)] + 1 ELSE 1 ELSE now[k]]
          /\ UNCHANGED <<given, out, dropped>>
AddD == \E k \in Keys, d \in Dts : k \in live /\ k \notin fin /\ ~Closed /\ ~Done(k[1])
          /\ LET time == now[k] + d IN
             /\ Op([o |-> "data", t |-> k[1], s |-> k[2], time |-> time, n |-> Len(given) + 1])
             /\ now' = [now EXCEPT ![k] = time] /\ Add(k, Len(given) + 1, time)
             /\ given' = Append(given, [k |-> k, time |-> time])
          /\ UNCHANGED <<out, dropped>>
Fin == \E t \in Trajectories : Ever(t) /\ ~Done(t) /\ ~Closed /\ Op([o |-> "finish", t |-> t]) /\ Finish(t) /\ UNCHANGED <<now, given, out, dropped>>
Flu == ~Closed /\ hist # <<>> /\ Op([o |-> "flush"]) /\ Flush /\ UNCHANGED <<now, given, out, dropped>>
Step == /\ busy
        /\ \/ \E k \in live : Deliver(k) /\ out' = Append(out, q[k][1].n) /\ busy' = TRUE /\ dropped' = dropped
           \/ \E k \in live : Drop(k) /\ out' = out /\ busy' = TRUE /\ dropped' = dropped \cup {q[k][1].n}
           \/ AllQuiet /\ Retire /\ out' = out /\ busy' = FALSE /\ dropped' = dropped
              /\ (Gen /\ Len(hist) = Depth => PrintT(<<"GEN", ToJson(hist)>>))
        /\ UNCHANGED <<hist, now, given>>
Next == AddT \/ AddD \/ Fin \/ Flu \/ Step
Spec == Init /\ [][Next]_mvars
T(n) == given[n].time
\* Everything delivered is in time order (within a group).
Sorted == \A i, j \in DOMAIN out : (i < j /\ Group(given[out[i]].k[1]) = Group(given[out[j]].k[1])) => T(out[i]) <= T(out[j])
Once == \A i, j \in DOMAIN out : i # j => out[i] # out[j]
PerSensor == \A i, j \in DOMAIN out : (i < j /\ given[out[i]].k = given[out[j]].k) => out[i] < out[j]
OnlyEarlyDropped == \A n \in dropped : start[given[n].k[1]] # NoTime /\ T(n) < start[given[n].k[1]]
NoneMissing == \A n \in DOMAIN given : \/ n \in dropped \/ \E i \in DOMAIN out : out[i] = n
                                       \/ \E i \in DOMAIN q[given[n].k] : q[given[n].k][i].n = n
FlushedIsEmpty == (Closed /\ ~busy) => \A k \in Keys : q[k] = <<>>
FinishedAloneIsEmpty == ~joint /\ ~busy => \A t \in Trajectories : Done(t) => \A s \in Sensors : q[<<t, s>>] = <<>>
=============================================================================
