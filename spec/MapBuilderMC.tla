---------------------------- MODULE MapBuilderMC ----------------------------
(* All short histories of two trajectories, for model checking and for       *)
(* replay into the real map builder.                                         *)
EXTENDS MapBuilder, Json
CONSTANTS Depth, Joint, Dim, Gen
VARIABLES hist, now, given, busy
vars == <<cvars, mvars, hist, now, given, busy>>
NoInit == [to |-> -1, t |-> 0, x |-> 0]
\* the trajectories that can be added, in this order
Kinds == <<[sensors |-> IF Dim = 3 THEN <<"r0", "i0">> ELSE <<"r0", "o0">>, local |-> TRUE, cl |-> FALSE, cf |-> TRUE, mf |-> 1, omf |-> 1, imu |-> Dim = 3,
            nrd |-> 1, num |-> 1, trim |-> 0, init |-> NoInit],
           [sensors |-> IF Dim = 3 THEN <<"o0", "l0">> ELSE <<"r0", "l0">>, local |-> Dim # 3, cl |-> FALSE, cf |-> TRUE, mf |-> 0, omf |-> -1, imu |-> FALSE,
            nrd |-> 2, num |-> 2, trim |-> 0, init |-> NoInit]>>
Init == MInit /\ joint = Joint /\ hist = <<>> /\ now = 1 /\ given = <<>> /\ busy = FALSE
Op(op) == ~busy /\ Len(hist) < Depth /\ hist' = Append(hist, op) /\ busy' = TRUE
AddT == /\ Len(conf) < Len(Kinds) /\ Op([op |-> "Traj", t |-> Kinds[Len(conf) + 1]])
        /\ NewTrajectory(Kinds[Len(conf) + 1]) /\ UNCHANGED <<now, given>>
AddD == \E t \in Ids \ done, d \in {1, 2} : \E s \in {Conf(t).sensors[i] : i \in DOMAIN Conf(t).sensors} :
          /\ Op([op |-> "Data", tr |-> t, s |-> s, t |-> now + d])
          /\ Give(t, s, now + d, Dim) /\ now' = now + d /\ given' = Append(given, <<t, s, now + d>>)
\* (without the known finding: see MapBuilderTrace)
Fin == \E t \in Ids \ done : Op([op |-> "Finish", tr |-> t]) /\ FinishIt(t) /\ UNCHANGED <<now, given>>
Step == /\ busy /\ UNCHANGED <<hist, now, given>>
        /\ \/ (\E k \in live : q[k] # <<>> /\ Arrive(k, Dim)) /\ busy' = TRUE
           \/ (\E k \in live : Forget(k)) /\ busy' = TRUE
           \/ /\ AllQuiet /\ Retire /\ UNCHANGED mvars /\ busy' = FALSE
              /\ (Gen /\ Len(hist) = Depth => PrintT(<<"GEN", ToJson(hist)>>))
Next == AddT \/ AddD \/ Fin \/ Step
Spec == Init /\ [][Next]_vars
Increasing(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
\* A trajectory is built only from data that was given to it, in time order, once.
Sent(t, s) == {given[i][3] : i \in {j \in DOMAIN given : given[j][1] = t /\ given[j][2] = s}}
Rng(s) == {s[i] : i \in DOMAIN s}
OwnData == \A t \in Ids : /\ Rng(nodes[t]) \subseteq Sent(t, "r0") /\ Increasing(nodes[t])
                          /\ Rng(imu[t]) \subseteq Sent(t, "i0") /\ Increasing(imu[t])
                          /\ Rng(odo[t]) \subseteq Sent(t, "o0") /\ Increasing(odo[t])
                          /\ {lm[i][2] : i \in {j \in DOMAIN lm : lm[j][1] = t}} \subseteq Sent(t, "l0")
LandmarksAtOnce == ~busy => \A t \in Ids : Sent(t, "l0") = {lm[i][2] : i \in {j \in DOMAIN lm : lm[j][1] = t}}
NoImuNoNodes == \A t \in Ids : NeedsImu(t, Dim) /\ t \notin imuSeen => nodes[t] = <<>>
Apart == ~joint => ~(~busy /\ Backlog)
=============================================================================
