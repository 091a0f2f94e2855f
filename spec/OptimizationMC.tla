--------------------------- MODULE OptimizationMC ---------------------------
(* All small problems: histories of nodes, samples and trimming.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS MaxTime, MaxSamples
VARIABLES opt, nodes, subs, odo, ffx, imu
T == {0}
O == INSTANCE Optimization WITH Traj <- T
vars == <<opt, nodes, subs, odo, ffx, imu>>
Weights == [lt |-> 2, lr |-> 1, ot |-> 3, or |-> 1, ft |-> 1, fr |-> 1, acc |-> 2, rot |-> 1, huber |-> 1]
Init == O!OInit /\ \E d \in {2, 3}, z \in BOOLEAN : opt = [dim |-> d, fixz |-> z, w |-> Weights]
Idx(t) == O!Index(DOMAIN nodes, t)
NextIdx(t) == IF Idx(t) = {} THEN 0 ELSE O!SMax(Idx(t)) + 1
Node(t, time, skip) == NextIdx(t) + skip < 4 /\ O!AddNode(t, NextIdx(t) + skip, time, time * time)
Samples == Cardinality(odo[0]) + Cardinality(ffx[0])
Next == \E t \in T, time \in 0..MaxTime :
          \/ \E skip \in {0, 1} : Node(t, time, skip)
          \/ Samples < MaxSamples /\ O!AddOdometry(t, time, time * 3)
          \/ Samples < MaxSamples /\ \E has \in BOOLEAN : O!AddFixed(t, time, has, 1 - time)
          \/ \E i \in Idx(t) : O!TrimNode(t, i)
          \/ subs = {} /\ O!AddSubmap(t, 0)
Spec == Init /\ [][Next]_vars
\* ---- properties
\* A node that goes takes nothing with it that a remaining measurement needs.
IsTrim == DOMAIN nodes' \subseteq DOMAIN nodes /\ nodes' # nodes
TrimKeeps == [][IsTrim =>
   /\ \A n \in O!OdoSteps({}) : n \in DOMAIN nodes' /\ O!Succ(n) \in DOMAIN nodes' =>
        /\ (n \in O!OdoSteps({}))'
        /\ (O!At(odo[n[1]], nodes[O!Succ(n)].time) - O!At(odo[n[1]], nodes[n].time))'
             = O!At(odo[n[1]], nodes[O!Succ(n)].time) - O!At(odo[n[1]], nodes[n].time)
   /\ \A n \in O!FixedNodes : n \in DOMAIN nodes' => (n \in O!FixedNodes)' /\ (O!At(ffx[n[1]], nodes[n].time))' = O!At(ffx[n[1]], nodes[n].time)]_vars
\* ... and what it leaves behind adds no measurement.
TrimAddsNothing == [][IsTrim => (O!OdoSteps({}))' \subseteq O!OdoSteps({}) /\ (O!FixedNodes)' \subseteq O!FixedNodes]_vars
Lm == <<[i |-> 0, frozen |-> FALSE, obs |-> <<[t |-> 0, time |-> 1, z |-> 1, w |-> 1, wr |-> 1], [t |-> 0, time |-> 2, z |-> 4, w |-> 1, wr |-> 1]>>]>>
Cs == IF subs = {} \/ DOMAIN nodes = {} THEN <<>>
      ELSE <<[s |-> <<0, 0>>, n |-> CHOOSE n \in DOMAIN nodes : TRUE, inter |-> FALSE, w |-> 1, wr |-> 1, z |-> 3]>>
HasImu == imu[0] # {}
R == O!Residuals(Cs, {}, Lm)
RF == O!Residuals(Cs, {0}, Lm)
Usable == O!Chain \/ HasImu \/ O!Triples({}) = {}
\* Measurements are relative: shifting everything changes none of them.
Relative == Usable => \A r \in R : MapThenSumSet(LAMBDA p : p[2], {<<p[1], p[2]>> : p \in r.els}) = 0
            \/ Cardinality({p[2] : p \in r.els}) < Cardinality(r.els)
\* Every measurement speaks about existing elements.
Grounded == Usable => \A r \in R : O!Touches(r) \subseteq O!Elements(Cs, {}, Lm)
\* Freezing only takes measurements away, and moves nothing into the problem.
FrozenLess == Usable => {r.id : r \in RF} \subseteq {r.id : r \in R}
FrozenStill == \A e \in O!Elements(Cs, {0}, Lm) : e[1] \in {"s", "n"} => O!Constant(e, {0}, Lm)
=============================================================================
