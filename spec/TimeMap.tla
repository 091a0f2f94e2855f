------------------------------ MODULE TimeMap ------------------------------
(* Sensor history per trajectory (sensor::MapByTime) and its trimming        *)
(* together with trajectory nodes.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES hd,     \* trajectory -> set of [time, n]
          nodes   \* trajectory -> set of node times
tmvars == <<hd, nodes>>
TMInit(T) == hd = [t \in T |-> {}] /\ nodes = [t \in T |-> {}]
Times(t) == {e.time : e \in hd[t]}
CanAppend(t, time) == \A x \in Times(t) : x < time
AppendData(t, time, n) == CanAppend(t, time) /\ hd' = [hd EXCEPT ![t] = TLCEval(@ \cup {[time |-> time, n |-> n]})] /\ UNCHANGED nodes
AddNode(t, time) == nodes' = [nodes EXCEPT ![t] = TLCEval(@ \cup {time})] /\ UNCHANGED hd
SMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
\* Trimming node `time`: data between its neighbours is no longer needed,
\* except the first and last of that gap, which the neighbours interpolate with.
Trim(t, time) ==
  LET before == {x \in nodes[t] : x < time}
      after == {x \in nodes[t] : x > time}
      gap == {x \in Times(t) : (before = {} \/ x >= SMax(before)) /\ (after = {} \/ x <= SMin(after))}
      keep == (IF before # {} /\ gap # {} THEN {SMin(gap)} ELSE {}) \cup (IF after # {} /\ gap # {} THEN {SMax(gap)} ELSE {})
  IN /\ time \in nodes[t]
     /\ nodes' = [nodes EXCEPT ![t] = TLCEval(@ \ {time})]
     /\ hd' = [hd EXCEPT ![t] = TLCEval({e \in @ : e.time \notin gap \/ e.time \in keep})]
RECURSIVE ByTime(_)
ByTime(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x.time <= y.time IN <<m>> \o ByTime(S \ {m})
=============================================================================
