---------------------------- MODULE Connectivity ----------------------------
(* Connectivity of trajectories (ConnectedComponents,                        *)
(* TrajectoryConnectivityState).                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT T
VARIABLES tracked, comp, count, lastTime
kvars == <<tracked, comp, count, lastTime>>
KInit == /\ tracked = {} /\ comp = [t \in T |-> {t}]
         /\ count = [p \in T \X T |-> 0] /\ lastTime = [p \in T \X T |-> 0]
Add(t) == tracked' = TLCEval(tracked \cup {t}) /\ UNCHANGED <<comp, count, lastTime>>
Max(a, b) == IF a > b THEN a ELSE b
\* Connecting joins the components of a and b. If that is new, all pairs
\* across the two count as connected at this time.
Connect(a, b, time) ==
  /\ tracked' = TLCEval(tracked \cup {a, b})
  /\ comp' = [t \in T |-> IF t \in comp[a] \cup comp[b] THEN TLCEval(comp[a] \cup comp[b]) ELSE comp[t]]
  /\ count' = [p \in T \X T |-> IF p \in {<<a, b>>, <<b, a>>} THEN count[p] + 1 ELSE count[p]]
  /\ lastTime' = [p \in T \X T |->
       IF b \in comp[a] THEN IF p \in {<<a, b>>, <<b, a>>} THEN Max(lastTime[p], time) ELSE lastTime[p]
       ELSE IF p \in (comp[a] \X comp[b]) \cup (comp[b] \X comp[a]) THEN time ELSE lastTime[p]]
Connected(a, b) == b \in comp[a]
Components == {comp[t] : t \in tracked}
=============================================================================
