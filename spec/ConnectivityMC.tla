--------------------------- MODULE ConnectivityMC ---------------------------
EXTENDS Connectivity, Json
CONSTANTS Depth, Gen
VARIABLE hist
Init == KInit /\ hist = <<>>
Ops == {[o |-> "add", a |-> t, b |-> t, time |-> 0] : t \in T}
       \cup {[o |-> "con", a |-> a, b |-> b, time |-> x] : a \in T, b \in T, x \in {1, 2, 3}}
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : /\ hist' = Append(hist, op)
                           /\ IF op.o = "add" THEN Add(op.a) ELSE Connect(op.a, op.b, op.time)
                           /\ (Gen /\ Len(hist) = Depth - 1 => PrintT(<<"GEN", ToJson(hist')>>))
Spec == Init /\ [][Next]_<<kvars, hist>>
\* The components are the transitive closure of the direct connections.
Edge(a, b) == a = b \/ count[<<a, b>>] > 0
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach({b \in T : \E a \in S : Edge(a, b)}, n - 1)
Closure == \A a \in T : comp[a] = Reach({a}, Cardinality(T))
Partition == \A a, b \in T : comp[a] = comp[b] \/ comp[a] \cap comp[b] = {}
Symmetric == \A a, b \in T : count[<<a, b>>] = count[<<b, a>>] /\ lastTime[<<a, b>>] = lastTime[<<b, a>>]
TimedIffConnected == \A a, b \in T : a # b => (lastTime[<<a, b>>] > 0 <=> b \in comp[a])
UntrackedAlone == \A t \in T : t \notin tracked => comp[t] = {t}
=============================================================================
