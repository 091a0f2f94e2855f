------------------------------ MODULE IdMapMC ------------------------------
EXTENDS IdMap, Json
CONSTANTS Depth, Gen
VARIABLES hist, used
Init == IdInit /\ hist = <<>> /\ used = {}
T == 0..1
I == 0..2
H(op) == Len(hist) < Depth /\ hist' = Append(hist, op) /\ (Gen /\ Len(hist) = Depth - 1 => PrintT(<<"GEN", ToJson(hist')>>))
V(i) == [n |-> Len(hist) + 1, time |-> i]
App(t) == LET i == NextIdx(t) IN
          /\ i <= 3
          /\ H([o |-> "append", t |-> t, i |-> i, n |-> V(i).n, time |-> i])
          /\ IF CanAppend(t) THEN Append1(t, i, V(i)) /\ used' = used \cup {<<t, i>>} ELSE UNCHANGED <<idvars, used>>
Next == \/ \E t \in T : App(t)
        \/ \E t \in T, i \in I : H([o |-> "insert", t |-> t, i |-> i, n |-> V(i).n, time |-> i]) /\ Insert(t, i, V(i)) /\ used' = used \cup {<<t, i>>}
        \/ \E t \in T, i \in I : H([o |-> "trim", t |-> t, i |-> i, n |-> 0, time |-> 0]) /\ Trim(t, i)
             /\ used' = IF Of(t) = {<<t, i>>} THEN {u \in used : u[1] # t} ELSE used
Spec == Init /\ [][Next]_<<idvars, hist, used>>
\* While a trajectory lives, an id is never handed out twice by appending.
NoReuse == \A t \in T : (Of(t) # {} /\ CanAppend(t)) => <<t, NextIdx(t)>> \notin used
=============================================================================
