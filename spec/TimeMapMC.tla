----------------------------- MODULE TimeMapMC -----------------------------
(* All data/node placements in a small window, and all trimming orders: what *)
(* a remaining node interpolates with is never removed, and data without     *)
(* remaining use is.                                                         *)
EXTENDS TimeMap, Json
CONSTANTS W, NData, NNodes
VARIABLES orig, hist, onodes
Init == /\ \E D \in SUBSET (1..W), N \in SUBSET (1..W) :
              /\ Cardinality(D) <= NData /\ Cardinality(N) <= NNodes
              /\ hd = [t \in {0} |-> {[time |-> x, n |-> x] : x \in D}] /\ nodes = [t \in {0} |-> N]
              /\ orig = D /\ onodes = N
        /\ hist = <<>>
Next == /\ \E x \in nodes[0] : Trim(0, x) /\ hist' = Append(hist, x)
        /\ UNCHANGED <<orig, onodes>>
        /\ (nodes'[0] = {} => PrintT(<<"GEN", ToJson([data |-> orig, nodes |-> onodes, trims |-> hist'])>>))
Spec == Init /\ [][Next]_<<tmvars, orig, hist, onodes>>
\* The data just before/at and at/after a remaining node stays.
Bracket == \A x \in nodes[0] :
             /\ {d \in orig : d <= x} # {} => SMax({d \in orig : d <= x}) \in Times(0)
             /\ {d \in orig : d >= x} # {} => SMin({d \in orig : d >= x}) \in Times(0)
NothingLeft == (nodes[0] = {} /\ onodes # {}) => hd[0] = {}
Subset == Times(0) \subseteq orig
=============================================================================
