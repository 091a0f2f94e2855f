---------------------------- MODULE HybridGridMC ----------------------------
(* The free-space voxels of every ray in a box: never the hit itself, never   *)
(* more than asked for, connected, towards the hit.                           *)
EXTENDS HybridGrid
CONSTANTS R
VARIABLES a, n
Init == g = <<>> /\ ig = <<>> /\ a \in (-R..R) \X (-R..R) \X (-R..R) /\ n \in 0..3
Next == UNCHANGED <<g, ig, a, n>>
Spec == Init /\ [][Next]_<<g, ig, a, n>>
P(v) == <<16 * v[1], 16 * v[2], 16 * v[3]>>
Dist(u, v) == Mx(Abs(u[1] - v[1]), Mx(Abs(u[2] - v[2]), Abs(u[3] - v[3])))
Rays == \A h \in (-R..R) \X (-R..R) \X (-R..R) :
  LET F == Free(P(a), P(h), n)  k == Dist(a, h) IN
  /\ h \notin F
  /\ Cardinality(F) = (IF n < k THEN n ELSE k)
  /\ \A i \in 1..Cardinality(F) : \E v \in F : Dist(v, a) = k - i
  /\ n >= k /\ k > 0 => a \in F
=============================================================================
