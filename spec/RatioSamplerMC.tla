--------------------------- MODULE RatioSamplerMC ---------------------------
(* The rule can always be followed, and fixes the extremes.                  *)
EXTENDS RatioSampler
CONSTANTS Q, N
Init == q \in 1..Q /\ p \in 0..Q /\ p <= q /\ n = 0 /\ s = 0
Next == n < N /\ \E yes \in BOOLEAN : Pulse(yes)
Spec == Init /\ [][Next]_<<p, q, n, s>>
All == p = q => s = n
None == p = 0 => s = 0
Possible == n < N => ENABLED Next
=============================================================================
