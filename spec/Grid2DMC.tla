------------------------------ MODULE Grid2DMC ------------------------------
(* The update rule on its own: values stay in range, an observation moves a   *)
(* value towards it, never past the bound, and opposite ones nearly cancel.   *)
EXTENDS Grid2D
CONSTANTS Step
VARIABLES v, o
HitOdds == {<<11, 9>>, <<3, 2>>, <<7, 3>>, <<9, 1>>}
MissOdds == {<<12, 13>>, <<2, 3>>, <<1, 3>>}
Init == g = <<>> /\ v \in {0, 1, 32767} \cup {k * Step + 1 : k \in 0..(32766 \div Step)} /\ o \in HitOdds \cup MissOdds
Next == UNCHANGED <<g, v, o>>
Spec == Init /\ [][Next]_<<g, v, o>>
InRange == Upd(v, o) \in 1..32767
Moves == v > 0 => IF o \in HitOdds THEN (Upd(v, o) < v \/ v = 1) ELSE (Upd(v, o) > v \/ v = 32767)
Mirror == v > 0 => LET w == Upd(v, o) IN w \in 2..32766 => Upd(w, <<o[2], o[1]>>) - v \in -3..3
First == v = 0 => Near(Upd(v, o), Upd(16384, o)) \* as if it had been at probability 1/2
=============================================================================
