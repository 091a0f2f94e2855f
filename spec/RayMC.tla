------------------------------- MODULE RayMC -------------------------------
(* Sanity of the ray definition: symmetric, contains both ends, connected.   *)
EXTENDS Ray
CONSTANTS N, S
VARIABLES b, e
Pts == (0..(N * S - 1)) \X (0..(N * S - 1))
Init == b \in Pts /\ e = <<0, 0>>
Next == UNCHANGED <<b, e>>
Cell(p) == <<p[1] \div S, p[2] \div S>>
Adj(c, d) == c # d /\ c[1] - d[1] \in -1..1 /\ c[2] - d[2] \in -1..1
RECURSIVE Grow(_, _)
Grow(R, C) == LET n == {c \in C : \E d \in R : Adj(c, d)} IN IF n \subseteq R THEN R ELSE Grow(R \cup n, C)
Good == \A x \in Pts : LET C == RayCells(b, x, S) IN
          /\ C = RayCells(x, b, S) /\ Cell(b) \in C /\ Cell(x) \in C
          /\ Grow({Cell(b)}, C) = C
          \* no detours: at most one cell more per unit step in each direction
          /\ Cardinality(C) <= 1 + (Mx(Cell(b)[1], Cell(x)[1]) - Mn(Cell(b)[1], Cell(x)[1])) + (Mx(Cell(b)[2], Cell(x)[2]) - Mn(Cell(b)[2], Cell(x)[2]))
Spec == Init /\ [][Next]_<<b, e>>
=============================================================================
