-------------------------------- MODULE Ray --------------------------------
(* The cells a ray passes through (RayToPixelMask), in exact arithmetic.     *)
(* A ray runs between the centers of two subpixels; a cell has s x s         *)
(* subpixels. In units of half a subpixel the subpixel (x, y) has its center *)
(* at (2x+1, 2y+1) and a cell is the open square of side 2s.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
\* Cross product of (Q - P) and (C - P).
Cross(P, Q, C) == (Q[1] - P[1]) * (C[2] - P[2]) - (Q[2] - P[2]) * (C[1] - P[1])
Meets(P, Q, c, w) ==
  LET x0 == c[1] * w  x1 == x0 + w  y0 == c[2] * w  y1 == y0 + w IN
  /\ Mx(P[1], Q[1]) > x0 /\ Mn(P[1], Q[1]) < x1
  /\ Mx(P[2], Q[2]) > y0 /\ Mn(P[2], Q[2]) < y1
  /\ P = Q \/ LET k == <<Cross(P, Q, <<x0, y0>>), Cross(P, Q, <<x0, y1>>), Cross(P, Q, <<x1, y0>>), Cross(P, Q, <<x1, y1>>)>>
              IN (\E i \in 1..4 : k[i] > 0) /\ (\E i \in 1..4 : k[i] < 0)
RayCells(b, e, s) ==
  LET P == <<2 * b[1] + 1, 2 * b[2] + 1>>
      Q == <<2 * e[1] + 1, 2 * e[2] + 1>>
  IN {c \in ((Mn(b[1], e[1]) \div s)..(Mx(b[1], e[1]) \div s)) \X ((Mn(b[2], e[2]) \div s)..(Mx(b[2], e[2]) \div s)) :
        Meets(P, Q, c, 2 * s)}
=============================================================================
