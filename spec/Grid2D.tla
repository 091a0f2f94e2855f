------------------------------- MODULE Grid2D -------------------------------
(* A 2D occupancy grid as a map from world cells to probability values, and   *)
(* the insertion of one range data. A value is 0 (unknown) or 1..32767, the   *)
(* stored cost of the cell: probability = 0.9 - 0.8 * (value - 1) / 32766.    *)
EXTENDS Ray
VARIABLES g
Known == DOMAIN g
O == INSTANCE Odds
\* Probability v after an observation with odds a : b.
Upd(v, o) == 32767 - (IF v = 0 THEN O!First(o) ELSE O!Apply(32767 - v, o))
Near(v, w) == v - w \in -1..1
Sub(d) == (125 * d) \div 2 \* positions are odd multiples of 1/16 of a cell, rays in 1/1000
Pt(p) == <<Sub(p[1]), Sub(p[2])>>
Cell(p) == <<Pt(p)[1] \div 1000, Pt(p)[2] \div 1000>>
Hits(ret) == {Cell(ret[i]) : i \in DOMAIN ret}
Misses(org, ret, mis, free) ==
  IF ~free THEN {}
  ELSE UNION {RayCells(Pt(org), Pt(ret[i]), 1000) : i \in DOMAIN ret}
         \cup UNION {RayCells(Pt(org), Pt(mis[i]), 1000) : i \in DOMAIN mis}
Val(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
\* What grid w may be after the insertion into g (w is a function on its known cells).
Inserted(w, H, M, hit, miss) ==
  /\ DOMAIN w = DOMAIN g \cup H \cup M
  /\ \A c \in DOMAIN w : IF c \in H THEN Near(w[c], Upd(Val(g, c), hit))
                         ELSE IF c \in M THEN Near(w[c], Upd(Val(g, c), miss))
                         ELSE w[c] = g[c]
=============================================================================
