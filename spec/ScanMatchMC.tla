----------------------------- MODULE ScanMatchMC -----------------------------
\* Branch and bound over precomputed grids, in one dimension, for all small
\* grids: the bounds never underestimate, and the search finds the optimum
\* among the candidates another test admits.
EXTENDS ScanMatch, TLC
CONSTANTS N, V, Depth, W
VARIABLES grid, pts, full, w, min, deny
vars == <<grid, pts, full, w, min, deny>>
Cells == 0..(N - 1)
G(c) == IF c \in Cells THEN grid[c] ELSE 0
\* ---- "2D": level d holds the maximum of the 2^d cells starting at each
Pow(d) == 2 ^ d
Level2(d, c) == SetMax({G(x) : x \in c..(c + Pow(d) - 1)})
\* ---- "3D": each level from the last, at half resolution from `full` on
Shift(d) == LET per == Pow(Max(0, d - full)) IN (Pow(d) - Pow(d - 1) + per - 1) \div per
RECURSIVE Level3(_, _)
Level3(d, c) ==
  IF d = 0 THEN G(c)
  ELSE IF d >= full THEN SetMax({Level3(d - 1, x + s * Shift(d)) : x \in {2 * c, 2 * c + 1}, s \in {0, 1}})
  ELSE Max(Level3(d - 1, c), Level3(d - 1, c + Shift(d)))
Red(d) == Max(0, d - full + 1)
Index3(d, p, o) == LET r == Red(d) IN
  IF r = 0 THEN p + o ELSE ((p - w) \div Pow(r)) - ((-w) \div Pow(r)) + (o \div Pow(r))
Score(k, d, o) == LET v(i) == IF k = 2 THEN Level2(d, pts[i] + o) ELSE Level3(d, Index3(d, pts[i], o))
                  IN v(1) + v(2)
Exact(o) == G(pts[1] + o) + G(pts[2] + o)
Window == (-w)..w
Starts == {o \in Window : (o + w) % Pow(Depth) = 0}
\* ---- search: best admitted score in the block of a candidate, above m, or m
RECURSIVE Search(_, _, _, _)
RECURSIVE Through(_, _, _, _)
\* over candidates Os, best first
Through(k, d, Os, m) ==
  IF Os = {} THEN m
  ELSE LET o == CHOOSE x \in Os : \A y \in Os : Score(k, d, y) <= Score(k, d, x)
       IN IF Score(k, d, o) <= m THEN m
          ELSE Through(k, d, Os \ {o}, Search(k, d, o, m))
Search(k, d, o, m) ==
  IF d = 0 THEN IF o \in deny THEN m ELSE Max(m, Exact(o))
  ELSE Through(k, d - 1, {x \in {o, o + Pow(d - 1)} : x <= w}, m)
Init == grid \in [Cells -> V] /\ pts = <<>> /\ full = 1 /\ w = 1 /\ min = 0 /\ deny = {}
Next == /\ pts = <<>> /\ UNCHANGED grid
        /\ pts' \in {<<a, b>> \in (-1..N) \X (-1..N) : a <= b}
        /\ full' \in 1..(Depth + 1) /\ w' \in W /\ min' \in {0, 1} /\ deny' \in {{}, {0}, {-w', 1}}
Spec == Init /\ [][Next]_vars
Best == LET S == {Exact(o) : o \in Window \ deny} \cup {min} IN SetMax(S)
Found(k) == Through(k, Depth, Starts, min) = Best
Bounds == pts # <<>> => \A d \in 0..Depth : \A o \in {x \in Window : (x + w) % Pow(d) = 0} :
            \A x \in {y \in o..(o + Pow(d) - 1) : y <= w} : Exact(x) <= Score(2, d, o) /\ Exact(x) <= Score(3, d, o)
Optimal == pts # <<>> => Found(2) /\ Found(3)
=============================================================================
