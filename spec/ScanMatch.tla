------------------------------ MODULE ScanMatch ------------------------------
\* Correlative scan matching. A grid g maps cells to values (others are worth
\* `u`); a scan is a sequence of cells; a candidate is a scan (one per heading
\* considered) and an offset of all its cells.
EXTENDS Integers, Sequences, FiniteSets
Max(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
At(g, u, p) == IF p \in DOMAIN g THEN g[p] ELSE u
Add(p, o) == <<p[1] + o[1], p[2] + o[2], p[3] + o[3]>>
Sub(p, o) == <<p[1] - o[1], p[2] - o[2], p[3] - o[3]>>
RECURSIVE SumFrom(_, _, _, _, _)
SumFrom(g, u, scan, o, i) == IF i > Len(scan) THEN 0 ELSE At(g, u, Add(scan[i], o)) + SumFrom(g, u, scan, o, i + 1)
Sum(g, u, scan, o) == SumFrom(g, u, scan, o, 1)
InWindow(w, o) == \A i \in 1..3 : o[i] >= -w[i] /\ o[i] <= w[i]
\* Offsets that bring some cell of the scan onto a cell of the grid; all others
\* score nothing.
Hitting(g, scan, w) == {o \in {Sub(p, scan[i]) : p \in DOMAIN g, i \in DOMAIN scan} : InWindow(w, o)}
\* ---- the coarse grid's opinion about a candidate -----------------------------
\* Points of the coarse cloud are in thousandths of a (fine) cell, coarse cells
\* are k fine cells wide, and cells are centred on multiples of their width.
CoarseCell(k, p, o) == LET f(i) == (p[i] + 1000 * o[i] + 500 * k) \div (1000 * k) IN <<f(1), f(2), f(3)>>
RECURSIVE CoarseSum(_, _, _, _, _, _)
CoarseSum(g, u, k, pts, o, i) == IF i > Len(pts) THEN 0 ELSE At(g, u, CoarseCell(k, pts[i], o)) + CoarseSum(g, u, k, pts, o, i + 1)
=============================================================================
