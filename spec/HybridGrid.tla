----------------------------- MODULE HybridGrid -----------------------------
(* A 3D grid as a function from voxel indices to values 1..32767 (probability *)
(* 0.1 + 0.8 (v - 1) / 32766), the average intensity grid, and the insertion  *)
(* of one range data. Positions are in 1/16 voxel, never on a voxel border.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES g, ig
O == INSTANCE Odds
Upd(v, o) == 1 + (IF v = 0 THEN O!First(o) ELSE O!Apply(v - 1, o))
Vox(p) == <<(p[1] + 8) \div 16, (p[2] + 8) \div 16, (p[3] + 8) \div 16>>
Abs(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Trunc(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b  \* C++ division
\* The free-space voxels of a ray: equidistant samples, one per step of the
\* fastest axis, the last n before the hit.
Free(org, p, n) ==
  LET a == Vox(org)  h == Vox(p)
      d == <<h[1] - a[1], h[2] - a[2], h[3] - a[3]>>
      k == Mx(Abs(d[1]), Mx(Abs(d[2]), Abs(d[3])))
  IN {<<a[1] + Trunc(d[1] * i, k), a[2] + Trunc(d[2] * i, k), a[3] + Trunc(d[3] * i, k)>> : i \in Mx(0, k - n)..(k - 1)}
Hits(ret) == {Vox(ret[i]) : i \in DOMAIN ret}
Misses(org, ret, n) == UNION {Free(org, ret[i], n) : i \in DOMAIN ret} \ Hits(ret)
Val(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
Near(v, w) == v - w \in -1..1
Inserted(w, H, M, hit, miss) ==
  /\ DOMAIN w = DOMAIN g \cup H \cup M
  /\ \A c \in DOMAIN w : IF c \in H THEN Near(w[c], Upd(Val(g, c), hit))
                         ELSE IF c \in M THEN Near(w[c], Upd(Val(g, c), miss))
                         ELSE w[c] = g[c]
\* Intensities: per voxel <<sum, count>> of those not above the threshold.
Ival(c) == IF c \in DOMAIN ig THEN ig[c] ELSE <<0, 0>>
RECURSIVE SumOver(_, _)
SumOver(S, int) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN int[i] + SumOver(S \ {i}, int)
Taken(ret, int, thr) == IF int = <<>> THEN {} ELSE {i \in DOMAIN ret : int[i] <= thr}
AddInt(ret, int, thr) ==
  LET T == Taken(ret, int, thr)
      C == {Vox(ret[i]) : i \in T}
  IN [c \in DOMAIN ig \cup C |->
        LET S == {i \in T : Vox(ret[i]) = c} IN <<Ival(c)[1] + SumOver(S, int), Ival(c)[2] + Cardinality(S)>>]
=============================================================================
