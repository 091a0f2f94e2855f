----------------------------- MODULE VoxelFilter -----------------------------
(* Voxel filters, on points with integer coordinates (millimetres).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* Voxel index of coordinate x for edge length num/den (nearest; the inputs
\* used stay away from the borders between voxels).
Idx(x, num, den) == (2 * x * den + num) \div (2 * num)
Voxel(p, num, den) == <<Idx(p[1], num, den), Idx(p[2], num, den), Idx(p[3], num, den)>>
Voxels(S, pts, num, den) == {Voxel(pts[i], num, den) : i \in S}
\* `out` lists the indices kept: increasing, one for every occupied voxel.
Increasing(out) == \A k \in 1..(Len(out) - 1) : out[k] < out[k + 1]
Rng(s) == {s[k] : k \in DOMAIN s}
Filtered(S, pts, out, num, den) ==
  /\ Increasing(out) /\ Rng(out) \subseteq S
  /\ Voxels(Rng(out), pts, num, den) = Voxels(S, pts, num, den)
  /\ Len(out) = Cardinality(Voxels(S, pts, num, den))
Norm2(p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
Near(pts, r) == {i \in DOMAIN pts : Norm2(pts[i]) <= r * r}
Adaptive(pts, out, len, minn, range) ==
  LET S == TLCEval(Near(pts, range))
      NV(k) == Cardinality(Voxels(S, pts, len, 2^k)) IN
  IF Cardinality(S) <= minn THEN Increasing(out) /\ Rng(out) = S
  ELSE IF NV(0) >= minn THEN Filtered(S, pts, out, len, 1)
  ELSE /\ Increasing(out) /\ Rng(out) \subseteq S /\ out # <<>>
       /\ (\E k \in 1..7 : NV(k) >= minn) => Len(out) >= minn
       \* still a filtered cloud: no denser than the finest length tried
       /\ Len(out) <= Cardinality(Voxels(S, pts, len, 128))
=============================================================================
