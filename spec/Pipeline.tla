------------------------------ MODULE Pipeline ------------------------------
(* A points-processing pipeline: every stage turns a batch of points into a   *)
(* batch for the next one. A batch is a record [frame, org, pts, ints, cols]; *)
(* ints and cols are empty or as long as pts. A stage is a record with its    *)
(* kind, parameters and state; coordinates are in 1/4 m except for the        *)
(* outlier filter, whose voxels have 1 m.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Keep(b, K) ==  \* the points of b whose index is in K, in order
  LET RECURSIVE Go(_, _)
      Go(s, i) == IF i > Len(s) THEN <<>> ELSE (IF i \in K THEN <<s[i]>> ELSE <<>>) \o Go(s, i + 1)
  IN [b EXCEPT !.pts = Go(b.pts, 1), !.ints = Go(b.ints, 1), !.cols = Go(b.cols, 1)]
Sq(b, i) == LET d == <<b.pts[i][1] - b.org[1], b.pts[i][2] - b.org[2], b.pts[i][3] - b.org[3]>>
            IN d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Rng(s) == {s[i] : i \in DOMAIN s}
\* Outlier filter: voxel of a point, and the samples of the ray to a point.
\* Points are chosen so that lengths are whole meters (in.len) and no sample
\* lies between voxels.
Vox(p) == <<(p[1] + 2) \div 4, (p[2] + 2) \div 4, (p[3] + 2) \div 4>>
Sample(o, p, L, t) == LET f(i) == (2 * (p[i] - o[i]) * t + 4 * L * (o[i] \div 4) * 2 + 4 * L) \div (8 * L)
                      IN <<f(1), f(2), f(3)>>
RECURSIVE Root(_, _)
Root(n, k) == IF k * k >= n THEN k ELSE Root(n, k + 1)
Length(b, i) == Root(Sq(b, i), 0) \div 4
Inc(f, c) == IF c \in DOMAIN f THEN [f EXCEPT ![c] = @ + 1] ELSE (c :> 1) @@ f
Val(f, c) == IF c \in DOMAIN f THEN f[c] ELSE 0
RECURSIVE HitAll(_, _, _)
HitAll(b, i, h) == IF i > Len(b.pts) THEN h ELSE HitAll(b, i + 1, Inc(h, Vox(b.pts[i])))
RECURSIVE RayAll(_, _, _, _, _)
RayAll(b, i, t, h, r) ==
  IF i > Len(b.pts) THEN r
  ELSE IF t >= Length(b, i) THEN RayAll(b, i + 1, 0, h, r)
  ELSE LET c == Sample(b.org, b.pts[i], Length(b, i), t)
       IN RayAll(b, i, t + 1, h, IF c \in DOMAIN h THEN Inc(r, c) ELSE r)
\* Fixed-ratio sampling a/8 of the points, over all batches: <<kept, pulses, samples>>.
RECURSIVE Pulses(_, _, _, _, _)
Pulses(n, i, a, np, ns) ==
  IF i > n THEN <<{}, np, ns>>
  ELSE LET take == 8 * ns < a * (np + 1)
           r == Pulses(n, i + 1, a, np + 1, IF take THEN ns + 1 ELSE ns)
       IN IF take THEN <<r[1] \cup {i}, r[2], r[3]>> ELSE r
\* One stage: <<batch or <<>> (dropped), new stage, refused>>.
First(w, b) == IF w.n = 0 THEN [w EXCEPT !.c = b.cols # <<>>, !.i = b.ints # <<>>] ELSE w
Rows(w, b) == [k \in DOMAIN b.pts |-> <<b.pts[k], IF w.c THEN b.cols[k] ELSE <<>>, IF w.i THEN <<b.ints[k]>> ELSE <<>>>>]
One(s, b) ==
  CASE s.k = "count" -> <<b, s, FALSE>>
    [] s.k = "frame" -> IF (b.frame \in Rng(s.keep)) \/ (s.drop # <<>> /\ b.frame \notin Rng(s.drop)) THEN <<b, s, FALSE>> ELSE <<<<>>, s, FALSE>>
    [] s.k = "range" -> <<Keep(b, {i \in DOMAIN b.pts : s.min * s.min <= Sq(b, i) /\ Sq(b, i) <= s.max * s.max}), s, FALSE>>
    [] s.k = "vert" -> <<Keep(b, {i \in DOMAIN b.pts : s.min <= b.pts[i][3] - b.org[3] /\ b.pts[i][3] - b.org[3] <= s.max}), s, FALSE>>
    [] s.k = "ratio" -> LET p == Pulses(Len(b.pts), 1, s.a, s.np, s.ns) IN <<Keep(b, p[1]), [s EXCEPT !.np = p[2], !.ns = p[3]], FALSE>>
    [] s.k = "color" -> <<IF b.frame = s.frame THEN [b EXCEPT !.cols = [i \in DOMAIN b.pts |-> s.c]] ELSE b, s, FALSE>>
    [] s.k = "gray" -> <<IF b.ints # <<>> /\ (s.frame = "" \/ s.frame = b.frame)
                         THEN [b EXCEPT !.cols = [i \in DOMAIN b.ints |-> LET v == Mn(255, Mx(0, b.ints[i] - s.min)) IN <<v, v, v>>]]
                         ELSE b, s, FALSE>>
    [] s.k = "outlier" ->
        (CASE s.ph = 1 -> <<<<>>, [s EXCEPT !.h = HitAll(b, 1, s.h)], FALSE>>
           [] s.ph = 2 -> <<<<>>, [s EXCEPT !.r = RayAll(b, 1, 0, s.h, s.r)], FALSE>>
           [] s.ph = 3 -> <<Keep(b, {i \in DOMAIN b.pts : 2 * Val(s.r, Vox(b.pts[i])) < s.lim * Val(s.h, Vox(b.pts[i]))}), s, FALSE>>)
    [] s.k = "restart" -> <<IF s.n > 0 THEN <<>> ELSE b, s, FALSE>>
    \* writers: the first points decide the columns; later ones must have them
    [] s.k \in {"ply", "pcd", "xyz"} ->
         IF b.pts = <<>> THEN <<b, s, FALSE>>
         ELSE LET w0 == First(s, b)
                  w == IF s.k = "ply" THEN w0 ELSE IF s.k = "pcd" THEN [w0 EXCEPT !.i = FALSE] ELSE [w0 EXCEPT !.c = FALSE, !.i = FALSE]
              IN IF (w.c /\ b.cols = <<>>) \/ (w.i /\ b.ints = <<>>) THEN <<<<>>, s, TRUE>>
                 ELSE <<b, [w EXCEPT !.n = @ + Len(b.pts), !.rows = @ \o Rows(w, b)], FALSE>>
RECURSIVE Feed(_, _, _)
Feed(st, i, b) ==  \* batch b enters stage i: <<batch arriving at the end or <<>>, stages, refused>>
  IF i > Len(st) THEN <<b, st, FALSE>>
  ELSE LET o == One(st[i], b)
           st2 == [st EXCEPT ![i] = o[2]]
       IN IF o[3] THEN <<<<>>, st2, TRUE>>
          ELSE IF o[1] = <<>> THEN <<<<>>, st2, FALSE>>
          ELSE Feed(st2, i + 1, o[1])
\* Flushing stage i: <<"done" | "again" | "refused", stages>>.
RECURSIVE Flush(_, _)
Flush(st, i) ==
  IF i > Len(st) THEN <<"done", st>>
  ELSE LET s == st[i] IN
    IF s.k = "outlier" /\ s.ph < 3 THEN <<"again", [st EXCEPT ![i].ph = @ + 1]>>
    ELSE IF s.k = "restart" /\ s.n > 0 THEN <<"again", [st EXCEPT ![i].n = @ - 1]>>
    ELSE LET f == Flush(st, i + 1) IN
      IF f[1] = "again" /\ s.k \in {"outlier", "ply", "pcd", "xyz"} THEN <<"refused", f[2]>>
      ELSE IF f[1] = "again" /\ s.k = "ratio" THEN <<"again", [f[2] EXCEPT ![i].np = 0, ![i].ns = 0]>>
      ELSE f
\* Stages as they start out.
Start(c) ==
  CASE c.k = "ratio" -> [k |-> c.k, a |-> c.a, np |-> 0, ns |-> 0]
    [] c.k = "outlier" -> [k |-> c.k, lim |-> c.lim, ph |-> 1, h |-> <<>>, r |-> <<>>]
    [] c.k \in {"ply", "pcd", "xyz"} -> [k |-> c.k, n |-> 0, c |-> FALSE, i |-> FALSE, rows |-> <<>>]
    [] OTHER -> c
=============================================================================
