----------------------------- MODULE PoseBuffer -----------------------------
(* Time-ordered buffer of poses with interpolated lookup                     *)
(* (transform::TransformInterpolationBuffer). Poses are <<x, y, z, yaw>> in  *)
(* integers, yaw in degrees; lookups are observed in units of 1/S.           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS S, Tol
VARIABLES buf, limit
pbvars == <<buf, limit>>
Unlimited == -1
PBInit == buf = <<>> /\ limit = Unlimited
Cut(b, lim) == IF lim # Unlimited /\ Len(b) > lim THEN SubSeq(b, Len(b) - lim + 1, Len(b)) ELSE b
CanPush(time) == IF buf = <<>> THEN TRUE ELSE time >= buf[Len(buf)].time
Push(time, pose) == CanPush(time) /\ buf' = Cut(Append(buf, [time |-> time, pose |-> pose]), limit) /\ UNCHANGED limit
SetLimit(n) == limit' = n /\ buf' = Cut(buf, n)
Clear == buf' = <<>> /\ UNCHANGED limit
Has(time) == buf # <<>> /\ buf[1].time <= time /\ time <= buf[Len(buf)].time
Abs(x) == IF x < 0 THEN -x ELSE x
\* Difference of two angles in degrees, in (-180, 180].
Diff(a, b) == LET d == (a - b) % 360 IN IF d > 180 THEN d - 360 ELSE d
\* r (in 1/S) is within tolerance of a + d * num / den, with a, d integers.
Near(r, a, d, num, den) == Abs((r - a * S) * den - d * num * S) <= Tol * den
NearAngle(r, a, d, num, den) == \E k \in {-1, 0, 1} : Near(r + k * 360 * S, a, d, num, den)
IsPose(r, p, q, num, den) == /\ \A c \in 1..3 : Near(r[c], p[c], q[c] - p[c], num, den)
                             /\ NearAngle(r[4], p[4], Diff(q[4], p[4]), num, den)
\* r answers a lookup at `time`.
Answer(time, r) ==
  /\ Has(time)
  /\ LET at == {i \in DOMAIN buf : buf[i].time = time} IN
     IF at # {} THEN \E i \in at : IsPose(r, buf[i].pose, buf[i].pose, 0, 1)
     ELSE LET j == CHOOSE i \in DOMAIN buf : buf[i].time > time /\ buf[i - 1].time < time
              a == buf[j - 1]  b == buf[j]
          IN IsPose(r, a.pose, b.pose, time - a.time, b.time - a.time)
Bounded == limit # Unlimited => Len(buf) <= limit
Ordered == \A i \in 1..(Len(buf) - 1) : buf[i].time <= buf[i + 1].time
=============================================================================
