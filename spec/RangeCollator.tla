---------------------------- MODULE RangeCollator ----------------------------
(* Merging the clouds of several range sensors (mapping/internal/            *)
(* range_data_collator). A cloud has a time and points with times up to it,  *)
(* in order; clouds arrive in the order of their times. Time is cut into     *)
(* consecutive intervals; the points of an interval are delivered together,  *)
(* as soon as nothing more can be waited for: when every sensor has a cloud  *)
(* buffered (up to the oldest of them), or a sensor sends another one (up to *)
(* its previous one).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pend,   \* sensor -> <<>> or [time, pts]; point: [t, id]
          cend,   \* end of the last delivered interval
          out     \* what the last call delivered: <<>> or [time, pts (set)]
rcvars == <<pend, cend, out>>
Sensors == DOMAIN pend
RCInit(X) == pend = [s \in X |-> <<>>] /\ cend = -100000 /\ out = <<>>
Has(s) == pend[s] # <<>>
Buffered == {s \in Sensors : Has(s)}
In(P, lo, hi) == {P[i] : i \in {j \in DOMAIN P : lo <= P[j].t /\ P[j].t <= hi}}
After(m, hi) == LET P == SelectSeq(m.pts, LAMBDA p : p.t > hi) IN IF P = <<>> THEN <<>> ELSE [m EXCEPT !.pts = P]
Deliver(buf, hi) ==
  /\ cend' = hi
  /\ out' = [time |-> hi, pts |-> TLCEval(UNION {{[t |-> p.t, id |-> p.id, s |-> s] : p \in In(buf[s].pts, cend, hi)} :
                                          s \in {x \in Sensors : buf[x] # <<>>}})]
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Add(s, m) ==
  LET buf == IF Has(s) THEN pend ELSE [pend EXCEPT ![s] = m]
      full == \A x \in Sensors : buf[x] # <<>>
      hi == IF Has(s) THEN pend[s].time ELSE Min({buf[x].time : x \in Sensors}) IN
  IF Has(s) \/ full
  THEN /\ Deliver(buf, hi)
       /\ LET rest == [x \in Sensors |-> IF buf[x] = <<>> THEN <<>> ELSE After(buf[x], hi)] IN
          pend' = TLCEval(IF Has(s) THEN [rest EXCEPT ![s] = m] ELSE rest)
  ELSE pend' = buf /\ out' = <<>> /\ UNCHANGED cend
=============================================================================
