---------------------------- MODULE RatioSampler ----------------------------
(* Fixed-ratio sampling with ratio p/q: after n pulses the number of samples *)
(* differs from n * p / q by less than one.                                  *)
EXTENDS Integers, Sequences
VARIABLES p, q, n, s
InRange(nn, ss) == LET d == ss * q - p * nn IN -q < d /\ d < q
\* The sampler says yes or no; both are fine while the share is kept.
Pulse(yes) == /\ n' = n + 1 /\ s' = (IF yes THEN s + 1 ELSE s) /\ InRange(n', s')
              /\ UNCHANGED <<p, q>>
\* Many pulses at once.  A whole number of periods - q pulses, p samples - may
\* be forgotten without changing anything; rest pulses remain.  d is the
\* deviation s * q - p * n at the end, lo and hi the least and greatest on the way.
Bulk(rest, d, lo, hi) ==
  /\ -q < lo /\ lo <= d /\ d <= hi /\ hi < q
  /\ n' = rest /\ (d + p * rest) % q = 0 /\ s' = (d + p * rest) \div q
  /\ UNCHANGED <<p, q>>
=============================================================================
