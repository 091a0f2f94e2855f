----------------------------- MODULE Compression -----------------------------
(* Point clouds stored on a grid of 1 mm. Original coordinates are given in  *)
(* units of U per mm. The stored cloud is a permutation of the original in   *)
(* which every coordinate is within the precision.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Close(o, d, u) == \A c \in 1..3 : Abs(o[c] - d[c]) <= u
\* Coarse key under which originals and stored points must agree in number.
Matches(orig, dec, u) ==
  /\ Len(orig) = Len(dec)
  /\ \A i \in DOMAIN orig :
       Cardinality({j \in DOMAIN dec : Close(orig[i], dec[j], u)}) >=
       Cardinality({j \in DOMAIN orig : orig[j] = orig[i]})
  /\ \A i \in DOMAIN dec : \E j \in DOMAIN orig : Close(orig[j], dec[i], u)
=============================================================================
