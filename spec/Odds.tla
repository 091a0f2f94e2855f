-------------------------------- MODULE Odds --------------------------------
(* Occupancy updates in integers. A probability in [0.1, 0.9] is a number u   *)
(* in 0..32766: p = 0.1 + 0.8 * u / 32766 = (16383 + 4u) / 163830. An         *)
(* observation with odds a : b multiplies the odds p : 1 - p by a / b.        *)
EXTENDS Integers
\* X * 163830 \div S without leaving 32 bits: 163830 = (39 * 64 + 63) * 64 + 54.
Mul(X, S) ==
  LET a == 39 * X
      b == (a % S) * 64 + 63 * X
      c == (b % S) * 64 + 54 * X
  IN ((a \div S) * 64 + (b \div S)) * 64 + (c \div S)
Level(n) == LET u == (n - 16383 + 2) \div 4 IN IF u < 0 THEN 0 ELSE IF u > 32766 THEN 32766 ELSE u
First(o) == Level(Mul(o[1], o[1] + o[2]))  \* the first observation
Apply(u, o) == LET N == 16383 + 4 * u IN Level(Mul(o[1] * N, o[1] * N + o[2] * (163830 - N)))
=============================================================================
