--------------------------- MODULE ActiveSubmapsMC ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, MaxK
VARIABLES k, n, act, has, done, org
A == INSTANCE ActiveSubmaps
Init == k = 0 /\ n \in 1..MaxN /\ A!ASInit
Next == k < MaxK /\ k' = k + 1 /\ A!Insert(k + 1, k)
Spec == Init /\ [][Next]_<<k, n, act, has, done, org>>
AtMostTwo == A!AtMostTwo
FinishedIffFull == A!FinishedIffFull
OldOnesFinished == A!OldOnesFinished
Half == A!Half
Covered == A!Covered
Frozen == A!Frozen
=============================================================================
