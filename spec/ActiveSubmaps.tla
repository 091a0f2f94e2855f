---------------------------- MODULE ActiveSubmaps ----------------------------
(* The submaps that receive range data (ActiveSubmaps2D/3D): a new one is    *)
(* started after every n insertions, at most two receive data, and one that  *)
(* holds 2n is finished and never changes again. Submaps are numbered in     *)
(* order of creation.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES n, act, has, done, org
asvars == <<n, act, has, done, org>>
ASInit == act = <<>> /\ has = <<>> /\ done = {} /\ org = <<>>
\* has[i]: numbers of the range data in submap i, in order; org[i]: its origin
Count(i) == Len(has[i])
Starts == act = <<>> \/ Count(act[Len(act)]) = n
Insert(k, o) ==
  LET new == Len(has) + 1
      a2 == IF ~(Starts) THEN act
            ELSE Append(IF Len(act) = 2 THEN Tail(act) ELSE act, new)
      h1 == IF Starts THEN Append(has, <<>>) ELSE has
      h2 == [i \in DOMAIN h1 |-> IF \E j \in DOMAIN a2 : a2[j] = i THEN Append(h1[i], k) ELSE h1[i]] IN
  /\ act' = a2 /\ has' = TLCEval(h2)
  /\ org' = IF Starts THEN Append(org, o) ELSE org
  /\ done' = TLCEval(IF Len(h2[a2[1]]) = 2 * n THEN done \cup {a2[1]} ELSE done)
  /\ UNCHANGED n
------------------------------------------------------------------------------
AtMostTwo == Len(act) <= 2
FinishedIffFull == \A i \in DOMAIN has : i \in done <=> Count(i) = 2 * n
OldOnesFinished == \A i \in DOMAIN has : i \in done \/ \E j \in DOMAIN act : act[j] = i
Half == \A i \in 1..(Len(has) - 1) : \* the next submap repeats the second half
  has[i] # <<>> /\ has[i + 1] # <<>> /\ has[i + 1][1] = has[i][1] + n
Covered == \A k \in 1..(IF has = <<>> THEN 0 ELSE has[Len(has)][Count(Len(has))]) :
  Cardinality({i \in DOMAIN has : \E j \in DOMAIN has[i] : has[i][j] = k}) = (IF k <= n THEN 1 ELSE 2)
Frozen == [][\A i \in done : has'[i] = has[i]]_asvars
=============================================================================
