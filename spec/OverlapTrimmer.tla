--------------------------- MODULE OverlapTrimmer ---------------------------
(* The overlapping-submaps trimmer: a submap is kept exactly if it is among  *)
(* the `fresh` most recent submaps in enough cells. Cells are grouped into   *)
(* blocks that a submap covers as a whole; weight[b] is the number of cells  *)
(* of block b.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES sub,    \* submap id -> [blocks, fin]
          ntime,  \* node id -> time
          intra,  \* set of <<submap, node>>
          count   \* submaps left after the last time it was at work
tvars == <<sub, ntime, intra, count>>
TInit == sub = [x \in {} |-> 0] /\ ntime = [x \in {} |-> 0] /\ intra = {} /\ count = 0
Less(a, b) == (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])) = TRUE
NodesIn(s) == {c[2] : c \in {d \in intra : d[1] = s}}
Newest(X) == CHOOSE n \in X : \A m \in X : m = n \/ Less(m, n)
HasTime(s) == (NodesIn(s) # {} /\ Newest(NodesIn(s)) \in DOMAIN ntime) = TRUE
Time(s) == ntime[Newest(NodesIn(s))]
Judged == {s \in DOMAIN sub : sub[s].fin /\ HasTime(s)}
Covering(b) == {s \in Judged : b \in sub[s].blocks}
Counts(s, b, fresh) == (Cardinality({u \in Covering(b) : Time(u) > Time(s)}) < fresh) = TRUE
RECURSIVE Sum(_, _)
Sum(B, weight) == IF B = {} THEN 0 ELSE LET b == CHOOSE b \in B : TRUE IN weight[b + 1] + Sum(B \ {b}, weight)
Covered(s, fresh, weight) == Sum({b \in sub[s].blocks : Counts(s, b, fresh)}, weight)
Due(added) == (Cardinality(DOMAIN sub) - count > added) = TRUE
ToTrim(fresh, min, weight) == {s \in Judged : LET c == Covered(s, fresh, weight) IN c < min \/ c = 0}
Drop(X) == /\ sub' = TLCEval([s \in DOMAIN sub \ X |-> sub[s]])
           /\ intra' = TLCEval({c \in intra : c[1] \notin X})
           /\ UNCHANGED ntime
=============================================================================
