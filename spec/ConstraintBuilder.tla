-------------------------- MODULE ConstraintBuilder --------------------------
(* Search for constraints (mapping/internal/constraints/constraint_builder):  *)
(* requests are computed in the background in any order; a node is counted    *)
(* once all requests made since the previous announced node were computed;    *)
(* the callback asked for gets what was found by everything before it.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  ratio,   \* local requests are sampled with ratio/4 per submap
  smp,     \* submap -> [p, s]: pulses seen, samples taken
  req,     \* request number -> [s, n, hit, rel]   (since the last callback)
  ended,   \* numbers of the computed ones
  cur,     \* numbers of requests of the node not yet announced
  open,    \* announced node (number) -> its requests; not yet counted
  count,   \* number of requests so far
  ann,     \* nodes announced
  fin,     \* nodes counted as finished
  pend,    \* a callback is asked for and not yet called
  calls    \* callbacks called
cbvars == <<ratio, smp, req, ended, cur, open, count, ann, fin, pend, calls>>
Empty == [x \in {} |-> 0]
CBInit == /\ smp = Empty /\ req = Empty /\ ended = {} /\ cur = {} /\ open = Empty /\ count = 0 /\ ann = 0 /\ fin = 0
          /\ pend = FALSE /\ calls = 0
Smp(s) == IF s \in DOMAIN smp THEN smp[s] ELSE [p |-> 0, s |-> 0]
Taken(s) == 4 * Smp(s).s < ratio * (Smp(s).p + 1)
\* A request that is accepted.
Accept(r) ==
  /\ req' = TLCEval([k \in DOMAIN req \cup {count} |-> IF k = count THEN r ELSE req[k]])
  /\ cur' = cur \cup {count} /\ count' = count + 1
Add(r, near) ==
  IF ~near THEN UNCHANGED cbvars ELSE
  /\ smp' = TLCEval([x \in DOMAIN smp \cup {r.s} |->
       IF x = r.s THEN [p |-> Smp(x).p + 1, s |-> Smp(x).s + (IF Taken(x) THEN 1 ELSE 0)] ELSE smp[x]])
  /\ IF Taken(r.s) THEN Accept(r) ELSE UNCHANGED <<req, cur, count>>
  /\ UNCHANGED <<ratio, ended, open, ann, fin, pend, calls>>
AddGlobal(r) == Accept(r) /\ UNCHANGED <<ratio, smp, ended, open, ann, fin, pend, calls>>
EndNode ==
  /\ open' = TLCEval([k \in DOMAIN open \cup {ann} |-> IF k = ann THEN cur ELSE open[k]])
  /\ cur' = {} /\ ann' = ann + 1
  /\ UNCHANGED <<ratio, smp, req, ended, count, fin, pend, calls>>
When == /\ ~pend /\ pend' = TRUE /\ UNCHANGED <<ratio, smp, req, ended, cur, open, count, ann, fin, calls>>
Delete(s) == /\ smp' = TLCEval([x \in DOMAIN smp \ {s} |-> smp[x]])
             /\ UNCHANGED <<ratio, req, ended, cur, open, count, ann, fin, pend, calls>>
\* Background.
Compute(k) == /\ k \in DOMAIN req \ ended /\ ended' = ended \cup {k}
              /\ UNCHANGED <<ratio, smp, req, cur, open, count, ann, fin, pend, calls>>
Count(n) == /\ n \in DOMAIN open /\ open[n] \subseteq ended
            /\ open' = TLCEval([k \in DOMAIN open \ {n} |-> open[k]]) /\ fin' = fin + 1
            /\ UNCHANGED <<ratio, smp, req, ended, cur, count, ann, pend, calls>>
Found == {k \in DOMAIN req : req[k].hit}
Call == /\ pend /\ DOMAIN open = {}
        /\ pend' = FALSE /\ calls' = calls + 1 /\ req' = Empty /\ ended' = {}
        /\ UNCHANGED <<ratio, smp, cur, open, count, ann, fin>>
Computed == count - Cardinality(DOMAIN req \ ended)
------------------------------------------------------------------------------
Counted == fin + Cardinality(DOMAIN open) = ann
=============================================================================
