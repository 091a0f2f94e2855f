------------------------- MODULE ConstraintBuilderMC -------------------------
(* Bounded exploration of ConstraintBuilder together with the task graph that *)
(* implements it: every node has a task depending on its computations, the    *)
(* callback a task depending on the tasks of the nodes before it. The graph   *)
(* refines ConstraintBuilder.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops, Gen
VARIABLES hist,
  tasks,     \* task -> [deps, kind, k]
  fdeps,     \* dependencies of the task of the node not yet announced
  wdeps,     \* dependencies of the task of the next callback
  ratio, smp, req, ended, cur, open, count, ann, fin, pend, calls
C == INSTANCE ConstraintBuilder
cb == <<ratio, smp, req, ended, cur, open, count, ann, fin, pend, calls>>
tg == <<tasks, fdeps, wdeps>>
vars == <<hist, tg, cb>>
Init == hist = <<>> /\ tasks = [x \in {} |-> 0] /\ fdeps = {} /\ wdeps = {} /\ ratio \in {2, 4} /\ C!CBInit
Did(x) == hist' = Append(hist, x)
Can == Len(hist) < Ops
Put(id, t) == tasks' = TLCEval([x \in DOMAIN tasks \cup {id} |-> IF x = id THEN t ELSE tasks[x]])
R(s, hit) == [s |-> s, n |-> ann, hit |-> hit, rel |-> <<>>]
Request(s, hit, near) ==
  /\ Can /\ ~pend /\ Did([o |-> "local", s |-> s, hit |-> hit, near |-> near]) /\ C!Add(R(s, hit), near)
  /\ IF count' > count
     THEN Put(<<"compute", count>>, [deps |-> {}]) /\ fdeps' = fdeps \cup {<<"compute", count>>}
     ELSE UNCHANGED <<tasks, fdeps>>
  /\ UNCHANGED wdeps
End == /\ Can /\ ~pend /\ Did([o |-> "end"]) /\ C!EndNode
       /\ Put(<<"node", ann>>, [deps |-> fdeps]) /\ fdeps' = {} /\ wdeps' = wdeps \cup {<<"node", ann>>}
When == /\ Can /\ ~pend /\ cur = {} /\ Did([o |-> "when"]) /\ C!When
        /\ Put(<<"when", calls>>, [deps |-> wdeps]) /\ wdeps' = {} /\ UNCHANGED fdeps
\* A task whose dependencies are gone runs.
Ready == {t \in DOMAIN tasks : tasks[t].deps \cap DOMAIN tasks = {}}
Run(t) == /\ t \in Ready /\ tasks' = TLCEval([x \in DOMAIN tasks \ {t} |-> tasks[x]])
          /\ UNCHANGED <<fdeps, wdeps>>
          /\ IF Gen THEN Can /\ Did([o |-> "step", k |-> Cardinality({u \in Ready : u[1] = t[1] /\ u[2] < t[2]})]) ELSE UNCHANGED hist
          /\ CASE t[1] = "compute" -> C!Compute(t[2])
               [] t[1] = "node" -> C!Count(t[2])
               [] t[1] = "when" -> C!Call
Back == \E t \in DOMAIN tasks : Run(t)
Emit == /\ Gen /\ Len(hist) = Ops /\ PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE /\ UNCHANGED vars
Next == (\E s \in {0, 1}, hit \in BOOLEAN : Request(s, hit, TRUE)) \/ Request(0, TRUE, FALSE) \/ End \/ When \/ Back \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Back)
------------------------------------------------------------------------------
Counted == C!Counted
\* A task that is ready can take its step of the specification: the task graph
\* enforces the order the specification demands.
Enforced == \A t \in Ready : CASE t[1] = "compute" -> t[2] \in DOMAIN req \ ended
                               [] t[1] = "node" -> open[t[2]] \subseteq ended
                               [] t[1] = "when" -> pend /\ DOMAIN open = {} /\ DOMAIN req = ended
Called == pend ~> ~pend
AllCounted == \A n \in 0..Ops : (ann > n) ~> (fin > n)
=============================================================================
