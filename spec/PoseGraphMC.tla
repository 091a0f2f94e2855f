----------------------------- MODULE PoseGraphMC -----------------------------
(* Bounded exploration of PoseGraph: a client makes at most Ops calls on two *)
(* trajectories, background work interleaves arbitrarily. Every scan of local *)
(* SLAM belongs to the two newest submaps (one scan per submap before the    *)
(* next one starts).                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops, Everys, Searches, Gen
VARIABLES hist, every, search, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, ktr, conn, init, sens, lm, touched
pg == <<every, search, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>
vars == <<hist, pg>>
T == {0, 1}
P == INSTANCE PoseGraph WITH Traj <- T
Init == /\ hist = <<>> /\ every \in Everys /\ search \in Searches /\ P!PGInit
Has(o, t) == (\E i \in DOMAIN hist : hist[i].o = o /\ hist[i].t = t) = TRUE
Did(op) == hist' = Append(hist, op)
CanCall == Len(hist) < Ops
Nodes(t) == Cardinality({i \in DOMAIN hist : hist[i].o = "node" /\ hist[i].t = t})
\* The call of AddNode is one step here (no concurrent clients).
Node(t) ==
  LET k == Nodes(t)
      r == [time |-> k, p |-> <<k, t, 0>>, subs |-> IF k = 0 THEN <<0>> ELSE <<k - 1, k>>, fin |-> k > 0]
      id == <<t, k>>
      ids == {<<t, r.subs[i]>> : i \in DOMAIN r.subs} IN
  /\ CanCall /\ P!Open(t) /\ ~Has("finish", t) /\ ~Has("delete", t) /\ ~Has("freeze", t)
  /\ P!Next1(DOMAIN N, t) \in {0, k}
  /\ Did([o |-> "node", t |-> t])
  /\ org' = TLCEval([s \in DOMAIN org \cup ids |-> IF s \in DOMAIN org THEN org[s] ELSE <<k, t>>])
  /\ ins' = TLCEval(IF r.fin THEN ins \cup {<<t, k - 1>>} ELSE ins)
  /\ st' = IF st[t] = "none" THEN [st EXCEPT ![t] = "ACTIVE"] ELSE st
  /\ ktr' = TLCEval(ktr \cup {t})
  /\ N' = TLCEval([i \in DOMAIN N \cup {id} |-> IF i = id THEN r ELSE N[i]])
  /\ S' = TLCEval(S \cup {<<t, k>>})
  /\ q' = Append(q, [o |-> "node", id |-> id, r |-> r])
  /\ UNCHANGED <<every, search, del, ON, OS, fin, intra, inter, pin, ph, got, since, trm, conn, init, sens, lm, touched>>
Call(op, guard) == CanCall /\ (guard) = TRUE /\ Did(op) /\ P!Enqueue(op)
Finish(t) == Call([o |-> "finish", t |-> t], ~Has("finish", t) /\ ~Has("freeze", t) /\ ~Has("delete", t))
Freeze(t) == Call([o |-> "freeze", t |-> t], ~Has("freeze", t) /\ ~Has("delete", t) /\ ~Has("trim", t))
Trim(t) == Call([o |-> "trim", t |-> t, n |-> 2], ~Has("trim", t) /\ ~Has("finish", t) /\ ~Has("freeze", t))
Sensor(t) == Call([o |-> "odom", t |-> t, time |-> Len(hist)], ~Has("finish", t) /\ ~Has("odom", t) /\ Nodes(t) > 0)
Delete(t) == /\ CanCall /\ Has("finish", t) /\ ~Has("delete", t) /\ ~Has("trim", t) /\ P!Known(t)
             /\ Did([o |-> "delete", t |-> t])
             /\ del' = [del EXCEPT ![t] = "scheduled"] /\ q' = Append(q, [o |-> "delete", t |-> t])
             /\ UNCHANGED <<every, search, st, N, S, org, ins, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>
Final == /\ CanCall /\ hist # <<>> /\ hist[Len(hist)].o # "final"
         /\ Did([o |-> "final", t |-> -1])
         /\ q' = q \o <<[o |-> "final1"], [o |-> "final2"]>>
         /\ UNCHANGED <<every, search, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>
Client == (\E t \in T : Node(t) \/ Finish(t) \/ Freeze(t) \/ Trim(t) \/ Sensor(t) \/ Delete(t)) \/ Final
Back == (P!Process \/ P!Gather \/ P!Solve \/ P!Tell \/ P!Tidy) /\ UNCHANGED hist
Emit == /\ Gen /\ Len(hist) = Ops /\ P!Idle /\ PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE /\ UNCHANGED vars
Next == Client \/ Back \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Back)
\* ---- properties
Referential == P!Referential
ProblemShown == P!ProblemShown
IntraExact == P!IntraExact
InterSound == P!InterSound
NodesAnchored == P!NodesAnchored
DeletedGone == P!DeletedGone
FinishedSearched == P!FinishedSearched
NothingRefused == ~P!HeadRefused
Forward == P!Forward
\* All queued work is processed.
Drains == [](q # <<>> => <>(q = <<>> \/ Len(hist) < Ops)) /\ []<>(P!Idle)
\* Without deletion and trimming nothing that was added disappears.
Monotone == [][(trm = <<>> /\ \A t \in T : del[t] = "normal") =>
               DOMAIN N \subseteq DOMAIN N' /\ S \subseteq S' /\ intra \subseteq intra' /\ inter \subseteq inter']_vars
\* When all work is done every submap that is complete was matched against
\* every node outside it.
FullySearched == (P!Idle /\ search = "all") =>
  \A s \in fin \cap ins \cap S : \A n \in ON : <<s, n>> \in intra \cup inter \cup pin
=============================================================================
