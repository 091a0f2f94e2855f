------------------------------ MODULE PoseGraph ------------------------------
(* The pose graph as its users see it (mapping/internal/2d|3d/pose_graph):   *)
(* trajectories and their lifecycle, nodes, submaps, constraints between     *)
(* them, and a queue of work that a background thread processes in order.    *)
(*                                                                           *)
(* Ids: nodes and submaps are <<trajectory, index>>. A constraint is a pair  *)
(* <<submap, node>>. "data" (N, S) is what the getters show and grows when a *)
(* node is added; the "problem" (ON, OS) is what optimisation knows and      *)
(* grows when the queued work is processed.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Traj
VARIABLES
  every,   \* optimisation is due after more than this many nodes (0: never)
  search,  \* which pairs match: "none", "same" (within a trajectory, or
           \* between recently connected ones), "all"
  st,      \* trajectory -> "none" | "ACTIVE" | "FINISHED" | "FROZEN" | "DELETED"
  del,     \* trajectory -> "normal" | "scheduled" | "wait"
  N,       \* node id -> [time, p, subs, fin]      (nodes shown)
  S,       \* submap ids shown
  org,     \* submap id -> origin <<x, y>> (position of its first node)
  ins,     \* submaps that receive no more range data
  ON, OS,  \* nodes and submaps in the optimisation problem
  fin,     \* submaps available for constraint search
  intra,   \* <<submap, node>>: node's scan was inserted into submap
  inter,   \* <<submap, node>>: found by constraint search
  pin,     \* found, but not yet collected
  q,       \* work not yet processed
  ph,      \* "drain" | "want" | "gathered" | "solved" | "called": progress of optimisation
  got,     \* constraints collected for the running optimisation
  since,   \* nodes processed since the last optimisation
  trm,     \* trimmers in order of addition: [t, n]
  ktr,     \* trajectories known to the connectivity
  conn,    \* connections: e, set of {a, b}; near, those whose last connection is recent
  init,    \* trajectory -> [to, ...] initial pose or <<>>
  sens,    \* kind -> trajectory -> times, in order
  lm,      \* landmark id -> [obs: sequence of <<t, time>>, frozen, pose: <<>> (none),
           \* <<x, y, a>> (given) or <<"free">> (optimised)]
  touched  \* trajectories some of whose nodes were removed
pgvars == <<every, search, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since,
            trm, ktr, conn, init, sens, lm, touched>>
cfgvars == <<every, search>>
Kinds == {"imu", "odom", "fixed"}
Empty == [x \in {} |-> 0]
PGInit ==
  /\ st = [t \in Traj |-> "none"] /\ del = [t \in Traj |-> "normal"]
  /\ N = Empty /\ S = {} /\ org = Empty /\ ins = {} /\ ON = {} /\ OS = {} /\ fin = {}
  /\ intra = {} /\ inter = {} /\ pin = {} /\ q = <<>> /\ ph = "drain" /\ got = {} /\ since = 0
  /\ trm = <<>> /\ ktr = {} /\ conn = [e |-> {}, near |-> {}] /\ init = [t \in Traj |-> <<>>]
  /\ sens = [k \in Kinds |-> [t \in Traj |-> <<>>]] /\ lm = Empty /\ touched = {}

Max(X) == CHOOSE x \in X : \A y \in X : y <= x
NodesOf(D, t) == {id[2] : id \in {i \in D : i[1] = t}}
Next1(D, t) == IF NodesOf(D, t) = {} THEN 0 ELSE Max(NodesOf(D, t)) + 1

------------------------------------------------------------------------------
(* Client steps (take effect at once).                                       *)

\* May the trajectory be given new nodes?
Open(t) == (st[t] \in {"none", "ACTIVE", "FROZEN"} /\ del[t] = "normal") = TRUE
\* May work queued for the trajectory be processed? (A deletion that is only
\* scheduled comes later in the queue.)
Takes(t) == (st[t] \in {"none", "ACTIVE", "FROZEN"} /\ del[t] # "wait") = TRUE
\* A scan is inserted into the submaps subs (1 or 2 indices, oldest first) by
\* local SLAM; full: the oldest of them is complete with it.
Scan(t, subs, full, p) ==
  LET ids == {<<t, subs[i]>> : i \in DOMAIN subs}
      fresh == ids \ DOMAIN org IN
  /\ org' = TLCEval([s \in DOMAIN org \cup fresh |-> IF s \in fresh THEN <<p[1], p[2]>> ELSE org[s]])
  /\ ins' = TLCEval(IF full THEN ins \cup {<<t, subs[1]>>} ELSE ins)
Append1(t, r) ==   \* r: [time, p, subs, fin]
  LET id == <<t, Next1(DOMAIN N, t)>> IN
  /\ Open(t)
  /\ st' = IF st[t] = "none" THEN [st EXCEPT ![t] = "ACTIVE"] ELSE st
  /\ ktr' = TLCEval(ktr \cup {t})
  /\ N' = TLCEval([i \in DOMAIN N \cup {id} |-> IF i = id THEN r ELSE N[i]])
  /\ S' = TLCEval(S \cup {<<t, r.subs[Len(r.subs)]>>})
  /\ UNCHANGED <<cfgvars, del, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, conn, init, sens, lm, touched>>
Enqueue(item) ==
  /\ q' = Append(q, item)
  /\ UNCHANGED <<cfgvars, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>
Known(t) == st[t] # "none"
ScheduleDeletion(t) ==
  /\ del' = [del EXCEPT ![t] = "scheduled"]
  /\ UNCHANGED <<cfgvars, st, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>
Track(t) ==
  /\ ktr' = TLCEval(ktr \cup {t})
  /\ UNCHANGED <<cfgvars, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, conn, init, sens, lm, touched>>
SetInit(t, v) ==
  /\ init' = [init EXCEPT ![t] = v]
  /\ UNCHANGED <<cfgvars, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, ktr, conn, sens, lm, touched>>

------------------------------------------------------------------------------
(* Background steps.                                                         *)

\* Joining two components connects every trajectory of one to all of the other.
RECURSIVE ReachIn(_, _)
ReachIn(E, X) == LET Y == X \cup UNION {e \in E : e \cap X # {}} IN IF Y = X THEN X ELSE ReachIn(E, Y)
Connect(c, a, b) ==
  LET A == ReachIn(c.e, {a})
      B == ReachIn(c.e, {b})
      P == IF b \in A THEN {{a, b}} ELSE {{x, y} : x \in A, y \in B} IN
  [e |-> c.e \cup {{a, b}}, near |-> c.near \cup P]
RECURSIVE ConnectAll(_, _)
ConnectAll(c, X) == IF X = {} THEN c ELSE LET x == CHOOSE x \in X : TRUE IN ConnectAll(Connect(c, x[1], x[2]), X \ {x})
\* (a search window around the current poses is used for recently connected ones)
Match(c, s, n) == (search = "all" \/ (search = "same" /\ (s[1] = n[1] \/ {s[1], n[1]} \in c.near))) = TRUE
ProcessNode(it) ==
  LET id == it.id
      r == it.r
      subs == {<<id[1], r.subs[i]>> : i \in DOMAIN r.subs}
      front == <<id[1], r.subs[1]>>
      on2 == ON \cup {id}
      intra2 == intra \cup {<<s, id>> : s \in subs}
      cand == {<<s, id>> : s \in fin}
              \cup (IF r.fin THEN {<<front, n>> : n \in {m \in on2 : <<front, m>> \notin intra2}} ELSE {})
      first == NodesOf(OS, id[1]) = {}
      conn2 == IF first /\ init[id[1]] # <<>> THEN Connect(conn, id[1], init[id[1]].to) ELSE conn IN
  /\ ON' = TLCEval(on2) /\ OS' = TLCEval(OS \cup subs) /\ intra' = TLCEval(intra2)
  /\ fin' = TLCEval(IF r.fin THEN fin \cup {front} ELSE fin)
  \* (submaps of a finished trajectory that were cut short are not searched)
  /\ pin' = TLCEval(pin \cup {c \in cand : c[1] \in ins /\ Match(conn2, c[1], c[2])})
  /\ conn' = TLCEval(conn2)
  /\ ktr' = TLCEval(IF first /\ init[id[1]] # <<>> THEN ktr \cup {init[id[1]].to} ELSE ktr)
  /\ since' = since + 1
  /\ ph' = IF every > 0 /\ since + 1 > every THEN "want" ELSE ph
  /\ UNCHANGED <<st, del, N, S, inter, got, trm, sens, lm, touched>>
Finishable(t) == st[t] # "FINISHED"
ProcessFinish(t) ==
  /\ Finishable(t)
  /\ st' = [st EXCEPT ![t] = "FINISHED"]
  /\ fin' = TLCEval(fin \cup {s \in S : s[1] = t})
  /\ ph' = "want"
  /\ UNCHANGED <<del, N, S, ON, OS, intra, inter, pin, got, since, trm, ktr, conn, sens, lm, touched>>
ProcessFreeze(t) ==
  /\ st[t] # "FROZEN"
  /\ conn' = TLCEval([conn EXCEPT !.e = @ \cup {{t, u} : u \in {v \in Traj : st[v] = "FROZEN"}}])
  /\ st' = [st EXCEPT ![t] = "FROZEN"]
  /\ UNCHANGED <<del, N, S, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, sens, lm, touched>>
Deletable(t) == (st[t] \in {"FINISHED", "FROZEN"} /\ del[t] = "scheduled") = TRUE
ProcessDelete(t) ==
  /\ Deletable(t)
  /\ del' = [del EXCEPT ![t] = "wait"]
  /\ UNCHANGED <<st, N, S, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, conn, sens, lm, touched>>
ProcessTrimmer(it) ==
  /\ trm' = Append(trm, [t |-> it.t, n |-> it.n])
  /\ UNCHANGED <<st, del, N, S, ON, OS, fin, intra, inter, pin, ph, got, since, ktr, conn, sens, lm, touched>>
ProcessSensor(it) ==
  /\ Takes(it.t)
  /\ sens' = [sens EXCEPT ![it.o][it.t] = Append(@, it.time)]
  /\ UNCHANGED <<st, del, N, S, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, conn, lm, touched>>
LmOr(i) == IF i \in DOMAIN lm THEN lm[i] ELSE [obs |-> <<>>, frozen |-> FALSE, pose |-> <<>>]
PutLm(i, v) == TLCEval([j \in DOMAIN lm \cup {i} |-> IF j = i THEN v ELSE lm[j]])
ProcessLandmark(it) ==
  /\ Takes(it.t)
  /\ lm' = PutLm(it.id, [LmOr(it.id) EXCEPT !.obs = Append(@, <<it.t, it.time>>)])
  /\ UNCHANGED <<st, del, N, S, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, conn, sens, touched>>
ProcessSetLm(it) ==
  /\ lm' = PutLm(it.id, [LmOr(it.id) EXCEPT !.frozen = it.frozen, !.pose = <<it.x, it.y, it.a>>])
  /\ UNCHANGED <<st, del, N, S, ON, OS, fin, intra, inter, pin, ph, got, since, trm, ktr, conn, sens, touched>>
ProcessFinal(it) ==
  /\ ph' = IF it.o = "final1" THEN "want" ELSE ph
  /\ UNCHANGED <<st, del, N, S, ON, OS, fin, intra, inter, pin, got, since, trm, ktr, conn, sens, lm, touched>>
Effect(it) ==
  CASE it.o = "node" -> ProcessNode(it)
    [] it.o = "finish" -> ProcessFinish(it.t)
    [] it.o = "freeze" -> ProcessFreeze(it.t)
    [] it.o = "delete" -> ProcessDelete(it.t)
    [] it.o = "trim" -> ProcessTrimmer(it)
    [] it.o \in Kinds -> ProcessSensor(it)
    [] it.o = "lm" -> ProcessLandmark(it)
    [] it.o = "setlm" -> ProcessSetLm(it)
    [] it.o \in {"final1", "final2"} -> ProcessFinal(it)
Process == /\ ph = "drain" /\ q # <<>>
           /\ Effect(Head(q)) /\ q' = Tail(q)
           /\ UNCHANGED <<cfgvars, org, ins, init>>
\* The head of the queue is a request that must be refused.
HeadRefused == (ph = "drain" /\ q # <<>> /\
  LET it == Head(q) IN
    CASE it.o = "finish" -> ~Finishable(it.t)
      [] it.o = "freeze" -> st[it.t] = "FROZEN"
      [] it.o = "delete" -> ~Deletable(it.t)
      [] it.o \in Kinds \cup {"lm"} -> ~Takes(it.t)
      [] OTHER -> FALSE) = TRUE

\* Optimisation: collect what the search found, optimise, tell, then tidy up.
Gather ==
  /\ ph = "want"
  /\ inter' = TLCEval(inter \cup pin) /\ got' = pin /\ pin' = {} /\ ph' = "gathered"
  /\ UNCHANGED <<cfgvars, st, del, N, S, org, ins, ON, OS, fin, intra, q, since, trm, ktr, conn, init, sens, lm, touched>>
Reported(t) == (NodesOf(ON, t) # {} /\ NodesOf(OS, t) # {}) = TRUE
LastNodes == {<<t, t, Max(NodesOf(ON, t))>> : t \in {u \in Traj : Reported(u)}}
LastSubmaps == {<<t, t, Max(NodesOf(OS, t))>> : t \in {u \in Traj : Reported(u)}}
\* Observation o relates a landmark to two nodes of its own trajectory.
Times(t) == {N[n].time : n \in {m \in ON : m[1] = t}}
Relates(o) == (Cardinality(Times(o[1])) >= 2 /\ (\E x \in Times(o[1]) : x <= o[2]) /\ (\E x \in Times(o[1]) : x >= o[2])) = TRUE
Moved(v) == (~v.frozen /\ \E i \in DOMAIN v.obs : Relates(v.obs[i])) = TRUE
Solve ==
  /\ ph = "gathered" /\ ph' = "solved"
  /\ lm' = TLCEval([i \in DOMAIN lm |-> IF Moved(lm[i]) THEN [lm[i] EXCEPT !.pose = <<"free">>] ELSE lm[i]])
  /\ UNCHANGED <<cfgvars, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, got, since, trm, ktr, conn, init, sens, touched>>
Tell ==
  /\ ph = "solved" /\ ph' = "called"
  /\ UNCHANGED <<cfgvars, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, got, since, trm, ktr, conn, init, sens, lm, touched>>

\* Removing a set of submaps: their constraints, and the nodes that are in no
\* other submap with all constraints of those.
Orphans(ss) == {c[2] : c \in {d \in intra : d[1] \in ss}} \ {c[2] : c \in {d \in intra : d[1] \notin ss}}
Keep(ss, R, X) == {c \in X : c[1] \notin ss /\ c[2] \notin R}
\* What is trimmed: all submaps of deleted trajectories, and per trimmer all
\* but the newest n submaps of an unfinished trajectory, all of a finished one.
Oldest(X, t, n) == {s \in X : s[1] = t /\ Cardinality({u \in X : u[1] = t /\ u[2] > s[2]}) >= n}
Dead == {t \in Traj : del[t] = "wait"}
TrimmerDone(r) == st[r.t] = "FINISHED" /\ r.t \notin Dead
TrimSet == {s \in OS : s[1] \in Dead}
           \cup UNION {Oldest(OS, trm[i].t, IF TrimmerDone(trm[i]) THEN 0 ELSE trm[i].n) : i \in DOMAIN trm}
Tidy ==
  LET ss == TrimSet
      R == Orphans(ss) IN
  /\ ph = "called" /\ ph' = "drain"
  /\ conn' = TLCEval(ConnectAll(conn, {<<c[1][1], c[2][1]>> : c \in got})) /\ got' = {}
  /\ S' = TLCEval(S \ ss) /\ OS' = TLCEval(OS \ ss) /\ fin' = TLCEval(fin \ ss)
  /\ N' = TLCEval([i \in DOMAIN N \ R |-> N[i]]) /\ ON' = TLCEval(ON \ R)
  /\ intra' = TLCEval(Keep(ss, R, intra)) /\ inter' = TLCEval(Keep(ss, R, inter))
  /\ st' = TLCEval([t \in Traj |-> IF t \in Dead \/ \E i \in DOMAIN trm : trm[i].t = t /\ TrimmerDone(trm[i])
                                   THEN "DELETED" ELSE st[t]])
  /\ del' = TLCEval([t \in Traj |-> IF t \in Dead THEN "normal" ELSE del[t]])
  /\ trm' = SelectSeq(trm, LAMBDA r : ~TrimmerDone(r))
  /\ since' = 0
  /\ touched' = TLCEval(touched \cup {n[1] : n \in R})
  /\ UNCHANGED <<cfgvars, org, ins, pin, q, ktr, init, sens, lm>>
\* A wait for all computations also collects what has been found.
Idle == (q = <<>> /\ ph = "drain") = TRUE
Collect ==
  /\ Idle
  /\ inter' = TLCEval(inter \cup pin) /\ pin' = {}
  /\ UNCHANGED <<cfgvars, st, del, N, S, org, ins, ON, OS, fin, intra, q, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>

\* Components of the connectivity.
Components == {ReachIn(conn.e, {t}) : t \in ktr}

------------------------------------------------------------------------------
(* What the graph guarantees at every point.                                 *)
Referential == /\ \A c \in intra \cup inter : c[1] \in S /\ c[2] \in DOMAIN N
               /\ \A c \in pin : c[1] \in S /\ c[2] \in DOMAIN N
ProblemShown == ON \subseteq DOMAIN N /\ OS \subseteq S
IntraExact == \A n \in ON : {c[1] : c \in {d \in intra : d[2] = n}} =
                            {s \in {<<n[1], N[n].subs[i]>> : i \in DOMAIN N[n].subs} : s \in OS}
InterSound == \A c \in inter \cup pin : c[1] \in fin /\ c \notin intra
NodesAnchored == \A n \in ON : \E c \in intra : c[2] = n
DeletedGone == \A t \in Traj : st[t] = "DELETED" => NodesOf(DOMAIN N, t) = {} /\ NodesOf(S, t) = {}
FinishedSearched == \A t \in Traj : st[t] = "FINISHED" => \A s \in S : s[1] = t => s \in fin
Forward == \* states only move forward
  [][\A t \in Traj : LET r(s) == CASE s = "none" -> 0 [] s = "ACTIVE" -> 1 [] s \in {"FINISHED", "FROZEN"} -> 2 [] OTHER -> 3
                     IN r(st'[t]) >= r(st[t])]_pgvars
=============================================================================
