--------------------------- MODULE PoseGraphTrace ---------------------------
(* Validates recorded runs of the real pose graphs.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, pc, fz,
  mq,  \* the lock under which the queue of work is extended (-1: not known yet)
  every, search, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, ktr, conn, init, sens, lm, touched
P == INSTANCE PoseGraph WITH Traj <- 0..3
pg == <<every, search, st, del, N, S, org, ins, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>
vars == <<tid, l, pc, fz, mq, pg>>
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
Rng(s) == {s[i] : i \in DOMAIN s}
Clients == 0..2
Idle0 == [o |-> "idle"]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ pc = [c \in Clients |-> Idle0] /\ fz = [x \in {} |-> 0] /\ mq = -1
        /\ every = In.every
        /\ search = (IF In.inter = "none" THEN "none" ELSE IF In.dim = 2 THEN "all" ELSE "same")
        /\ P!PGInit
At(e) == l <= Len(Tr) /\ Ev.e = e
Is(e) == At(e) /\ l' = l + 1 /\ tid' = tid
Set(c, v) == pc' = [pc EXCEPT ![c] = v]
Silent == l <= Len(Tr) /\ UNCHANGED <<tid, l, fz>>
\* With several clients, the acquisitions of locks within a call are recorded,
\* and the call takes effect at some of them.
Multi == Len(In.clients) > 1
MayAct(c) == (Multi => At("Lk") /\ Ev.c = c) = TRUE
\* (the queue is always extended under the same lock)
LkE == IF Multi THEN mq \in {-1, Ev.m} /\ mq' = Ev.m ELSE UNCHANGED mq
Lk == Is("Lk") /\ UNCHANGED <<pc, fz, pg>>

\* ---- adding a node: the scan is in its submaps before the call
NodeCall == /\ Is("Node") /\ pc[Ev.c] = Idle0
            /\ Set(Ev.c, [o |-> "node", t |-> Ev.t, s |-> 1, id |-> <<>>,
                          r |-> [time |-> Ev.time, p |-> Ev.p, subs |-> Ev.subs, fin |-> Ev.fin]])
            /\ P!Scan(Ev.t, Ev.subs, Ev.fin, Ev.p)
            /\ UNCHANGED <<fz, every, search, st, del, N, S, ON, OS, fin, intra, inter, pin, q, ph, got, since, trm, ktr, conn, init, sens, lm, touched>>
NodeAppend == \E c \in Clients :
  /\ pc[c].o = "node" /\ pc[c].s = 1 /\ Silent /\ MayAct(c)
  /\ P!Append1(pc[c].t, pc[c].r)
  /\ Set(c, [pc[c] EXCEPT !.s = 2, !.id = <<pc[c].t, P!Next1(DOMAIN N, pc[c].t)>>])
NodeEnq == \E c \in Clients :
  /\ pc[c].o = "node" /\ pc[c].s = 2 /\ Silent /\ MayAct(c)
  /\ LkE /\ P!Enqueue([o |-> "node", id |-> pc[c].id, r |-> pc[c].r]) /\ Set(c, [pc[c] EXCEPT !.s = 3])
NodeRet == /\ Is("NodeRet") /\ pc[Ev.c].o = "node" /\ pc[Ev.c].s = 3 /\ pc[Ev.c].id = Ev.id
           /\ Set(Ev.c, Idle0) /\ UNCHANGED <<fz, pg>>
\* ---- other requests
OpCall == /\ Is("Op") /\ pc[Ev.c] = Idle0 /\ Set(Ev.c, [o |-> "op", e |-> Ev, s |-> 1]) /\ UNCHANGED <<fz, pg>>
OpStep == \E c \in Clients :
  /\ pc[c].o = "op" /\ Silent /\ MayAct(c)
  /\ LET e == pc[c].e
         go(k) == Set(c, [pc[c] EXCEPT !.s = k]) IN
     \/ /\ e.o = "delete" /\ pc[c].s = 1
        /\ IF P!Known(e.t) THEN P!ScheduleDeletion(e.t) /\ go(2) ELSE UNCHANGED pg /\ go(3)
        /\ UNCHANGED mq
     \/ /\ e.o = "delete" /\ pc[c].s = 2 /\ LkE /\ P!Enqueue([o |-> "delete", t |-> e.t]) /\ go(3)
     \/ /\ e.o = "freeze" /\ pc[c].s = 1 /\ P!Track(e.t) /\ go(2) /\ UNCHANGED mq
     \/ /\ e.o = "freeze" /\ pc[c].s = 2 /\ LkE /\ P!Enqueue([o |-> "freeze", t |-> e.t]) /\ go(3)
     \/ /\ e.o = "final" /\ pc[c].s = 1 /\ LkE /\ P!Enqueue([o |-> "final1"]) /\ go(2)
     \/ /\ e.o = "final" /\ pc[c].s = 2 /\ LkE /\ P!Enqueue([o |-> "final2"]) /\ go(3)
     \/ /\ e.o = "init" /\ pc[c].s = 1 /\ P!SetInit(e.t, [to |-> e.to, x |-> e.x, y |-> e.y]) /\ go(3) /\ UNCHANGED mq
     \/ /\ e.o \notin {"delete", "freeze", "final", "init"} /\ pc[c].s = 1 /\ LkE /\ P!Enqueue(e) /\ go(3)
OpRet == /\ Is("Ret") /\ pc[Ev.c].o = "op" /\ pc[Ev.c].s = 3 /\ Set(Ev.c, Idle0) /\ UNCHANGED fz
         /\ IF pc[Ev.c].e.o = "final" THEN P!Collect ELSE UNCHANGED pg
\* ---- background work; it shows only in observations, so it is enough to
\* ---- let it happen before one.
Visible == \/ At("Obs") \/ (Multi /\ At("Lk") /\ pc[Ev.c].s = 1 /\ (pc[Ev.c].o = "obs" \/ (pc[Ev.c].o = "op" /\ pc[Ev.c].e.o = "delete")))
           \/ At("Opt") \/ At("Crash") \/ At("Gone")
           \/ (At("Ret") /\ pc[Ev.c].o = "op" /\ pc[Ev.c].e.o \in {"final", "delete"})
Work == (Visible) = TRUE /\ Silent /\ UNCHANGED pc /\ (P!Process \/ P!Gather \/ P!Solve \/ P!Tidy)
Opt == /\ Is("Opt") /\ P!Tell /\ Rng(Ev.n) = P!LastNodes /\ Rng(Ev.s) = P!LastSubmaps
       /\ UNCHANGED <<fz, pc>>
\* ---- observations take effect between call and return
ObsCall == /\ Is("ObsCall") /\ pc[Ev.c] = Idle0 /\ Set(Ev.c, [o |-> "obs", s |-> 1]) /\ UNCHANGED <<fz, pg>>
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NearP(a, b, tol) == \A i \in 1..3 : Near(a[i], b[i], tol)
\* Without found constraints nothing moves: global poses are local poses moved
\* by the trajectory's initial pose.
Off(t) == IF init[t] = <<>> THEN <<0, 0>>
          ELSE LET f == N[<<init[t].to, 0>>].p IN <<f[1] + init[t].x, f[2] + init[t].y>>
Global(t, p) == <<p[1] + Off(t)[1], p[2] + Off(t)[2], p[3]>>
Fixed == search = "none"
\* What a getter would return now, compared with what it returned.
Matches(k, v) ==
  CASE k = "states" -> /\ Rng(v) = {<<t, st[t]>> : t \in {u \in 0..3 : P!Known(u)}}
    [] k = "nodes" ->
        /\ Len(v) = Cardinality(DOMAIN N)
        /\ \A i \in DOMAIN v : LET x == v[i]
                                   id == <<x[1], x[2]>> IN
             /\ id \in DOMAIN N /\ x[3] = N[id].time /\ NearP(x[4], N[id].p, 1)
             /\ ((Fixed \/ In.dim = 2) => Near(x[6], 0, 3))
             /\ (Fixed => NearP(x[5], Global(x[1], N[id].p), 5))
             /\ (i > 1 => v[i-1][1] < x[1] \/ (v[i-1][1] = x[1] /\ v[i-1][2] < x[2]))
             /\ (id \in DOMAIN fz /\ st[x[1]] = "FROZEN" => NearP(x[5], fz[id], 1))
    [] k = "poses" -> /\ Len(v) = Cardinality(DOMAIN N)
                      /\ \A i \in DOMAIN v : <<v[i][1], v[i][2]>> \in DOMAIN N /\ v[i][3] = N[<<v[i][1], v[i][2]>>].time
    [] k = "submaps" ->
        /\ Len(v) = Cardinality(S)
        /\ \A i \in DOMAIN v : LET x == v[i]
                                   id == <<x[1], x[2]>> IN
             /\ id \in S /\ x[3] = x[2] /\ ((Fixed \/ In.dim = 2) => Near(x[5], 0, 3))
             /\ (Fixed => NearP(x[4], Global(x[1], <<org[id][1], org[id][2], 0>>), 5))
             /\ (i > 1 => v[i-1][1] < x[1] \/ (v[i-1][1] = x[1] /\ v[i-1][2] < x[2]))
             /\ (<<x[1], x[2], 0>> \in DOMAIN fz /\ st[x[1]] = "FROZEN" => NearP(x[4], fz[<<x[1], x[2], 0>>], 1))
    [] k = "subposes" -> /\ {<<v[i][1], v[i][2]>> : i \in DOMAIN v} = S /\ Len(v) = Cardinality(S)
                         /\ (Fixed => \A i \in DOMAIN v : LET id == <<v[i][1], v[i][2]>> IN
                               NearP(v[i][3], Global(id[1], <<org[id][1], org[id][2], 0>>), 5))
    [] k = "cons" ->
        LET C(i) == <<<<v[i][1], v[i][2]>>, <<v[i][3], v[i][4]>>>>
            I == {i \in DOMAIN v : v[i][5] = 0}
            X == {i \in DOMAIN v : v[i][5] = 1} IN
        /\ {C(i) : i \in I} = intra /\ Cardinality(I) = Cardinality(intra)
        /\ {C(i) : i \in X} = inter /\ Cardinality(X) = Cardinality(inter)
        /\ \A i \in I : LET s == <<v[i][1], v[i][2]>>
                            n == <<v[i][3], v[i][4]>> IN
             /\ NearP(v[i][6], <<N[n].p[1] - org[s][1], N[n].p[2] - org[s][2], N[n].p[3]>>, 2)
             /\ v[i][7] = 5000 /\ v[i][8] = 6000
        /\ \A i \in X : v[i][7] = 3000 /\ v[i][8] = 4000
    [] k = "conn" -> {Rng(v[i]) : i \in DOMAIN v} = P!Components /\ Len(v) = Cardinality(P!Components)
    [] k \in {"odom", "fixed", "imu"} ->
        \A t \in 0..3 \ touched :
          (IF \E i \in DOMAIN v : v[i][1] = t THEN v[CHOOSE i \in DOMAIN v : v[i][1] = t][2] ELSE <<>>)
          = (IF k = "imu" /\ In.dim = 2 THEN <<>> ELSE sens[k][t])
    [] k = "lm" -> /\ {v[i][1] : i \in DOMAIN v} = DOMAIN lm /\ Len(v) = Cardinality(DOMAIN lm)
                   /\ \A i \in DOMAIN v : v[i][2] = lm[v[i][1]].obs /\ v[i][3] = lm[v[i][1]].frozen
    [] k = "lmposes" ->
        /\ {v[i][1] : i \in DOMAIN v} = {j \in DOMAIN lm : lm[j].pose # <<>>} /\ Len(v) = Cardinality({j \in DOMAIN lm : lm[j].pose # <<>>})
        /\ \A i \in DOMAIN v : IF Len(lm[v[i][1]].pose) = 3 THEN NearP(v[i][2], lm[v[i][1]].pose, 1)
                                ELSE Fixed => NearP(v[i][2], In.landmarks[v[i][1]], 30)
    [] k = "l2g" -> Fixed => \A t \in 0..3 : (P!Known(t) \/ init[t] # <<>>) => NearP(v[t + 1], <<Off(t)[1], Off(t)[2], 0>>, 5)
    [] OTHER -> FALSE
\* Poses of frozen trajectories seen in an observation must stay.
Froz(k, v) ==
  IF k = "nodes" THEN
    LET F == {i \in DOMAIN v : st[v[i][1]] = "FROZEN"} IN
    TLCEval([x \in DOMAIN fz \cup {<<v[i][1], v[i][2]>> : i \in F} |->
      IF x \in DOMAIN fz THEN fz[x] ELSE v[CHOOSE i \in F : <<v[i][1], v[i][2]>> = x][5]])
  ELSE IF k = "submaps" THEN
    LET F == {i \in DOMAIN v : st[v[i][1]] = "FROZEN"} IN
    TLCEval([x \in DOMAIN fz \cup {<<v[i][1], v[i][2], 0>> : i \in F} |->
      IF x \in DOMAIN fz THEN fz[x] ELSE v[CHOOSE i \in F : <<v[i][1], v[i][2], 0>> = x][4]])
  ELSE fz
\* The event of the observation of client c (it has returned by then).
ObsOf(c) == LET j == CHOOSE j \in l..Len(Tr) : Tr[j].e = "Obs" /\ Tr[j].c = c /\ \A i \in l..(j-1) : ~(Tr[i].e = "Obs" /\ Tr[i].c = c)
            IN Tr[j]
HasObs(c) == \E j \in l..Len(Tr) : Tr[j].e = "Obs" /\ Tr[j].c = c
Look == \E c \in Clients :
  /\ pc[c].o = "obs" /\ pc[c].s = 1 /\ l <= Len(Tr) /\ UNCHANGED <<tid, l, pg>>
  /\ HasObs(c)
  /\ MayAct(c)
  /\ LET e == ObsOf(c) IN (Matches(e.k, e.v)) = TRUE /\ fz' = Froz(e.k, e.v)
  /\ Set(c, [pc[c] EXCEPT !.s = 2])
Obs == /\ Is("Obs") /\ pc[Ev.c].o = "obs" /\ pc[Ev.c].s = 2 /\ Set(Ev.c, Idle0) /\ UNCHANGED <<fz, pg>>
\* ---- destruction waits for all work
Destroy == Is("Destroy") /\ (\A c \in Clients : pc[c] = Idle0) /\ UNCHANGED <<fz, pc, pg>>
Gone == Is("Gone") /\ P!Collect /\ UNCHANGED <<fz, pc>>
\* A request is refused: the process ends.
Refused == (\/ \E c \in Clients : pc[c].o = "node" /\ pc[c].s = 1 /\ ~P!Open(pc[c].t)
            \/ P!HeadRefused) = TRUE
Crash == Is("Crash") /\ Refused /\ l = Len(Tr) /\ UNCHANGED <<fz, pc, pg>>
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, pc, fz, pg>>
Next == \/ NodeEnq
        \/ OpStep
        \/ /\ UNCHANGED mq
           /\ (NodeCall \/ NodeAppend \/ NodeRet \/ OpCall \/ OpRet \/ Work \/ Opt
               \/ ObsCall \/ Look \/ Obs \/ Destroy \/ Gone \/ Crash \/ Lk \/ Accept)
Spec == Init /\ [][Next]_vars
Consistent == P!Referential /\ P!ProblemShown /\ P!InterSound /\ P!DeletedGone
=============================================================================
