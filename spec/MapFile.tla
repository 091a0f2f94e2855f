------------------------------- MODULE MapFile -------------------------------
(* Saving and loading maps (mapping/map_builder.cc SerializeState/LoadState,  *)
(* io/internal/mapping_state_serialization.cc, mapping/pose_graph.cc).        *)
(* A map is what the interface of the map builder shows: the trajectories     *)
(* with their state and options, nodes, submaps, constraints, landmarks,      *)
(* sensor data. Contents that are only carried along (poses, scans, grids)    *)
(* are opaque values.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[i] : i \in DOMAIN s}
Filter(s, P(_)) == SelectSeq(s, P)
Map1(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

EmptyMap == [st |-> <<>>, opts |-> <<>>, nodes |-> <<>>, subs |-> <<>>, cons |-> <<>>, lmp |-> <<>>, lmo |-> <<>>,
             imu |-> <<>>, odo |-> <<>>, ff |-> <<>>, td |-> <<>>]

\* What the file of a map contains. Submaps that still grow are left out on
\* request, with their constraints; their nodes stay.
Present(m) == {m.subs[i].tr : i \in DOMAIN m.subs} \cup {m.nodes[i].tr : i \in DOMAIN m.nodes}
Saved(m, inc) ==
  LET keep == {<<m.subs[i].tr, m.subs[i].n>> : i \in {j \in DOMAIN m.subs : inc \/ m.subs[j].fin}}
      open == {<<m.subs[i].tr, m.subs[i].n>> : i \in DOMAIN m.subs} \ keep
  IN [trajs |-> SeqOf(Present(m)),
      nodes |-> m.nodes,
      subs |-> SelectSeq(m.subs, LAMBDA s : <<s.tr, s.n>> \in keep),
      cons |-> SelectSeq(m.cons, LAMBDA c : <<c.st, c.sn>> \notin open),
      lmp |-> m.lmp, lmo |-> m.lmo, imu |-> m.imu, odo |-> m.odo, ff |-> m.ff, td |-> m.td,
      opts |-> [t \in Present(m) |-> m.opts[t + 1]]]

\* The trajectories of the file get the next free ids: r maps the ids of the
\* file to those of the map.
Remapping(m, f, r) == /\ DOMAIN r = Rng(f.trajs) /\ {r[t] : t \in DOMAIN r} = Len(m.opts)..(Len(m.opts) + Len(f.trajs) - 1)
Moved(r, s) == Map1(SelectSeq(s, LAMBDA x : x.tr \in DOMAIN r), LAMBDA x : [x EXCEPT !.tr = r[x.tr]])
Named(s) == {s[i].id : i \in DOMAIN s}
\* Loading adds the file to the map: nothing that was there changes, except
\* that landmarks of the file get the pose of the file.
Loaded(m, f, r, frozen) ==
  LET move(s) == Moved(r, s) data(s) == IF frozen THEN <<>> ELSE Moved(r, s) n == Len(m.opts)
      from(k) == CHOOSE t \in DOMAIN r : r[t] = n + k - 1 IN
  [st |-> m.st \o [k \in DOMAIN f.trajs |-> [tr |-> n + k - 1, s |-> IF frozen THEN "z" ELSE "a"]],
   opts |-> m.opts \o [k \in DOMAIN f.trajs |-> f.opts[from(k)]],
   nodes |-> m.nodes \o move(f.nodes),
   subs |-> m.subs \o move(f.subs),
   cons |-> m.cons \o (IF frozen THEN <<>> ELSE Map1(f.cons, LAMBDA c : [c EXCEPT !.st = r[c.st], !.nt = r[c.nt]])),
   lmp |-> SelectSeq(m.lmp, LAMBDA l : l.id \notin Named(f.lmp)) \o f.lmp,
   lmo |-> m.lmo \o data(f.lmo),
   imu |-> m.imu \o data(f.imu), odo |-> m.odo \o data(f.odo), ff |-> m.ff \o data(f.ff),
   td |-> m.td \o move(f.td)]

\* Two maps are the same if they have the same constraints in the same order,
\* and the same things in the same order for every trajectory; observations
\* of landmarks are in order per landmark.
SameByTrajectory(a, b) ==
  /\ Len(a) = Len(b) /\ \A t \in {a[i].tr : i \in DOMAIN a} : SelectSeq(a, LAMBDA x : x.tr = t) = SelectSeq(b, LAMBDA x : x.tr = t)
SameSet(a, b) == Len(a) = Len(b) /\ Rng(a) = Rng(b)
SameLandmarks(a, b) ==
  /\ SameSet(a.lmp, b.lmp) /\ Len(a.lmo) = Len(b.lmo)
  /\ \A id \in Named(a.lmo) : SelectSeq(a.lmo, LAMBDA o : o.id = id) = SelectSeq(b.lmo, LAMBDA o : o.id = id)
SameContent(a, b) == /\ SameByTrajectory(a.nodes, b.nodes) /\ SameByTrajectory(a.subs, b.subs) /\ a.cons = b.cons /\ SameLandmarks(a, b)
                     /\ SameByTrajectory(a.imu, b.imu) /\ SameByTrajectory(a.odo, b.odo) /\ SameByTrajectory(a.ff, b.ff)
                     /\ SameSet(a.td, b.td)
SameMap(a, b) == SameContent(a, b) /\ SameSet(a.st, b.st) /\ a.opts = b.opts
SameFile(a, b) == SameContent(a, b) /\ SameSet(a.trajs, b.trajs)

Members(cons) == {<<cons[i].nt, cons[i].nn>> : i \in {j \in DOMAIN cons : ~cons[j].inter}}
NodeIds(m) == {<<m.nodes[i].tr, m.nodes[i].n>> : i \in DOMAIN m.nodes}
\* After deleting trajectory t nothing of it is left, except nodes that
\* belonged to no submap (theirs was not saved); the others keep everything.
Removed(m, t, loose, after) ==
  LET others(s) == SelectSeq(s, LAMBDA x : x.tr # t)
      ids(s) == Map1(s, LAMBDA x : <<x.tr, x.n, x.v>>)
      refs(c) == Map1(SelectSeq(c, LAMBDA x : x.st # t /\ x.nt # t), LAMBDA x : <<x.st, x.sn, x.nt, x.nn, x.inter, x.v>>)
  IN /\ ids(others(after.nodes)) = ids(others(m.nodes))
     /\ \A i \in DOMAIN after.nodes : after.nodes[i].tr = t => <<t, after.nodes[i].n>> \in loose
     /\ ids(others(after.subs)) = ids(others(m.subs)) /\ \A i \in DOMAIN after.subs : after.subs[i].tr # t
     /\ refs(after.cons) = refs(m.cons) /\ \A i \in DOMAIN after.cons : after.cons[i].st # t /\ after.cons[i].nt # t
     /\ after.opts = m.opts
     /\ after.st = Map1(m.st, LAMBDA x : IF x.tr = t THEN [tr |-> t, s |-> "d"] ELSE x)
     /\ others(after.odo) = others(m.odo) /\ others(after.ff) = others(m.ff) /\ others(after.imu) = others(m.imu)
=============================================================================
