----------------------------- MODULE MapFileMC -----------------------------
(* Building, saving, loading and merging of small maps.                      *)
EXTENDS MapFile
CONSTANTS MaxTrajs, MaxThings, Data
VARIABLES m, f, have
vars == <<m, f, have>>
NoFile == Saved(EmptyMap, TRUE)
Init == m = EmptyMap /\ f = NoFile /\ have = FALSE
Trajs == 0..(Len(m.opts) - 1)
Size == Len(m.nodes) + Len(m.odo) + Len(m.lmo) + Cardinality({i \in DOMAIN m.cons : m.cons[i].inter})
Of(s, t) == SelectSeq(s, LAMBDA x : x.tr = t)
State(t) == (CHOOSE x \in Rng(m.st) : x.tr = t).s
Traj == /\ Len(m.opts) < MaxTrajs /\ UNCHANGED <<f, have>>
        /\ m' = [m EXCEPT !.opts = Append(@, Len(m.opts) + 10), !.st = Append(@, [tr |-> Len(m.opts), s |-> "a"])]
Room == Size < MaxThings /\ UNCHANGED <<f, have>>
\* A node comes with a submap it is part of.
Node(t) == /\ Room /\ State(t) = "a" /\ LET k == Len(Of(m.nodes, t)) s == Len(Of(m.subs, t)) IN
              \E new \in BOOLEAN : /\ new \/ s > 0
                /\ LET q == IF new THEN s ELSE s - 1 IN
                   m' = [m EXCEPT !.nodes = Append(@, [tr |-> t, n |-> k, v |-> k]),
                                  !.subs = IF new THEN Append([i \in DOMAIN @ |-> IF @[i].tr = t THEN [@[i] EXCEPT !.fin = TRUE] ELSE @[i]],
                                                              [tr |-> t, n |-> s, fin |-> FALSE, v |-> s]) ELSE @,
                                  !.cons = Append(@, [st |-> t, sn |-> q, nt |-> t, nn |-> k, inter |-> FALSE, v |-> 0])]
Loop == Room /\ \E a \in Rng(m.nodes), s \in Rng(m.subs) :
           /\ s.fin /\ \A c \in Rng(m.cons) : <<c.st, c.sn, c.nt, c.nn>> # <<s.tr, s.n, a.tr, a.n>>
           /\ m' = [m EXCEPT !.cons = Append(@, [st |-> s.tr, sn |-> s.n, nt |-> a.tr, nn |-> a.n, inter |-> TRUE, v |-> 1])]
Odometry(t) == Data /\ Room /\ State(t) = "a" /\ m' = [m EXCEPT !.odo = Append(@, [tr |-> t, v |-> Len(Of(m.odo, t))])]
Landmark(t) == Data /\ Room /\ State(t) = "a" /\ m' = [m EXCEPT !.lmo = Append(@, [tr |-> t, id |-> "L", v |-> 0]), !.lmp = <<[id |-> "L", v |-> 0]>>]
Save == have' = TRUE /\ m' = m /\ \E inc \in BOOLEAN : f' = TLCEval(Saved(m, inc))
Fresh == have /\ m # EmptyMap /\ m' = EmptyMap /\ UNCHANGED <<f, have>>
Remappings(a, b) == {r \in [Rng(b.trajs) -> Len(a.opts)..(Len(a.opts) + Len(b.trajs) - 1)] : Remapping(a, b, r)}
Load == /\ have /\ Len(m.opts) + Len(f.trajs) <= MaxTrajs /\ UNCHANGED <<f, have>>
        /\ \E r \in Remappings(m, f), z \in BOOLEAN : m' = TLCEval(Loaded(m, f, r, z))
Next == Traj \/ (\E t \in Trajs : Node(t) \/ Odometry(t) \/ Landmark(t)) \/ Loop \/ Save \/ Fresh \/ Load
Spec == Init /\ [][Next]_vars

SubIds(x) == {<<x.subs[i].tr, x.subs[i].n>> : i \in DOMAIN x.subs}
\* Constraints always tie a node and a submap that are there.
Tied(x) == \A c \in Rng(x.cons) : <<c.nt, c.nn>> \in NodeIds(x) /\ <<c.st, c.sn>> \in SubIds(x)
MapTied == Tied(m)
FileTied == Tied(f)
\* No id is used twice.
Unique(x) == Cardinality(NodeIds(x)) = Len(x.nodes) /\ Cardinality(SubIds(x)) = Len(x.subs)
MapUnique == Unique(m) /\ Len(m.st) = Len(m.opts)
\* A loaded file, saved again, is the same file up to the ids of trajectories.
Relabelled(b, r) ==
  [b EXCEPT !.trajs = [i \in DOMAIN @ |-> r[@[i]]], !.nodes = Moved(r, @), !.subs = Moved(r, @), !.lmo = Moved(r, @),
            !.imu = Moved(r, @), !.odo = Moved(r, @), !.ff = Moved(r, @), !.td = Moved(r, @),
            !.cons = Map1(@, LAMBDA c : [c EXCEPT !.st = r[c.st], !.nt = r[c.nt]])]
RoundTrip == \A r \in Remappings(EmptyMap, f) :
               LET g == Saved(Loaded(EmptyMap, f, r, FALSE), TRUE) IN
               SameFile(g, Relabelled(f, r)) /\ \A t \in Rng(f.trajs) : g.opts[r[t]] = f.opts[t]
\* A frozen map has every node and submap of the file and no constraint.
Frozen == \A r \in Remappings(EmptyMap, f) :
            LET g == Loaded(EmptyMap, f, r, TRUE) IN
            SameByTrajectory(g.nodes, Moved(r, f.nodes)) /\ SameByTrajectory(g.subs, Moved(r, f.subs)) /\ g.cons = <<>>
\* Loading adds: what was there, stays.
Additive == [][Load => LET old(s) == SelectSeq(s, LAMBDA x : x.tr < Len(m.opts)) IN
                       /\ old(m'.nodes) = m.nodes /\ old(m'.subs) = m.subs /\ old(m'.odo) = m.odo
                       /\ SubSeq(m'.cons, 1, Len(m.cons)) = m.cons /\ SubSeq(m'.opts, 1, Len(m.opts)) = m.opts]_vars
=============================================================================
