--------------------------- MODULE RangeCollatorMC ---------------------------
(* All short arrival sequences. Clouds: every sorted choice of at most Pts    *)
(* point times among the offsets Offs before the cloud's time.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sensors, Depth, Dts, Shapes, Gen
VARIABLES hist, now, sent, got, pend, cend, out
R == INSTANCE RangeCollator
vars == <<hist, now, sent, got, pend, cend, out>>
Init == hist = <<>> /\ now = 4 /\ sent = {} /\ got = {} /\ R!RCInit(Sensors)
Shape == <<<<0>>, <<-2, 0>>, <<-3, -1>>, <<-1, 0, 0>>, <<>>>>
Cloud(k, time, n) == [time |-> time, pts |-> [i \in DOMAIN Shape[k] |-> [t |-> time + Shape[k][i], id |-> <<n, i>>]]]
Arrive(s, dt, k) ==
  LET m == Cloud(k, now + dt, Len(hist)) IN
  /\ Len(hist) < Depth /\ now' = now + dt
  /\ hist' = Append(hist, [s |-> s, time |-> now + dt, k |-> k])
  /\ R!Add(s, m)
  /\ sent' = TLCEval(sent \cup {m.pts[i] : i \in DOMAIN m.pts})
  /\ got' = TLCEval(IF out' = <<>> THEN got ELSE got \cup {[id |-> p.id, t |-> p.t, lo |-> cend, hi |-> out'.time] : p \in out'.pts})
Emit == Gen /\ Len(hist) = Depth /\ PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE /\ UNCHANGED vars
Next == (\E s \in Sensors, dt \in Dts, k \in Shapes : Arrive(s, dt, k)) \/ Emit
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Once == \A g, h \in got : g.id = h.id => g = h
InInterval == \A g \in got : g.lo <= g.t /\ g.t <= g.hi
Monotone == [][cend' >= cend]_vars
\* Nothing of a delivered interval stays behind.
Complete == [][out' # <<>> => \A s \in Sensors : pend'[s] # <<>> => \A i \in DOMAIN pend'[s].pts : pend'[s].pts[i].t > cend' \/ pend'[s].pts[i].id[1] = Len(hist)]_vars
\* A point not delivered is buffered, or came after its interval.
Buffered == UNION {IF pend[s] = <<>> THEN {} ELSE {pend[s].pts[i].id : i \in DOMAIN pend[s].pts} : s \in Sensors}
NoLoss == [][\A p \in sent' : p.id \in {g.id : g \in got'} \/ p.id \in Buffered' \/ p.id \notin Buffered \/ p.t < cend]_vars
Passing == Cardinality(Sensors) = 1 => \A s \in Sensors : pend[s] = <<>>
=============================================================================
