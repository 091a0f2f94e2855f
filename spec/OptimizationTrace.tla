-------------------------- MODULE OptimizationTrace --------------------------
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS Slack
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, opt, nodes, subs, odo, ffx, imu
ovars == <<opt, nodes, subs, odo, ffx, imu>>
O == INSTANCE Optimization WITH Traj <- 0..2
In == Traces[tid].in
Tr == Traces[tid].ev
Ev == Tr[l]
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ opt = [dim |-> In.dim, fixz |-> In.fixz, w |-> In.w] /\ O!OInit
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
NodeAdd == Is("Node") /\ O!AddNode(Ev.t, Ev.i, Ev.time, Ev.local)
Submap == Is("Submap") /\ O!AddSubmap(Ev.t, Ev.i)
Odom == Is("Odom") /\ O!AddOdometry(Ev.t, Ev.time, Ev.x)
Fixed == Is("Fixed") /\ O!AddFixed(Ev.t, Ev.time, Ev.has, Ev.x)
Imu == Is("Imu") /\ O!AddImu(Ev.t, Ev.time, Ev.x)
TrimNode == Is("TrimNode") /\ O!TrimNode(Ev.t, Ev.i)
TrimSubmap == Is("TrimSubmap") /\ O!TrimSubmap(Ev.t, Ev.i)
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---------------------------------------------------------------- results
\* Truth: all measurements agree; ev.els[i] has classes b (before) and a (after)
\* of equal displacement from the true world.
TruthOk(op, R, frozen, el) ==
  LET E == DOMAIN el
      rigid == {r \in R : r.rigid /\ r.w > 0 /\ r.wr > 0}
      Fast(e) == O!Constant(e, frozen, op.lm)
      Level(C) == ~O!Chain /\ opt.w.acc > 0 /\ opt.w.rot > 0 /\ \E n \in O!Triples(frozen) :
                      {O!Node(n), O!Node(O!Succ(n)), O!Node(O!Succ(O!Succ(n)))} \subseteq C
  IN \A e \in E :
       LET C == O!Closure({e}, rigid)
           still == {c \in C : Fast(c) \/ O!Held(c)}
           coherent == \A c, d \in still : el[c].b = el[d].b IN
       coherent =>
         /\ \A c \in C : el[c].a = el[e].a
         /\ \A c \in C : Fast(c) => el[e].a = el[c].b
         /\ Level(C) => el[e].tilt <= 8
\* Gravity (true value 9500) is estimated from the IMU when the motion is known.
GravityOk(op, R, frozen, g) ==
  LET rigid == {r \in R : r.rigid /\ r.w > 0 /\ r.wr > 0} IN
  IF O!Chain \/ In.mode # "truth" THEN TRUE
  ELSE \A i \in DOMAIN g :
         (\E n \in O!Triples(frozen) : n[1] = g[i].t
             /\ {O!Node(O!Succ(n)), O!Node(O!Succ(O!Succ(n)))} \subseteq O!Closure({O!Node(n)}, rigid))
           => Abs(g[i].g - 9500) <= 40
\* Balance: on every element that may move the weighted residuals pull equally.
\* The solver stops when a step would lower the cost by less than a millionth of
\* it, which bounds the remaining pull on e: pull^2 <= 10^-6 * stiffness * 2 cost.
BalanceOk(op, all, frozen, el) ==
  LET R == {[id |-> r.id, els |-> r.els, den |-> r.den, z |-> r.z, w |-> IF In.turn THEN r.wr ELSE r.w, wr |-> IF In.turn THEN r.w ELSE r.wr,
             h |-> r.h, rigid |-> r.rigid] : r \in {q \in all : ~(In.turn /\ q.id[1] = "acc") /\ ~(~In.turn /\ q.id[1] = "rot")}}
      huber == opt.w.huber * 1000
      d == [r \in R |-> (MapThenSumSet(LAMBDA p : p[2] * el[p[1]].x, r.els)) \div r.den - r.z]
      far == [r \in R |-> r.h /\ Abs(r.w * d[r]) > huber]
      F == [r \in R |-> IF far[r] THEN (IF d[r] > 0 THEN r.w * huber ELSE -(r.w * huber)) ELSE r.w * r.w * d[r]]
      Cm(x) == Abs(x) \div 10000 + 1
      cost == MapThenSumSet(LAMBDA r : IF far[r] THEN (2 * Cm(huber) * Cm(r.w * d[r])) ELSE Cm(r.w * d[r]) * Cm(r.w * d[r]), R) \div 100 + 1
      Coef(r, e) == (CHOOSE p \in r.els : p[1] = e)[2]
      On(e) == {r \in R : e \in O!Touches(r)}
      Pull(e) == Abs(MapThenSumSet(LAMBDA r : (F[r] \div r.den) * Coef(r, e), On(e))) \div 1000
      Stiff(e) == MapThenSumSet(LAMBDA r : (r.w * r.w * Coef(r, e) * Coef(r, e)) \div (r.den * r.den) + 1, On(e))
      \* With an IMU, what is not tied to a fixed orientation may tilt, and leave the line.
      rigid == {r \in R : r.rigid /\ r.w > 0 /\ r.wr > 0}
      fast == {e \in DOMAIN el : O!Constant(e, frozen, op.lm)}
      level == TLCEval({e \in DOMAIN el : O!Chain \/ (O!Closure({e}, rigid) \cap fast # {}) = TRUE})
      judged == {e \in level : \A r \in On(e) : O!Touches(r) \subseteq level}
  IN \A e \in judged :
       /\ el[e].line
       /\ \/ O!Constant(e, frozen, op.lm) \/ (O!Held(e) /\ (In.turn => In.axis = 2))
          \/ In.turn /\ In.axis # 2 /\ e[1] = "f"  \* fixed frames are level
          \/ Pull(e) < 20000 /\ Pull(e) * Pull(e) <= Slack * Slack + (Stiff(e) * cost) \div 25
SolvedOk(op, ev) ==
  LET frozen == {op.frozen[i] : i \in DOMAIN op.frozen}
      R == TLCEval(O!Residuals(op.cs, frozen, op.lm))
      E == O!Elements(op.cs, frozen, op.lm)
      ids == {<<ev.els[i].k, ev.els[i].t, ev.els[i].i>> : i \in DOMAIN ev.els}
      el == TLCEval([e \in ids |-> ev.els[CHOOSE i \in DOMAIN ev.els : <<ev.els[i].k, ev.els[i].t, ev.els[i].i>> = e]])
  IN /\ Len(ev.els) = Cardinality(ids)
     /\ E \subseteq ids /\ \A e \in ids \ E : e[1] = "f"
     /\ \A e \in ids :
          /\ (O!Constant(e, frozen, op.lm) \/ ~\E r \in R : e \in O!Touches(r)) => ~el[e].moved
          /\ O!Held(e) => ~el[e].shifted
          /\ In.mode = "truth" /\ O!Held(e) => el[e].yaw <= 20
     /\ IF In.mode = "truth" THEN TruthOk(op, R, frozen, [e \in E |-> el[e]]) ELSE BalanceOk(op, R, frozen, [e \in E |-> el[e]])
     /\ GravityOk(op, R, frozen, ev.grav)
\* A solve: the call and its result.
Solve == /\ Is("Solve") /\ UNCHANGED ovars
Solved == /\ Is("Solved") /\ l > 1 /\ Tr[l - 1].e = "Solve" /\ UNCHANGED ovars
          /\ (SolvedOk(Tr[l - 1], Ev)) = TRUE
End == Is("End") /\ UNCHANGED ovars
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, ovars>>
Next == NodeAdd \/ Submap \/ Odom \/ Fixed \/ Imu \/ TrimNode \/ TrimSubmap \/ Solve \/ Solved \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l, ovars>>
=============================================================================
