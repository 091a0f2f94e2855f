----------------------- MODULE ConstraintBuilderTrace ------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, lo, ratio, smp, req, ended, cur, open, count, ann, fin, pend, calls
Traces == ndJsonDeserialize(IOEnv.TRACES)
C == INSTANCE ConstraintBuilder
cb == <<ratio, smp, req, ended, cur, open, count, ann, fin, pend, calls>>
vars == <<tid, l, lo, cb>>
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
Step == In.pool = "step"
Init == tid \in 1..Len(Traces) /\ l = 1 /\ lo = 0 /\ ratio = In.ratio4 /\ C!CBInit
At(e) == l <= Len(Tr) /\ Ev.e = e
Is(e) == At(e) /\ l' = l + 1 /\ tid' = tid
\* A match of quality q is found if it reaches the minimum score (local: three
\* quarters of the points suffice).
R == [s |-> Ev.s, n |-> Ev.n, hit |-> (IF Ev.o = "local" THEN Ev.q >= 1 ELSE Ev.q = 2),
      rel |-> <<100 * Ev.rx, 100 * Ev.ry>>]
Sq(x) == x * x
Near == (Sq(Ev.rx + Ev.ox) + Sq(Ev.ry) <= 900) = TRUE
Op == /\ Is("Op")
      /\ CASE Ev.o = "local" -> C!Add(R, Near)
           [] Ev.o = "global" -> C!AddGlobal(R)
           [] Ev.o = "end" -> C!EndNode
           [] Ev.o = "when" -> C!When
           [] Ev.o = "delete" -> C!Delete(Ev.s)
Visible == (At("Step") \/ At("Num") \/ At("Done")) = TRUE
Tol(a, b, t) == a - b <= t /\ b - a <= t
Fits(x, r) == /\ <<x[1], x[2]>> = r.s /\ <<x[3], x[4]>> = r.n
              /\ LET t == IF r.rel[1] > 2000 THEN 200 ELSE 80 IN Tol(x[5], r.rel[1], t) /\ Tol(x[6], r.rel[2], t) /\ Tol(x[7], 0, 100)
              /\ x[8] = 3000 /\ x[9] = 4000 /\ x[10] = 1
\* Work between two tasks: in steps the order of the computations matters.
Target == IF ~Step THEN count ELSE IF At("Num") THEN C!Computed ELSE Ev.searched
Work == /\ Visible /\ UNCHANGED <<tid, l>>
        /\ \/ /\ C!Computed < Target
              /\ IF Step THEN \E k \in DOMAIN req : C!Compute(k)
                 ELSE LET X == DOMAIN req \ ended IN X # {} /\ C!Compute(CHOOSE k \in X : \A j \in X : k <= j)
           \/ fin < Ev.num /\ (\E n \in DOMAIN open : C!Count(n))
StepEv == Is("Step") /\ Ev.searched = C!Computed /\ Ev.num = fin /\ UNCHANGED cb
\* The count is read between call and return.
NumCall == Is("NumCall") /\ lo' = fin /\ UNCHANGED cb
Num == Is("Num") /\ lo <= Ev.num /\ Ev.num <= fin /\ UNCHANGED cb
\* The callback gets exactly what was found.
Res == Ev.r
Matched == \* the results can be paired with the requests that hit
  LET F == {k \in DOMAIN req : req[k].hit}
      same(k) == {j \in F : req[j] = req[k]} IN
  /\ Len(Res) = Cardinality(F)
  /\ \A k \in F : Cardinality({i \in DOMAIN Res : Fits(Res[i], req[k])}) = Cardinality(same(k))
  /\ \A i \in DOMAIN Res : \E k \in F : Fits(Res[i], req[k])
Done == /\ Is("Done") /\ C!Call /\ Ev.k = calls' /\ (Matched) = TRUE /\ Ev.num = ann
        /\ Ev.searched = count
Idle == Is("Idle") /\ ~pend /\ Ev.done = calls /\ UNCHANGED cb
Quiet == ~pend /\ DOMAIN open = {} /\ DOMAIN req = {} /\ cur = {}
Destroy == Is("Destroy") /\ UNCHANGED cb
Gone == Is("Gone") /\ Quiet /\ UNCHANGED cb
\* A second callback cannot be asked for while one is pending.
Crash == /\ Is("Crash") /\ l = Len(Tr) /\ UNCHANGED cb
         /\ l > 1 /\ Tr[l-1].e = "Op" /\ Tr[l-1].o = "when" /\ In.twice
Twice == /\ Is("Op") /\ Ev.o = "when" /\ pend /\ Step /\ In.twice /\ l + 1 <= Len(Tr) /\ Tr[l+1].e = "Crash" /\ UNCHANGED cb
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, cb>>
Next == NumCall \/ (UNCHANGED lo /\ (Op \/ Work \/ StepEv \/ Num \/ Done \/ Idle \/ Destroy \/ Gone \/ Crash \/ Twice \/ Accept))
Spec == Init /\ [][Next]_vars
Counted == C!Counted
=============================================================================
