------------------------------ MODULE PipelineMC ------------------------------
(* Small pipelines on a fixed stream: passes end, attributes stay attached,   *)
(* points at the end are points that were sent, in order, and every writer    *)
(* holds exactly what reached it in the last pass.                            *)
EXTENDS Pipeline
CONSTANTS N
VARIABLES st, at, res, sent, got, passes, pipe
Stages == {[k |-> "count"], [k |-> "frame", keep |-> <<"a">>, drop |-> <<>>], [k |-> "frame", keep |-> <<>>, drop |-> <<"a">>],
           [k |-> "range", min |-> 4, max |-> 12], [k |-> "vert", min |-> 0, max |-> 4], [k |-> "ratio", a |-> 4],
           [k |-> "outlier", lim |-> 2], [k |-> "restart", n |-> 1], [k |-> "ply"]}
P(x, z) == <<x, 0, z>>
Batches == << [frame |-> "a", org |-> P(0, 0), pts |-> <<P(4, 0), P(8, 0), P(16, 0)>>, ints |-> <<1, 2, 3>>, cols |-> <<>>],
              [frame |-> "b", org |-> P(4, 0), pts |-> <<P(8, 0), P(4, 8)>>, ints |-> <<5, 6>>, cols |-> <<>>] >>
Pipes == UNION {[1..n -> Stages] : n \in 0..N}
Init == pipe \in Pipes /\ st = [i \in DOMAIN pipe |-> Start(pipe[i])] /\ at = 1 /\ res = "run" /\ got = <<>> /\ passes = 1 /\ sent = <<>>
Send == /\ res = "run" /\ at <= Len(Batches)
        /\ LET f == Feed(st, 1, Batches[at]) IN st' = f[2] /\ got' = IF f[1] = <<>> THEN got ELSE Append(got, f[1])
        /\ at' = at + 1 /\ UNCHANGED <<res, passes, pipe, sent>>
Fl == /\ res = "run" /\ at > Len(Batches)
      /\ LET f == Flush(st, 1) IN /\ st' = f[2]
           /\ IF f[1] = "again" THEN res' = "run" /\ at' = 1 /\ passes' = passes + 1 /\ got' = <<>>
              ELSE res' = f[1] /\ UNCHANGED <<at, passes, got>>
      /\ UNCHANGED <<pipe, sent>>
Next == Send \/ Fl
Spec == Init /\ [][Next]_<<st, at, res, sent, got, passes, pipe>> /\ WF_<<st, at, res, sent, got, passes, pipe>>(Next)
Attached == \A k \in DOMAIN got : Len(got[k].ints) = Len(got[k].pts) /\
   \E j \in DOMAIN Batches : \E f \in [DOMAIN got[k].pts -> DOMAIN Batches[j].pts] :
      (\A i \in DOMAIN f : got[k].pts[i] = Batches[j].pts[f[i]] /\ got[k].ints[i] = Batches[j].ints[f[i]]) /\ (\A i, m \in DOMAIN f : i < m => f[i] < f[m])
Bounded == passes <= 3 * N + 1
Writers == res = "done" => \A i \in DOMAIN st : st[i].k = "ply" => st[i].n = Len(st[i].rows)
LastWriter == (res = "done" /\ Len(st) > 0 /\ st[Len(st)].k = "ply") =>
   LET RECURSIVE Tot(_) Tot(k) == IF k = 0 THEN 0 ELSE Len(got[k].pts) + Tot(k - 1) IN st[Len(st)].n = Tot(Len(got))
Ends == <>(res # "run")
=============================================================================
