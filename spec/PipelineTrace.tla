---------------------------- MODULE PipelineTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l, st, due
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
P == INSTANCE Pipeline
vars == <<tid, l, st, due>>
\* due: what must happen next: <<"idle">>, <<"out", batch>>, <<"flush", result>>, <<"refused">>, <<"files">>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ due = <<"idle">>
        /\ st = [i \in DOMAIN Traces[tid].in.pipe |-> P!Start(Traces[tid].in.pipe[i])]
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
B(i) == LET b == In.batches[i] IN [frame |-> b.frame, org |-> b.org, pts |-> b.pts, ints |-> b.ints, cols |-> b.cols]
Send == /\ Is("In") /\ due = <<"idle">>
        /\ LET f == TLCEval(P!Feed(st, 1, B(Ev.i))) IN
           /\ st' = f[2]
           /\ due' = IF f[3] THEN <<"refused">> ELSE IF f[1] = <<>> THEN <<"idle">> ELSE <<"out", f[1], Ev.i>>
Same(o, b, i) == /\ o.frame = b.frame /\ o.org = b.org /\ o.pts = b.pts /\ o.ints = b.ints /\ o.cols = b.cols
                 /\ o.traj = In.batches[i].traj /\ o.time = In.batches[i].time
Out == /\ Is("Out") /\ due[1] = "out" /\ Same(Ev.b, due[2], due[3]) = TRUE /\ due' = <<"idle">> /\ UNCHANGED st
\* A batch without points need not arrive.
Skip == /\ due[1] = "out" /\ due[2].pts = <<>> /\ (l <= Len(Tr) => Ev.e # "Out")
        /\ due' = <<"idle">> /\ UNCHANGED <<tid, l, st>>
Flush == /\ Is("Flush") /\ due = <<"idle">>
         /\ LET f == TLCEval(P!Flush(st, 1)) IN st' = f[2] /\ due' = IF f[1] = "refused" THEN <<"refused">> ELSE <<"flush", f[1]>>
Flushed == /\ Is("Flushed") /\ due = <<"flush", Ev.r>> /\ UNCHANGED st
           /\ due' = IF Ev.r = "again" THEN <<"idle">> ELSE <<"files">>
Crash == Is("Crash") /\ due = <<"refused">> /\ UNCHANGED <<st, due>>
\* The file written by stage i.
File == /\ Is("File") /\ due = <<"files">> /\ UNCHANGED <<st, due>>
        /\ LET s == st[Ev.i] IN
           /\ (s.k = Ev.kind) = TRUE
           /\ Ev.ok /\ Ev.declared = (IF s.k = "xyz" THEN -1 ELSE s.n)
           /\ Ev.c = s.c /\ Ev.int = s.i
           /\ (Ev.rows = s.rows) = TRUE
\* A file that cannot be written is reported, at the latest when closing.
Fail == Is("Fail") /\ ~Ev.ok /\ UNCHANGED <<st, due>>
Accept == l = Len(Tr) + 1 /\ due # <<"refused">> /\ due[1] \in {"files", "idle", "refused"} /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, st, due>>
AcceptCrash == l = Len(Tr) + 1 /\ due = <<"refused">> /\ l > 1 /\ Tr[l - 1].e = "Crash" /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, st, due>>
Next == Send \/ Out \/ Skip \/ Flush \/ Flushed \/ Crash \/ File \/ Fail \/ Accept \/ AcceptCrash
Spec == Init /\ [][Next]_vars
=============================================================================
