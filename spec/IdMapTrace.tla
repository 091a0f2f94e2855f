----------------------------- MODULE IdMapTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, data, closed
M == INSTANCE IdMap
mv == <<data, closed>>
Tr == Traces[tid].ev
Ev == Tr[l]
Init == tid \in 1..Len(Traces) /\ l = 1 /\ M!IdInit
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
V == [n |-> Ev.n, time |-> Ev.time]
\* The call is logged before it is made, its result after; a call that must be
\* refused ends the run.
Refused == l + 1 = Len(Tr) /\ Tr[l + 1].e = "Crash"
Returned == l < Len(Tr) /\ Tr[l + 1].e # "Crash"
App == /\ Is("append")
       /\ IF M!CanAppend(Ev.t) THEN Returned /\ M!Append1(Ev.t, Tr[l + 1].i, V) /\ Tr[l + 1].t = Ev.t
          ELSE Refused /\ UNCHANGED mv
Ins == /\ Is("insert")
       /\ IF M!CanInsert(Ev.t, Ev.i) THEN Returned /\ M!Insert(Ev.t, Ev.i, V) ELSE Refused /\ UNCHANGED mv
Trm == /\ Is("trim")
       /\ IF M!CanTrim(Ev.t, Ev.i) THEN Returned /\ M!Trim(Ev.t, Ev.i) ELSE Refused /\ UNCHANGED mv
St == Is("set") /\ Returned /\ M!Set(Ev.t, Ev.i, V)
Ret == Is("ret") /\ UNCHANGED mv
Crash == Is("Crash") /\ UNCHANGED mv
Rec(id) == <<id[1], id[2], data[id].n, data[id].time>>
Recs(ids) == [k \in DOMAIN ids |-> Rec(ids[k])]
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
All == M!Sort(DOMAIN data)
Trajs == {id[1] : id \in DOMAIN data}
RECURSIVE SortInts(_)
SortInts(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortInts(S \ {m})
Obs == /\ Is("obs") /\ UNCHANGED mv
       /\ LET all == TLCEval(All) IN
          /\ Ev.all = Recs(all) /\ Ev.rev = Rev(Recs(all)) /\ Ev.size = Len(all) /\ Ev.empty = (all = <<>>)
          /\ Ev.trajs = SortInts(Trajs)
       /\ \A t \in 0..4 :
            LET of == TLCEval(M!Sort(M!Of(t))) IN
            /\ Ev.of[t + 1] = Recs(of) /\ Ev.sz[t + 1] = Len(of)
            /\ Ev.rof[t + 1] = Rev(Recs(of))
       /\ \A k \in DOMAIN Ev.find :
            LET f == Ev.find[k] IN
            /\ f.c = (f.id \in DOMAIN data) /\ f.f = (IF f.id \in DOMAIN data THEN Rec(f.id) ELSE <<>>)
            /\ f.at = f.f
       /\ \A k \in DOMAIN Ev.lb :
            LET b == Ev.lb[k]  x == M!LowerBound(b.t, b.time)  y == M!EndOf(b.t) IN
            b.r = (IF x # <<>> THEN Rec(x) ELSE IF y # <<>> THEN Rec(y) ELSE <<>>)
End == Is("End") /\ UNCHANGED mv
Accept == l = Len(Tr) + 1 /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, mv>>
Next == App \/ Ins \/ Trm \/ St \/ Ret \/ Crash \/ Obs \/ End \/ Accept
Spec == Init /\ [][Next]_<<tid, l, mv>>
=============================================================================
