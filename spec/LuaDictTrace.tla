----------------------------- MODULE LuaDictTrace -----------------------------
EXTENDS LuaDict, Json, IOUtils
VARIABLES tid, l, hs, pend
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
In == Traces[tid].in
Ev == Tr[l]
vars == <<tid, l, hs, pend>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ hs = <<>> /\ pend = <<>>
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
\* Every operation is announced, then either answered or refused (Crash).
Op == Is("Op") /\ pend = <<>> /\ pend' = <<Ev>> /\ UNCHANGED hs
P == pend[1]
H == hs[P.h]
Set(f, k, x) == TLCEval([i \in DOMAIN f \cup {k} |-> IF i = k THEN x ELSE f[i]])
Without(f, k) == TLCEval([i \in DOMAIN f \ {k} |-> f[i]])
Answer(P0) == Is(P0) /\ pend # <<>> /\ pend' = <<>>
Res(op) == IF P.k \in Names(H.v) THEN Get(op, At(H.v, P.k)) ELSE <<>>
Prog == Program(In.files, In.main)
Ret ==
  /\ Answer("Ret")
  /\ CASE P.op = "load" -> (LET r == Prog IN r.ok /\ hs' = Set(hs, P.h, Handle(r.v, P.rc)))
       [] P.op \in {"S", "D", "I", "N", "B"} ->
            (/\ (Res(P.op) # <<>> /\ Ev.v = Res(P.op)) = TRUE
             /\ hs' = Set(hs, P.h, Touch(H, P.k)))
       [] P.op = "T" -> (/\ (Res("T") # <<>>) = TRUE
                         /\ hs' = Set(Set(hs, P.h, Touch(H, P.k)), P.nh, Handle(Res("T")[1], H.rc)))
       [] P.op = "has" -> Ev.v = (P.k \in Names(H.v)) /\ UNCHANGED hs
       [] P.op = "keys" -> (/\ Len(Ev.v) = Cardinality(Names(H.v))
                            /\ ({Ev.v[i] : i \in DOMAIN Ev.v} = Names(H.v)) = TRUE
                            /\ UNCHANGED hs)
       [] P.op = "aS" -> (ArrOk("S", H.v) /\ Ev.v = Arr("S", H.v)) = TRUE /\ UNCHANGED hs
       [] P.op = "aD" -> (ArrOk("D", H.v) /\ Ev.v = Arr("D", H.v)) = TRUE /\ UNCHANGED hs
       [] P.op = "aT" -> (/\ (ArrOk("T", H.v) /\ Ev.v = Len(H.v[2])) = TRUE
                          /\ hs' = TLCEval([i \in DOMAIN hs \cup (P.nh..(P.nh + Len(H.v[2]) - 1)) |->
                                              IF i \in DOMAIN hs THEN hs[i] ELSE Handle(H.v[2][i - P.nh + 1], H.rc)]))
       \* printed and evaluated again: the same dictionary, printed the same
       [] P.op = "print" -> Ev.same /\ hs' = Set(hs, P.nh, Handle(H.v, FALSE))
       [] P.op = "close" -> MayClose(H) = TRUE /\ hs' = Without(hs, P.h)
\* Refusals
Crash ==
  /\ Answer("Crash") /\ UNCHANGED hs
  /\ CASE P.op = "load" -> ~Prog.ok
       [] P.op \in {"S", "D", "I", "N", "B", "T"} -> (Res(P.op) = <<>>) = TRUE
       [] P.op = "aS" -> (~ArrOk("S", H.v)) = TRUE
       [] P.op = "aD" -> (~ArrOk("D", H.v)) = TRUE
       [] P.op = "aT" -> (~ArrOk("T", H.v)) = TRUE
       [] P.op = "close" -> (~MayClose(H)) = TRUE
       [] OTHER -> FALSE
\* Options: what the configuration says and what the options message holds,
\* both as sequences of <<path, value>>.
SetOf(s) == {s[i] : i \in DOMAIN s}
Options == /\ Is("Options") /\ UNCHANGED <<hs, pend>>
           /\ (Len(Ev.lua) > 10 /\ SetOf(Ev.lua) = SetOf(Ev.proto) /\ Len(Ev.lua) = Len(Ev.proto)) = TRUE
\* Contradictory options are refused.
OneKind == Is("OneKind") /\ l < Len(Tr) /\ Tr[l + 1].e = "Crash" /\ l' = l + 1 /\ UNCHANGED <<hs, pend>>
OneKindCrash == Is("Crash") /\ l > 1 /\ Tr[l - 1].e = "OneKind" /\ UNCHANGED <<hs, pend>>
Accept == l = Len(Tr) + 1 /\ pend = <<>> /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, hs, pend>>
Next == Op \/ Ret \/ Crash \/ Options \/ OneKind \/ OneKindCrash \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
