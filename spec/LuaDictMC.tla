------------------------------ MODULE LuaDictMC ------------------------------
\* A counted dictionary over a table with a value of every type, read by every
\* sequence of at most MaxOps reads; every history is replayed into the code.
EXTENDS LuaDict, Json
CONSTANTS MaxOps, Gen
VARIABLES h, hist, over, seen
Dict == <<"t", <<>>, <<"a", "b", "c">>, <<<<"n", -1500, "-1.5">>, <<"s", "7", TRUE, 7000>>, <<"b", TRUE>>>>>>
vars == <<h, hist, over, seen>>
Init == h = Handle(Dict, TRUE) /\ hist = <<>> /\ over = "" /\ seen = [k \in Names(Dict) |-> 0]
Read(op, k) ==
  /\ over = "" /\ Len(hist) < MaxOps
  /\ hist' = Append(hist, <<op, k>>)
  /\ IF k \in Names(Dict) /\ (IF k \in Names(Dict) THEN Get(op, At(Dict, k)) # <<>> ELSE FALSE)
     THEN h' = Touch(h, k) /\ seen' = [seen EXCEPT ![k] = @ + 1] /\ over' = over
     ELSE over' = "refused" /\ UNCHANGED <<h, seen>>
Close == /\ over = "" /\ over' = (IF MayClose(h) THEN "closed" ELSE "complained") /\ UNCHANGED <<h, seen>>
         /\ hist' = Append(hist, <<"close", "">>)
Out == Gen /\ over # "" /\ PrintT(<<"GEN", ToJson(hist)>>) /\ FALSE /\ UNCHANGED vars
Next == Close \/ Out \/ \E op \in {"S", "D", "I", "N", "B"}, k \in {"a", "b", "c", "d"} : Read(op, k)
Spec == Init /\ [][Next]_vars
\* Every unread or doubly read key is reported, and nothing else is.
Reported == (over = "closed") <=> (over \in {"closed", "complained"} /\ \A k \in Names(Dict) : seen[k] = 1)
\* Only values of the right type are handed out.
Typed == \A i \in DOMAIN hist : hist[i][1] = "B" /\ (i < Len(hist) \/ over = "") => hist[i][2] = "c"
=============================================================================
