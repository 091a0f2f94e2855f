--------------------------- MODULE BlockingQueueMC ---------------------------
EXTENDS BlockingQueue, TLC
CONSTANTS MaxPush, Cap
VARIABLE n
Init == BQInit /\ cap = Cap /\ n = 0
Next == \/ \E t \in Threads, op \in {"push", "pushT"} :
             n < MaxPush /\ Call(t, op, n + 1) /\ n' = n + 1
        \/ \E t \in Threads, op \in {"pop", "popT", "peek", "size", "wait"} : Call(t, op, 0) /\ n' = n
        \/ \E t \in Threads : Lin(t) /\ n' = n
        \/ \E t \in Threads : Ret(t, pend[t].res) /\ n' = n
Spec == Init /\ [][Next]_<<bqvars, n>> /\ \A t \in Threads : WF_bqvars(Lin(t)) /\ WF_bqvars(Ret(t, pend[t].res))
NoDup == \A i, j \in DOMAIN popped : i # j => popped[i] # popped[j]
Symm == Permutations(Threads)
=============================================================================
