--------------------------- MODULE BlockingQueue ---------------------------
(* common::BlockingQueue as a linearizable bounded FIFO. Every operation is   *)
(* Call, one atomic effect (Lin), Ret.                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Threads

VARIABLES cap,      \* capacity (rigid); 0 means unbounded
          q,        \* queue contents
          pend,     \* pend[th]: <<>> or the pending operation
          pushed,   \* history: values in push order
          popped    \* history: values in pop order
bqvars == <<cap, q, pend, pushed, popped>>

NoOp == [op |-> "none", v |-> 0, done |-> FALSE, res |-> 0]
BQInit == q = <<>> /\ pend = [t \in Threads |-> NoOp] /\ pushed = <<>> /\ popped = <<>>

Full  == cap # 0 /\ Len(q) >= cap
Empty == q = <<>>

Call(t, op, v) == /\ pend[t] = NoOp
                  /\ pend' = [pend EXCEPT ![t] = [op |-> op, v |-> v, done |-> FALSE, res |-> 0]]
                  /\ UNCHANGED <<cap, q, pushed, popped>>

Set(t, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].res = r]
DoPush(t) == ~Full /\ q' = Append(q, pend[t].v) /\ pushed' = Append(pushed, pend[t].v)
             /\ Set(t, 1) /\ UNCHANGED <<cap, popped>>
DoPop(t)  == ~Empty /\ q' = Tail(q) /\ popped' = Append(popped, Head(q))
             /\ Set(t, Head(q)) /\ UNCHANGED <<cap, pushed>>
Observe(t, r) == Set(t, r) /\ UNCHANGED <<cap, q, pushed, popped>>

\* The atomic effect of t's pending operation. A timed operation may give up
\* (result 0) only while it cannot proceed.
Lin(t) ==
  /\ pend[t] # NoOp /\ ~pend[t].done
  /\ CASE pend[t].op = "push"  -> DoPush(t)
       [] pend[t].op = "pushT" -> DoPush(t) \/ (Full /\ Observe(t, 0))
       [] pend[t].op = "pop"   -> DoPop(t)
       [] pend[t].op = "popT"  -> DoPop(t) \/ (Empty /\ Observe(t, 0))
       [] pend[t].op \in {"peek", "peekT"} -> Observe(t, IF Empty THEN 0 ELSE Head(q))
       [] pend[t].op = "size"  -> Observe(t, Len(q))
       [] pend[t].op = "wait"  -> Empty /\ Observe(t, 1)

Ret(t, r) == /\ pend[t].done /\ pend[t].res = r
             /\ pend' = [pend EXCEPT ![t] = NoOp]
             /\ UNCHANGED <<cap, q, pushed, popped>>

\* Operations that may legitimately wait for ever in this state.
Blocked(t) == /\ pend[t] # NoOp /\ ~pend[t].done
              /\ CASE pend[t].op = "push" -> Full
                   [] pend[t].op = "pop"  -> Empty
                   [] pend[t].op = "wait" -> ~Empty
                   [] OTHER -> FALSE

Bounded == cap # 0 => Len(q) <= cap
Fifo == pushed = popped \o q
=============================================================================
