---------------------------- MODULE ProtoStreamMC ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxMsgs, Lens, Gen
VARIABLES msgs, len, rd, out
P == INSTANCE ProtoStream
vars == <<msgs, len, rd, out>>
Init == P!PSInit /\ out = <<>>
Write == ~rd.open /\ Len(msgs) < MaxMsgs /\ (\E n \in Lens : P!Write(Len(msgs) + 1, n)) /\ UNCHANGED out
Open == ~rd.open /\ \E c \in 0..P!Size, d \in -1..(P!Size - 1) : P!Open(c, d) /\ UNCHANGED out
Read == rd.open /\ \E m \in 1..MaxMsgs : P!Read(m) /\ out' = Append(out, m)
Fin == rd.open /\ P!ReadEnd /\ ~rd.over /\ UNCHANGED out
Next == Write \/ Open \/ Read \/ Fin
Spec == Init /\ [][Next]_vars /\ WF_vars(Read \/ Fin)
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
Prefix == IsPrefix(out, msgs)
Complete == (rd.over /\ rd.dmg = -1 /\ rd.cut = P!Size) => out = msgs
NoneLost == rd.over => \A k \in 1..Len(msgs) : (P!End(k) <= rd.cut /\ (rd.dmg = -1 \/ rd.dmg >= P!End(k))) => k <= Len(out)
Ends == rd.open ~> rd.over
=============================================================================
