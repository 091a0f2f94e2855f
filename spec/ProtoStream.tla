----------------------------- MODULE ProtoStream -----------------------------
(* A proto stream file: 8 bytes signature, then per message 8 bytes size and  *)
(* the compressed message. msgs: messages written; len[i]: compressed size.   *)
(* A reader opens a copy of the file cut to `cut` bytes and with one byte     *)
(* (at `dmg`, -1: none) changed, and takes messages until there is none.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES msgs, len, rd
\* rd: [open, pos (messages taken), over (end reported)] or the closed reader
psvars == <<msgs, len, rd>>
Closed == [open |-> FALSE, pos |-> 0, over |-> FALSE, cut |-> 0, dmg |-> -1]
PSInit == msgs = <<>> /\ len = <<>> /\ rd = Closed
RECURSIVE End(_)
End(k) == IF k = 0 THEN 8 ELSE End(k - 1) + 8 + len[k]  \* where message k ends
Size == End(Len(msgs))
Write(m, n) == n > 0 /\ msgs' = Append(msgs, m) /\ len' = Append(len, n) /\ UNCHANGED rd
\* Signature complete and intact?
Signed(cut, dmg) == cut >= 8 /\ dmg \notin 0..7
Open(cut, dmg) == Signed(cut, dmg) /\ rd' = [open |-> TRUE, pos |-> 0, over |-> FALSE, cut |-> cut, dmg |-> dmg] /\ UNCHANGED <<msgs, len>>
Untouched(k) == rd.dmg < End(k - 1) \/ rd.dmg >= End(k) \/ rd.dmg >= rd.cut
Whole(k) == k <= Len(msgs) /\ End(k) <= rd.cut
\* The message a read may return: the next one, never anything else.
Read(m) == /\ rd.open /\ ~rd.over /\ Whole(rd.pos + 1) /\ m = msgs[rd.pos + 1]
           /\ rd' = [rd EXCEPT !.pos = @ + 1] /\ UNCHANGED <<msgs, len>>
\* A read may fail only at the end, at a cut, or at a damaged message ...
MayFail == ~(Whole(rd.pos + 1) /\ Untouched(rd.pos + 1))
\* ... where it may also abort (a nonsensical size).
ReadEnd == rd.open /\ MayFail /\ rd' = [rd EXCEPT !.over = TRUE] /\ UNCHANGED <<msgs, len>>
Abort == rd.open /\ MayFail /\ Whole(rd.pos + 1) /\ UNCHANGED psvars
\* Without damage the end shows as end of file.
Eof == rd.dmg = -1 => rd.over
=============================================================================
