------------------------------- MODULE IdMap -------------------------------
(* Containers keyed by (trajectory, index): mapping::MapById.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES data,     \* <<t, i>> -> [n, time]   (a function with finite domain)
          closed    \* trajectories that cannot be appended to
idvars == <<data, closed>>
IdInit == data = <<>> /\ closed = {}
Ids == DOMAIN data
Of(t) == {id \in Ids : id[1] = t}
MaxIdx(t) == CHOOSE i \in {id[2] : id \in Of(t)} : \A id \in Of(t) : id[2] <= i
\* The id handed out next: the successor of the highest one.
NextIdx(t) == IF Of(t) = {} THEN 0 ELSE MaxIdx(t) + 1
Put(id, v) == data' = TLCEval([x \in Ids \cup {id} |-> IF x = id THEN v ELSE data[x]])
CanAppend(t) == t \notin closed
Append1(t, i, v) == CanAppend(t) /\ i = NextIdx(t) /\ Put(<<t, i>>, v) /\ UNCHANGED closed
CanInsert(t, i) == <<t, i>> \notin Ids
Insert(t, i, v) == CanInsert(t, i) /\ Put(<<t, i>>, v) /\ closed' = TLCEval(closed \cup {t})
CanTrim(t, i) == <<t, i>> \in Ids
\* Trimming the highest index closes the trajectory for appending; trimming
\* the last element drops the trajectory altogether.
Trim(t, i) == /\ CanTrim(t, i)
              /\ closed' = TLCEval(IF Of(t) = {<<t, i>>} THEN closed \ {t}
                           ELSE IF i = MaxIdx(t) THEN closed \cup {t} ELSE closed)
              /\ data' = TLCEval([x \in Ids \ {<<t, i>>} |-> data[x]])
Set(t, i, v) == <<t, i>> \in Ids /\ Put(<<t, i>>, v) /\ UNCHANGED closed
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE Sort(_)
Sort(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y)
                                    IN <<m>> \o Sort(S \ {m})
\* First element of trajectory t that is not before time, in index order; or none.
LowerBound(t, time) == LET c == {id \in Of(t) : data[id].time >= time} IN
                       IF c = {} THEN <<>> ELSE CHOOSE x \in c : \A y \in c : x = y \/ Before(x, y)
\* The first element of a trajectory after t, which ends the range of t.
EndOf(t) == LET c == {id \in Ids : id[1] > t} IN
            IF c = {} THEN <<>> ELSE CHOOSE x \in c : \A y \in c : x = y \/ Before(x, y)
=============================================================================
