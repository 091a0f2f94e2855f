---------------------------- MODULE ScanMatchTrace ----------------------------
EXTENDS ScanMatch, TLC, Json, IOUtils
VARIABLES tid, l, g, cg, ask
Traces == ndJsonDeserialize(IOEnv.TRACES)
Tr == Traces[tid].ev
Ev == Tr[l]
vars == <<tid, l, g, cg, ask>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ g = [f |-> <<>>, u |-> 0] /\ cg = [f |-> <<>>, u |-> 0, k |-> 1] /\ ask = <<>>
Is(e) == l <= Len(Tr) /\ Ev.e = e /\ l' = l + 1 /\ tid' = tid
Fun(cells) == [p \in {<<cells[i][1], cells[i][2], cells[i][3]>> : i \in DOMAIN cells} |->
                 LET i == CHOOSE j \in DOMAIN cells : <<cells[j][1], cells[j][2], cells[j][3]>> = p IN cells[i][4]]
Grid == Is("Grid") /\ g' = TLCEval([f |-> Fun(Ev.cells), u |-> Ev.u]) /\ UNCHANGED <<cg, ask>>
Coarse == Is("Coarse") /\ cg' = TLCEval([f |-> Fun(Ev.cells), u |-> Ev.u, k |-> Ev.k]) /\ UNCHANGED <<g, ask>>
Bounds == /\ Is("Bounds") /\ UNCHANGED <<g, cg, ask>>
          /\ (\A i \in DOMAIN Ev.vals :
               LET c == Ev.vals[i]
                   most == SetMax({At(g.f, g.u, <<x, y, 0>>) : x \in c[1]..(c[1] + Ev.w - 1), y \in c[2]..(c[2] + Ev.w - 1)})
               IN IF Ev.w = 1 THEN c[3] = most ELSE c[3] >= most) = TRUE
\* One level from another: a shift, or a shift and half the resolution.
Level == /\ Is("Level") /\ UNCHANGED <<g, cg, ask>>
         /\ LET next == Fun(Ev.cells)
                cell(p, s) == LET q == <<p[1] - Ev.shift * s[1], p[2] - Ev.shift * s[2], p[3] - Ev.shift * s[3]>> IN
                              IF Ev.half THEN <<q[1] \div 2, q[2] \div 2, q[3] \div 2>> ELSE q
            IN (\A p \in DOMAIN g.f : \A s \in {0, 1} \X {0, 1} \X {0, 1} : At(next, 0, cell(p, s)) >= g.f[p]) = TRUE
Match == Is("Match") /\ ask = <<>> /\ ask' = <<Ev>> /\ UNCHANGED <<g, cg>>
A == ask[1]
\* The coarse test as thousandths: mean >= limit.
Admitted(i, o) == IF "low" \in DOMAIN A.scans[i]
                  THEN CoarseSum(cg.f, cg.u, cg.k, A.scans[i].low, o, 1) >= A.minlow * Len(A.scans[i].low) ELSE TRUE
Cands == UNION {{<<i, o>> : o \in Hitting(g.f, A.scans[i].p, A.win)} : i \in {j \in DOMAIN A.scans : A.scans[j].ok}}
Score(c) == Sum(g.f, g.u, A.scans[c[1]].p, c[2])
Best == LET S == TLCEval({c \in Cands : 2 * Score(c) > A.min2 /\ Admitted(c[1], c[2])})
        IN IF S = {} THEN -1 ELSE SetMax({Score(c) : c \in S})
Abs(x) == IF x < 0 THEN -x ELSE x
Found == /\ Is("Found") /\ ask # <<>> /\ ask' = <<>> /\ UNCHANGED <<g, cg>>
         /\ Ev.res <= 5
         /\ LET c == <<Ev.scan, <<Ev.off[1], Ev.off[2], Ev.off[3]>>>>
                i == Ev.scan
            IN /\ (i \in DOMAIN A.scans) = TRUE /\ A.scans[i].ok
               /\ InWindow(A.win, c[2])
               /\ Admitted(c[1], c[2])
               /\ Abs(Ev.sum100 - 100 * Score(c)) <= 20
               /\ Score(c) = Best
               /\ ("rot" \in DOMAIN Ev => Abs(Ev.rot - A.scans[i].rot) <= 30) = TRUE
               /\ ("low" \in DOMAIN Ev => Abs(Ev.low * Len(A.scans[i].low) - CoarseSum(cg.f, cg.u, cg.k, A.scans[i].low, c[2], 1)) <= 5 * Len(A.scans[i].low)) = TRUE
NotFound == Is("None") /\ ask # <<>> /\ ask' = <<>> /\ UNCHANGED <<g, cg>> /\ Best = -1
\* ---- exhaustive matching with a preference for small corrections ------------
Rt == Is("Rt") /\ ask = <<>> /\ ask' = <<Ev>> /\ UNCHANGED <<g, cg>>
RECURSIVE WSum(_, _, _)
\* values are <<value, weight>>
WSum(p, i, k) == IF i > Len(p) THEN 0
                 ELSE LET v == At(g.f, g.u, p[i]) IN (IF k = 0 THEN v[2] ELSE v[1] * v[2]) + WSum(p, i + 1, k)
RtScore(i) == LET c == A.c[i]  w == WSum(c.p, 1, 0) IN IF w = 0 THEN 0 ELSE (WSum(c.p, 1, 1) * c.w) \div w
RtFound == /\ Is("RtFound") /\ ask # <<>> /\ ask' = <<>> /\ UNCHANGED <<g, cg>>
           /\ Ev.i \in DOMAIN A.c /\ Ev.res <= 5
           /\ LET got == RtScore(Ev.i) IN
              /\ Abs(got - Ev.score) <= Ev.tol
              /\ (\A i \in DOMAIN A.c : RtScore(i) <= got + Ev.tol) = TRUE
Accept == l = Len(Tr) + 1 /\ ask = <<>> /\ PrintT(<<"ACCEPT", tid>>) /\ l' = l + 1 /\ UNCHANGED <<tid, g, cg, ask>>
Next == Grid \/ Coarse \/ Bounds \/ Level \/ Match \/ Found \/ NotFound \/ Rt \/ RtFound \/ Accept
Spec == Init /\ [][Next]_vars
=============================================================================
