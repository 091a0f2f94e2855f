------------------------------- MODULE LuaDict -------------------------------
\* Configuration dictionaries: the value a configuration program evaluates to,
\* and what the dictionary over it answers.
\*   values  <<"n", thousandths, text>> | <<"inf", sign>> | <<"s", text, numeric?, thousandths>>
\*           | <<"b", bool>> | <<"t", array, names, values>> | <<"nil">>
\*   exprs   <<"v", value>> | <<"tab", exprs, names, exprs>> | <<"ref", path>>
\*           | <<"choose", exprs>> | <<"read", file>> | <<"inc", file>>
\*   stmts   <<"set", path, expr>> | <<"do", file>> | <<"ret", expr>> | <<"err">>
\* A program state is [ok, g, inc]: g the globals (a table value), inc the
\* files included so far. Files: sequence of [d, n, ast, text], directories
\* searched in ascending order.
EXTENDS Integers, Sequences, FiniteSets, TLC
Nil == <<"nil">>
Empty == <<"t", <<>>, <<>>, <<>>>>
IsTab(v) == v[1] = "t"
Names(v) == {v[3][i] : i \in DOMAIN v[3]}
At(v, k) == IF k \in Names(v) THEN v[4][CHOOSE i \in DOMAIN v[3] : v[3][i] = k] ELSE Nil
Drop(v, k) == LET keep == SelectSeq([i \in DOMAIN v[3] |-> i], LAMBDA i : v[3][i] # k)
              IN <<"t", v[2], [j \in DOMAIN keep |-> v[3][keep[j]]], [j \in DOMAIN keep |-> v[4][keep[j]]]>>
Put(v, k, x) == LET w == Drop(v, k) IN
                IF x = Nil THEN w ELSE <<"t", w[2], Append(w[3], k), Append(w[4], x)>>
RECURSIVE Path(_, _)
Path(v, p) == IF p = <<>> THEN v ELSE IF ~IsTab(v) THEN <<"error">> ELSE Path(At(v, Head(p)), Tail(p))
RECURSIVE PutPath(_, _, _)
\* The table with x stored at path p; <<"error">> if that is no place.
PutPath(v, p, x) ==
  IF ~IsTab(v) THEN <<"error">>
  ELSE IF Len(p) = 1 THEN Put(v, p[1], x)
  ELSE LET sub == PutPath(At(v, p[1]), Tail(p), x)
       IN IF sub[1] = "error" THEN sub ELSE Put(v, p[1], sub)

Found(files, name) == {i \in DOMAIN files : files[i].n = name}
Full(files, name) == CHOOSE i \in Found(files, name) : \A j \in Found(files, name) : files[i].d <= files[j].d

Fail == [ok |-> FALSE, v |-> Nil, s |-> [g |-> Empty, inc |-> {}]]
Ok(v, s) == [ok |-> TRUE, v |-> v, s |-> s]
RECURSIVE Eval(_, _, _), EvalSeq(_, _, _, _), Run(_, _, _, _), Include(_, _, _)
\* Evaluates expressions es from the i-th on, giving a sequence of values.
EvalSeq(files, es, i, s) ==
  IF i > Len(es) THEN Ok(<<>>, s)
  ELSE LET a == Eval(files, es[i], s) IN
       IF ~a.ok THEN Fail
       ELSE LET b == EvalSeq(files, es, i + 1, a.s) IN
            IF ~b.ok THEN Fail ELSE Ok(<<a.v>> \o b.v, b.s)
Eval(files, e, s) ==
  CASE e[1] = "v" -> Ok(e[2], s)
    [] e[1] = "ref" -> (LET v == Path(s.g, e[2]) IN IF v[1] = "error" THEN Fail ELSE Ok(v, s))
    [] e[1] = "tab" ->
       (LET a == EvalSeq(files, e[2], 1, s) IN
        IF ~a.ok THEN Fail
        ELSE LET b == EvalSeq(files, e[4], 1, a.s) IN
             IF ~b.ok THEN Fail
             ELSE LET keep == SelectSeq([i \in DOMAIN e[3] |-> i], LAMBDA i : b.v[i] # Nil)
                  IN Ok(<<"t", a.v, [j \in DOMAIN keep |-> e[3][keep[j]]], [j \in DOMAIN keep |-> b.v[keep[j]]]>>, b.s))
    [] e[1] = "choose" ->
       (LET a == EvalSeq(files, e[2], 1, s) IN
        IF ~a.ok THEN Fail
        ELSE IF Len(e[2]) # 3 THEN Fail
        ELSE IF a.v[1][1] # "b" THEN Fail
        ELSE Ok(IF a.v[1][2] THEN a.v[2] ELSE a.v[3], a.s))
    [] e[1] = "read" -> IF Found(files, e[2]) = {} THEN Fail
                        ELSE Ok(<<"s", files[Full(files, e[2])].text, FALSE, 0>>, s)
    [] e[1] = "inc" -> Include(files, e[2], s)
\* No file is executed twice; the first directory having it wins.
Include(files, name, s) ==
  IF Found(files, name) = {} THEN Fail
  ELSE LET i == Full(files, name) IN
       IF i \in s.inc THEN Fail
       ELSE Run(files, files[i].ast, 1, [s EXCEPT !.inc = @ \cup {i}])
Run(files, prog, i, s) ==
  IF i > Len(prog) THEN Ok(Nil, s)
  ELSE LET st == prog[i] IN
       CASE st[1] = "ret" -> Eval(files, st[2], s)
         [] st[1] = "err" -> Fail
         [] st[1] = "do" -> (LET a == Include(files, st[2], s) IN
                             IF a.ok THEN Run(files, prog, i + 1, a.s) ELSE Fail)
         [] st[1] = "set" -> (LET a == Eval(files, st[3], s) IN
                              IF ~a.ok THEN Fail
                              ELSE LET g == PutPath(a.s.g, st[2], a.v) IN
                                   IF g[1] = "error" THEN Fail
                                   ELSE Run(files, prog, i + 1, [a.s EXCEPT !.g = g]))
Program(files, main) == LET r == Run(files, main, 1, [g |-> Empty, inc |-> {}])
                        IN IF r.ok THEN (IF IsTab(r.v) THEN r ELSE Fail) ELSE Fail

\* ---- reading -----------------------------------------------------------
IsNum(v) == v[1] = "n" \/ v[1] = "inf" \/ (v[1] = "s" /\ (IF v[1] = "s" THEN v[3] ELSE FALSE))
Num(v) == IF v[1] = "n" THEN v[2] ELSE v[4]
Trunc(m) == IF m >= 0 THEN m \div 1000 ELSE -((-m) \div 1000)
\* What a getter gives for value v: <<>> if it refuses.
GetS(v) == IF v[1] = "s" THEN <<v[2]>> ELSE IF v[1] = "n" THEN <<v[3]>> ELSE <<>>
GetD(v) == IF v[1] = "inf" THEN <<v[2], 0>> ELSE IF IsNum(v) THEN <<Num(v)>> ELSE <<>>
GetI(v) == IF v[1] # "inf" /\ IsNum(v) THEN <<Trunc(Num(v))>> ELSE <<>>
GetN(v) == LET i == GetI(v) IN IF i = <<>> THEN i ELSE IF i[1] < 0 THEN <<>> ELSE i
GetB(v) == IF v[1] = "b" THEN <<v[2]>> ELSE <<>>
GetT(v) == IF v[1] = "t" THEN <<v>> ELSE <<>>
Get(op, v) == CASE op = "S" -> GetS(v) [] op = "D" -> GetD(v) [] op = "I" -> GetI(v)
                [] op = "N" -> GetN(v) [] op = "B" -> GetB(v) [] op = "T" -> GetT(v)
\* Arrays: all elements or refusal.
ArrOk(op, v) == \A i \in DOMAIN v[2] : Get(op, v[2][i]) # <<>>
Arr(op, v) == [i \in DOMAIN v[2] |-> Get(op, v[2][i])]

\* ---- a dictionary handle: value, reads per key, counted? ----------------
Handle(v, rc) == [v |-> v, n |-> [k \in Names(v) |-> 0], rc |-> rc]
Touch(h, k) == [h EXCEPT !.n[k] = @ + 1]
\* A counted dictionary may go only if each of its keys was read exactly once.
MayClose(h) == h.rc => \A k \in DOMAIN h.n : h.n[k] = 1
=============================================================================
