------------------------------- MODULE MidoriMC -------------------------------
(* MidoriSQL as a transition system over small tables: every reachable database, every statement of a finite   *)
(* set in each.  The guarantees are stated here a second time, as laws over rows and counts that do not mention    *)
(* how Exec computes its result, and checked in every state for every statement.  Emit prints each state with        *)
(* what every statement does in it; the tests replayed on the real code are walks through that graph which together  *)
(* take every transition.                                                                                          *)
EXTENDS MidoriSQL, Json

CONSTANTS Profile,      \* which tables and statements
          MaxRows,      \* rows per table
          Emit          \* print the graph
VARIABLE db

(* ---- abbreviations ------------------------------------------------------------------------------ *)
I(n) == <<"I", n>>
S(x) == <<"S", x>>
B(n) == <<"B", n>>
D(k) == <<"D", k>>
Lit(v) == <<"v", v>>
C(n) == <<"c", "", n>>
Q(t, n) == <<"c", t, n>>
Cmp(o, a, b) == <<"cmp", o, a, b>>
Col(n, t, p, nn) == [n |-> n, t |-> t, p |-> p, nn |-> nn, uq |-> 0, ai |-> 0, pk |-> 0]
CreateS(t, cols) == [k |-> "create", t |-> t, ine |-> 0, cols |-> cols, idx |-> <<>>]
CreateIne(t, cols) == [CreateS(t, cols) EXCEPT !.ine = 1]
InsertS(t, cols, vals) == [k |-> "insert", t |-> t, cols |-> cols, vals |-> vals]
UpdateS(t, set, w) == [k |-> "update", t |-> t, set |-> set, where |-> w]
DeleteS(t, w) == [k |-> "delete", t |-> t, where |-> w]
SelectS(items, from, style, joins, w, group) ==
  [k |-> "select", from |-> from, style |-> style, joins |-> joins, items |-> items, where |-> w, group |-> group]
STAR == <<<<"star">>>>
COUNT == <<"count">>
From1(t) == <<<<t, "">>>>
SelT(items, t, w) == SelectS(items, From1(t), "comma", <<>>, w, <<>>)
SelAll(t, w) == SelT(STAR, t, w)

(* sequences of statements: every combination *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map(s, F(_)) == [i \in DOMAIN s |-> F(s[i])]
Pairs(a, b) == Flat([i \in DOMAIN a |-> [j \in DOMAIN b |-> <<a[i], b[j]>>]])

(* ================================ profile "rows" =================================================== *)
(* one table, an INTEGER that is not NULL and a nullable VARCHAR                                           *)
RowsT == "A"
RowsCols == <<Col("k", "INTEGER", 0, 1), Col("s", "VARCHAR", 4, 0)>>
RowsAtoms ==
  <<Cmp("=", C("k"), Lit(I(1))), Cmp("<>", C("k"), Lit(I(1))), Cmp("<", C("k"), Lit(I(2))), Cmp(">=", C("k"), Lit(I(2))),
    Cmp(">", Lit(I(2)), C("k")), Cmp("<=", Lit(I(2)), C("k")), Cmp("=", Lit(S("x")), C("s")),
    Cmp("=", C("s"), Lit(S("x"))), Cmp("<>", C("s"), Lit(S("x"))), Cmp("=", C("s"), Lit(S(""))), Cmp("=", C("s"), Lit(S("xy"))),
    <<"null", C("s")>>, <<"notnull", C("s")>>, <<"null", C("k")>>,
    <<"in", C("k"), <<I(2), I(3)>>>>, <<"nin", C("k"), <<I(2), I(3)>>>>, <<"in", C("s"), <<S("x"), S("")>>>>, <<"in", C("s"), <<NULL>>>>,
    <<"nin", C("s"), <<S("x")>>>>, <<"nin", C("s"), <<S("x"), NULL>>>>,
    Cmp("=", C("k"), C("k")), Cmp("<>", C("s"), C("s")), Cmp("=", C("s"), C("s")), Cmp("=", C("s"), Lit(NULL)),
    Cmp("=", Lit(I(1)), Lit(I(1))), Cmp("<", Lit(I(2)), Lit(I(1))), Cmp("=", Q("A", "k"), Lit(I(2)))>>
RowsConds == <<<<>>>> \o RowsAtoms
  \o <<<<"and", RowsAtoms[1], RowsAtoms[8]>>, <<"or", RowsAtoms[1], RowsAtoms[8]>>, <<"xor", RowsAtoms[1], RowsAtoms[8]>>,
       <<"or", RowsAtoms[12], <<"and", RowsAtoms[4], RowsAtoms[9]>>>>, <<"xor", <<"or", RowsAtoms[1], RowsAtoms[12]>>, RowsAtoms[13]>>>>
RowsSets == <<<<<<"k", I(1)>>>>, <<<<"k", I(2)>>>>, <<<<"s", NULL>>>>, <<<<"s", S("x")>>>>, <<<<"s", S("")>>, <<"k", I(2)>>>>>>
RowsVals == <<I(1), I(2)>>
RowsStrs == <<NULL, S(""), S("x")>>
RowsStmts ==
  <<CreateS("A", RowsCols)>>
  \o [i \in DOMAIN Pairs(RowsVals, RowsStrs) |-> LET p == Pairs(RowsVals, RowsStrs)[i] IN InsertS("A", <<>>, <<<<Lit(p[1]), Lit(p[2])>>>>)]
  \o <<InsertS("A", <<>>, <<<<Lit(I(1)), Lit(S("x"))>>, <<Lit(I(2)), Lit(NULL)>>>>),
       InsertS("A", <<"s", "k">>, <<<<Lit(S("x")), Lit(I(2))>>>>),
       InsertS("A", <<"s", "k">>, <<<<Lit(S("")), Lit(I(1))>>, <<Lit(S("x")), Lit(I(1))>>>>),
       InsertS("A", <<"k">>, <<<<Lit(I(2))>>>>),
       InsertS("A", <<"k">>, <<<<<<"op", "-", Lit(I(3)), Lit(I(2))>>>>>>)>>
  \o [i \in DOMAIN Pairs(RowsSets, RowsConds) |-> LET p == Pairs(RowsSets, RowsConds)[i] IN UpdateS("A", p[1], p[2])]
  \o [i \in DOMAIN RowsConds |-> DeleteS("A", RowsConds[i])]
  \o [i \in DOMAIN RowsConds |-> SelAll("A", RowsConds[i])]
  \o [i \in DOMAIN RowsConds |-> SelT(<<C("s")>>, "A", RowsConds[i])]
  \o [i \in DOMAIN RowsConds |-> SelT(<<COUNT>>, "A", RowsConds[i])]
  \o <<SelT(<<C("s"), Q("A", "k")>>, "A", <<>>), SelT(<<C("k")>>, "A", <<>>)>>
  (* not to be carried out *)
  \o <<InsertS("A", <<>>, <<<<Lit(NULL), Lit(S("x"))>>>>), InsertS("A", <<"s">>, <<<<Lit(S("x"))>>>>),
       InsertS("A", <<>>, <<<<Lit(I(1)), Lit(S("long"))>>>>), InsertS("A", <<>>, <<<<Lit(I(1)), Lit(S("x"))>>, <<Lit(I(1)), Lit(S("long"))>>>>),
       InsertS("A", <<>>, <<<<Lit(I(1)), Lit(S("x"))>>, <<Lit(NULL), Lit(S("x"))>>>>), InsertS("A", <<>>, <<<<Lit(I(1)), Lit(S("x"))>>, <<Lit(I(1))>>>>),
       InsertS("A", <<>>, <<<<Lit(S("1")), Lit(S("x"))>>>>), InsertS("A", <<>>, <<<<Lit(I(1)), Lit(I(1))>>>>), InsertS("A", <<>>, <<<<Lit(D(1024)), Lit(S("x"))>>>>),
       InsertS("A", <<"k", "z">>, <<<<Lit(I(1)), Lit(I(1))>>>>), InsertS("A", <<"k", "k">>, <<<<Lit(I(1)), Lit(I(1))>>>>), InsertS("Z", <<>>, <<<<Lit(I(1))>>>>),
       InsertS("A", <<"k">>, <<<<<<"op", "/", Lit(I(3)), Lit(I(0))>>>>>>),
       UpdateS("A", <<<<"k", NULL>>>>, <<>>), UpdateS("A", <<<<"s", S("x")>>, <<"k", NULL>>>>, <<>>), UpdateS("A", <<<<"k", I(2)>>, <<"s", S("long")>>>>, <<>>),
       UpdateS("A", <<<<"s", I(1)>>>>, <<>>), UpdateS("A", <<<<"z", I(1)>>>>, <<>>), UpdateS("A", <<<<"s", S("x")>>>>, Cmp("=", C("z"), Lit(I(1)))),
       UpdateS("Z", <<<<"s", S("x")>>>>, <<>>), UpdateS("A", <<<<"s", S("x")>>>>, Cmp("=", C("k"), Lit(S("1")))),
       DeleteS("A", Cmp("=", C("s"), Lit(I(1)))), DeleteS("A", Cmp("=", C("z"), Lit(I(1)))), DeleteS("Z", <<>>), DeleteS("A", Cmp("<", C("s"), Lit(S("x")))),
       DeleteS("A", <<"in", C("k"), <<I(1), S("x")>>>>),
       SelAll("Z", <<>>), SelT(<<C("z")>>, "A", <<>>), SelAll("A", Cmp("=", C("k"), C("s"))), SelT(<<Q("B", "k")>>, "A", <<>>), SelT(<<C("k"), COUNT>>, "A", <<>>),
       CreateS("A", RowsCols), CreateIne("A", <<Col("other", "DATE", 0, 0)>>), CreateS("Y", <<Col("a", "INTEGER", 0, 0), Col("a", "DATE", 0, 0)>>)>>

(* ================================ profile "types" ================================================== *)
(* the other four types, with literals on and around every boundary of their order                           *)
TypesCols == <<Col("d", "DATE", 0, 0), Col("t", "DATETIME", 0, 0), Col("f", "DOUBLE", 0, 0), Col("b", "TINYINT", 0, 0)>>
D1 == S("2024-02-29")
D2 == S("1970-01-02")
T1 == S("2024-02-29 00:00:00")
T2 == S("2024-02-29 00:00:01")
TypesTuples == <<<<Lit(NULL), Lit(NULL), Lit(NULL), Lit(NULL)>>, <<Lit(D1), Lit(T1), Lit(D(512)), Lit(B(1))>>,
                 <<Lit(D2), Lit(T2), Lit(D(-512)), Lit(B(0))>>, <<Lit(D1), Lit(T2), Lit(D(0)), Lit(NULL)>>>>
CmpAll(c, v) == Map(<<"=", "<>", "<", "<=", ">", ">=">>, LAMBDA o : Cmp(o, C(c), Lit(v)))
CmpSwap(c, v) == Map(<<"=", "<", ">=">>, LAMBDA o : Cmp(o, Lit(v), C(c)))
TypesConds == CmpAll("d", D1) \o CmpAll("t", T1) \o CmpAll("f", D(0)) \o CmpSwap("d", D1) \o CmpSwap("t", T2) \o CmpSwap("f", D(512))
  \o <<Cmp("=", C("b"), Lit(B(1))), Cmp("<>", C("b"), Lit(B(0))), Cmp("=", Lit(B(0)), C("b")), Cmp("<", C("f"), Lit(D(-512))), Cmp(">", C("t"), C("t")),
       Cmp("<=", C("d"), C("d")), Cmp(">", C("d"), Lit(D2)), Cmp("<", C("t"), Lit(S("1999-12-31 23:59:59"))),
       <<"in", C("d"), <<D1, S("2000-01-01")>>>>, <<"nin", C("d"), <<D2>>>>, <<"in", C("t"), <<T2>>>>, <<"nin", C("f"), <<D(0), D(512)>>>>, <<"in", C("b"), <<B(0)>>>>,
       <<"nin", C("b"), <<B(0), NULL>>>>, <<"null", C("t")>>, <<"notnull", C("b")>>, <<>>>>
TypesStmts ==
  <<CreateS("A", TypesCols)>> \o Map(TypesTuples, LAMBDA v : InsertS("A", <<>>, <<v>>))
  \o Map(TypesConds, LAMBDA w : SelT(<<C("b"), C("t")>>, "A", w))
  \o Map(TypesConds, LAMBDA w : SelT(<<COUNT>>, "A", w))
  \o Map(TypesConds, LAMBDA w : DeleteS("A", w))
  \o Map(TypesConds, LAMBDA w : UpdateS("A", <<<<"d", NULL>>, <<"t", NULL>>, <<"f", NULL>>, <<"b", NULL>>>>, w))
  \o Map(TypesConds, LAMBDA w : UpdateS("A", <<<<"d", D1>>, <<"t", T1>>, <<"f", D(512)>>, <<"b", B(1)>>>>, w))
  \o <<SelAll("A", <<>>), SelectS(<<C("d"), COUNT>>, From1("A"), "comma", <<>>, <<>>, <<C("d")>>), SelectS(<<C("t"), COUNT>>, From1("A"), "comma", <<>>, <<>>, <<C("t")>>),
       SelectS(<<C("f"), C("b"), COUNT>>, From1("A"), "comma", <<>>, <<>>, <<C("f"), C("b")>>),
       InsertS("A", <<"d">>, <<<<Lit(S("2023-02-29"))>>>>), InsertS("A", <<"d">>, <<<<Lit(S("2024-13-01"))>>>>), InsertS("A", <<"d">>, <<<<Lit(S("yes"))>>>>),
       InsertS("A", <<"d">>, <<<<Lit(T1)>>>>), InsertS("A", <<"t">>, <<<<Lit(S("2024-01-01 24:00:00"))>>>>), InsertS("A", <<"t">>, <<<<Lit(D1)>>>>), InsertS("A", <<"d">>, <<<<Lit(I(1))>>>>),
       InsertS("A", <<"f">>, <<<<Lit(I(1))>>>>), InsertS("A", <<"b">>, <<<<Lit(I(1))>>>>), InsertS("A", <<"f">>, <<<<Lit(S("1.5"))>>>>),
       UpdateS("A", <<<<"d", S("2023-02-29")>>>>, <<>>), UpdateS("A", <<<<"d", T1>>>>, <<>>), UpdateS("A", <<<<"t", D1>>>>, <<>>), UpdateS("A", <<<<"b", I(1)>>>>, <<>>),
       UpdateS("A", <<<<"f", I(1)>>>>, <<>>), UpdateS("A", <<<<"f", D(512)>>, <<"b", S("x")>>>>, <<>>),
       DeleteS("A", Cmp("=", C("f"), Lit(I(0)))), DeleteS("A", Cmp("=", C("b"), Lit(I(0)))), DeleteS("A", Cmp("=", C("d"), Lit(S("yes")))), DeleteS("A", Cmp("=", C("d"), C("t"))),
       DeleteS("A", <<"in", C("f"), <<D(0), I(0)>>>>), DeleteS("A", <<"in", C("d"), <<D1, S("yes")>>>>)>>

(* ================================ profile "join" =================================================== *)
JA == <<Col("k", "INTEGER", 0, 0), Col("v", "INTEGER", 0, 0)>>
JB == <<Col("k", "INTEGER", 0, 0), Col("s", "VARCHAR", 4, 0)>>
From2 == <<<<"A", "">>, <<"B", "">>>>
From2r == <<<<"B", "">>, <<"A", "">>>>
From2al == <<<<"A", "x">>, <<"B", "y">>>>
From3 == <<<<"A", "">>, <<"B", "">>, <<"Cc", "">>>>
JOns == <<Cmp("=", Q("A", "k"), Q("B", "k")), Cmp("<>", Q("A", "k"), Q("B", "k")), Cmp("<", Q("A", "v"), Q("B", "k")), Cmp(">=", Q("B", "k"), Q("A", "k")),
          Cmp("=", Q("A", "v"), Lit(I(1))), Cmp("=", Q("B", "k"), Lit(I(1))), Cmp("=", Lit(I(1)), Lit(I(1))), Cmp("=", Lit(I(1)), Lit(I(2))),
          Cmp("=", C("v"), Q("B", "k")), Cmp("=", C("s"), Lit(S("x"))),
          <<"and", Cmp("=", Q("A", "k"), Q("B", "k")), Cmp("=", Q("A", "v"), Lit(I(1)))>>,
          <<"or", Cmp("=", Q("A", "k"), Q("B", "k")), Cmp("=", Q("A", "v"), Lit(I(2)))>>,
          <<"xor", Cmp("=", Q("A", "k"), Q("B", "k")), Cmp("=", Q("A", "v"), Lit(I(1)))>>>>
JWheres == <<<<>>, <<"null", Q("A", "k")>>, <<"notnull", Q("B", "s")>>, Cmp("<>", Q("B", "s"), Lit(S("x"))), <<"in", Q("A", "v"), <<I(1), NULL>>>>, <<"nin", Q("B", "k"), <<I(1)>>>>,
             Cmp("=", Q("A", "k"), Q("B", "k")), <<"and", <<"notnull", Q("A", "k")>>, Cmp("<=", Q("A", "k"), Q("B", "k"))>>>>
JStmts ==
  <<CreateS("A", JA), CreateS("B", JB)>>
  \o Map(<<<<NULL, I(1)>>, <<I(1), I(1)>>, <<I(1), I(2)>>, <<I(2), NULL>>>>, LAMBDA p : InsertS("A", <<>>, <<<<Lit(p[1]), Lit(p[2])>>>>))
  \o Map(<<<<NULL, S("x")>>, <<I(1), S("x")>>, <<I(2), NULL>>>>, LAMBDA p : InsertS("B", <<>>, <<<<Lit(p[1]), Lit(p[2])>>>>))
  \o <<DeleteS("A", <<"null", C("k")>>), DeleteS("A", Cmp("=", C("v"), Lit(I(1)))), DeleteS("B", Cmp("=", C("k"), Lit(I(1)))), DeleteS("B", <<"null", C("s")>>),
       DeleteS("A", <<>>), DeleteS("B", <<>>)>>
  \o Map(JOns, LAMBDA c : SelectS(STAR, From2, "join", <<c>>, <<>>, <<>>))
  \o Map(JOns, LAMBDA c : SelectS(STAR, From2r, "join", <<c>>, <<>>, <<>>))
  \o Map(JOns, LAMBDA c : SelectS(STAR, From2, "comma", <<>>, c, <<>>))
  \o Map(JWheres, LAMBDA w : SelectS(STAR, From2, "join", <<JOns[1]>>, w, <<>>))
  \o Map(JWheres, LAMBDA w : SelectS(<<Q("B", "s"), Q("A", "v")>>, From2, "comma", <<>>, w, <<>>))
  \o Map(JWheres, LAMBDA w : SelectS(<<COUNT>>, From2, "join", <<JOns[3]>>, w, <<>>))
  \o <<SelectS(<<Q("y", "s"), Q("x", "k"), Q("y", "k")>>, From2al, "comma", <<>>, Cmp("=", Q("x", "k"), Q("y", "k")), <<>>),
       SelectS(<<Q("y", "s"), Q("x", "v")>>, From2al, "join", <<Cmp("=", Q("x", "k"), Q("y", "k"))>>, Cmp("=", Q("x", "v"), Lit(I(1))), <<>>),
       SelectS(STAR, From2al, "comma", <<>>, <<>>, <<>>),
       SelectS(<<Q("A", "k"), COUNT>>, From2, "join", <<JOns[1]>>, <<>>, <<Q("A", "k")>>), SelectS(<<Q("B", "s"), COUNT>>, From2, "comma", <<>>, <<>>, <<Q("B", "s")>>),
       SelectS(<<Q("A", "v"), Q("B", "k"), COUNT>>, From2, "join", <<JOns[2]>>, <<>>, <<Q("A", "v"), Q("B", "k")>>),
       SelectS(<<C("k")>>, From2, "comma", <<>>, <<>>, <<>>), SelectS(STAR, From3, "comma", <<>>, <<>>, <<>>), SelectS(STAR, From2, "join", <<Cmp("=", C("k"), Lit(I(1)))>>, <<>>, <<>>),
       SelectS(STAR, From2, "join", <<Cmp("=", Q("A", "k"), Q("B", "s"))>>, <<>>, <<>>), SelectS(STAR, From2, "join", <<Cmp("=", Q("A", "z"), Q("B", "k"))>>, <<>>, <<>>)>>

(* ================================ profile "join3" ================================================== *)
J3Cols == <<Col("k", "INTEGER", 0, 0)>>
JKey(a, b) == Cmp("=", Q(a, "k"), Q(b, "k"))
JLt(a, b) == Cmp("<", Q(a, "k"), Q(b, "k"))
J3Stmts ==
  <<CreateS("A", J3Cols), CreateS("B", J3Cols), CreateS("Cc", J3Cols)>>
  \o Flat(Map(<<"A", "B", "Cc">>, LAMBDA t : Map(<<NULL, I(1), I(2)>>, LAMBDA v : InsertS(t, <<>>, <<<<Lit(v)>>>>))))
  \o Flat(Map(<<"A", "B", "Cc">>, LAMBDA t : <<DeleteS(t, Cmp("=", C("k"), Lit(I(1)))), DeleteS(t, <<>>)>>))
  \o Flat(Map(<<JKey("A", "B"), JLt("A", "B"), Cmp("<>", Q("A", "k"), Q("B", "k")), Cmp("=", Q("A", "k"), Lit(I(1)))>>, LAMBDA a :
       Map(<<JKey("B", "Cc"), JLt("A", "Cc"), JKey("A", "Cc"), Cmp("=", Q("B", "k"), Lit(I(2))), <<"or", JKey("A", "Cc"), JKey("B", "Cc")>>>>, LAMBDA b :
         SelectS(STAR, From3, "join", <<a, b>>, <<>>, <<>>))))
  \o Map(<<<<>>, <<"and", JKey("A", "B"), JKey("B", "Cc")>>, <<"or", <<"null", Q("Cc", "k")>>, JLt("B", "A")>>>>, LAMBDA w : SelectS(STAR, From3, "comma", <<>>, w, <<>>))
  \o <<SelectS(<<COUNT>>, From3, "comma", <<>>, <<>>, <<>>), SelectS(<<Q("Cc", "k"), COUNT>>, From3, "join", <<JKey("A", "B"), JLt("B", "Cc")>>, <<>>, <<Q("Cc", "k")>>),
       SelectS(<<Q("Cc", "k"), Q("A", "k")>>, From3, "join", <<JKey("A", "B"), JKey("A", "Cc")>>, <<"notnull", Q("B", "k")>>, <<>>)>>

(* ================================ profile "group" ================================================== *)
GCols == <<Col("a", "INTEGER", 0, 0), Col("b", "VARCHAR", 8, 0)>>
GWheres == <<<<>>, Cmp("=", C("a"), Lit(I(0))), <<"notnull", C("a")>>, Cmp("<>", C("b"), Lit(S("x"))), <<"null", C("b")>>>>
GKeys == <<<<C("a")>>, <<C("b")>>, <<C("a"), C("b")>>, <<C("b"), C("a")>>, <<Q("A", "b")>>>>
GStmts ==
  <<CreateS("A", GCols)>>
  \o Map(Pairs(<<NULL, I(0), I(-1)>>, <<NULL, S("x"), S("x1")>>), LAMBDA p : InsertS("A", <<>>, <<<<Lit(p[1]), Lit(p[2])>>>>))
  \o Map(GWheres, LAMBDA w : DeleteS("A", w))
  \o Map(Pairs(GKeys, GWheres), LAMBDA p : SelectS(p[1] \o <<COUNT>>, From1("A"), "comma", <<>>, p[2], p[1]))
  \o Map(Pairs(GKeys, GWheres), LAMBDA p : SelectS(p[1], From1("A"), "comma", <<>>, p[2], p[1]))
  \o Map(GWheres, LAMBDA w : SelT(<<COUNT>>, "A", w))
  \o <<SelectS(<<COUNT, C("b")>>, From1("A"), "comma", <<>>, <<>>, <<C("b")>>), SelectS(<<C("b"), COUNT>>, From1("A"), "comma", <<>>, <<>>, <<C("a"), C("b")>>),
       SelectS(<<COUNT>>, From1("A"), "comma", <<>>, <<>>, <<C("a")>>), SelectS(<<C("b"), COUNT>>, From1("A"), "comma", <<>>, <<>>, <<C("a")>>),
       SelectS(<<C("a"), COUNT>>, From1("A"), "comma", <<>>, <<>>, <<C("z")>>), SelectS(<<<<"countc", "", "a">>, C("b")>>, From1("A"), "comma", <<>>, <<"notnull", C("a")>>, <<C("b")>>)>>

(* ================================ profile "schema" ================================================= *)
(* names that differ in case or in one more character, two schemas, every attribute                             *)
SNames == IF Profile = "schema" THEN <<"T", "t">> ELSE <<"T", "t", "Tt">>
SchemaX == <<Col("x", "INTEGER", 0, 0)>>
SchemaY == <<Col("X", "VARCHAR", 3, 1), Col("x", "DATE", 0, 0)>>
SStmts ==
  Flat(Map(SNames, LAMBDA t : <<CreateS(t, SchemaX), CreateIne(t, SchemaX), CreateS(t, SchemaY), CreateIne(t, SchemaY),
       InsertS(t, <<"x">>, <<<<Lit(I(7))>>>>), InsertS(t, <<"X", "x">>, <<<<Lit(S("ab")), Lit(D1)>>>>), InsertS(t, <<>>, <<<<Lit(NULL)>>>>), InsertS(t, <<>>, <<<<Lit(S("")), Lit(NULL)>>>>),
       UpdateS(t, <<<<"x", NULL>>>>, <<>>), UpdateS(t, <<<<"X", S("z")>>>>, <<>>), DeleteS(t, <<>>), SelAll(t, <<>>), SelT(<<C("x")>>, t, <<>>), SelT(<<C("X")>>, t, <<>>)>>))
  \o <<CreateS("T", <<Col("q", "INTEGER", 0, 0), Col("q", "INTEGER", 0, 0)>>), CreateS("t", <<Col("x", "VARCHAR", 0, 0)>>), SelectS(STAR, <<<<"T", "">>, <<"t", "">>>>, "comma", <<>>, <<>>, <<>>),
       [CreateS("Tt", <<[Col("x", "INTEGER", 0, 0) EXCEPT !.pk = 1]>>) EXCEPT !.idx = <<<<"ix", <<"x">>>>>>],
       [CreateS("Tt", <<Col("x", "INTEGER", 0, 0)>>) EXCEPT !.idx = <<<<"pk", <<"nope">>>>>>]>>

Stmts == CASE Profile = "rows" -> RowsStmts
           [] Profile = "types" -> TypesStmts
           [] Profile = "join" -> JStmts
           [] Profile = "join3" -> J3Stmts
           [] Profile = "group" -> GStmts
           [] Profile \in {"schema", "schema3"} -> SStmts

(* ---- the transition system: databases up to the order of rows -------------------------------------- *)
Strings == <<"", "ab", "long", "x", "x1", "xy", "z">>
Rank(v) == CASE v[1] = "N" -> -100000 [] v[1] \in {"I", "D", "B"} -> v[2]
             [] v[1] = "S" -> CHOOSE i \in DOMAIN Strings : Strings[i] = v[2]
             [] v[1] = "T" -> v[2] * 2 + v[3]
RowLess(a, b) == \E i \in DOMAIN a : Rank(a[i]) < Rank(b[i]) /\ \A j \in 1..(i - 1) : Rank(a[j]) = Rank(b[j])
Canon(d) == [t \in DOMAIN d |-> [d[t] EXCEPT !.rows = SortSeq(@, RowLess)]]
Within(d) == \A t \in DOMAIN d : Len(d[t].rows) <= MaxRows

Init == db = NoDb
Next == \E i \in DOMAIN Stmts : LET o == Exec(db, Stmts[i])
                                IN o.v = "ok" /\ o.db # db /\ Within(o.db) /\ db' = Canon(o.db)
Spec == Init /\ [][Next]_db

(* ---- the guarantees, independently of Exec ---------------------------------------------------------- *)
AllTyped == \A t \in DOMAIN db : TypedTable(db[t])
NeverNull == \A t \in DOMAIN db : NotNullTable(db[t])

Does(i) == Exec(db, Stmts[i])
Of(kind) == {i \in DOMAIN Stmts : Stmts[i].k = kind}
Accepted(i) == Does(i).v = "ok"
Rows(t) == db[t].rows
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
Times(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
(* the rows a condition selects, as SELECT reports them; tables of these profiles have at most two columns of one name *)
Chosen(t, w) == Exec(db, SelAll(t, w)).rows

FrameHolds == \A i \in DOMAIN Stmts : LET o == Does(i) IN
  /\ ~Known(o) => o.db = db                                        \* C07: rejected statements change nothing
  /\ Stmts[i].k = "select" => o.db = db                             \* C13
  /\ \A t \in DOMAIN db : t \in DOMAIN o.db /\ o.db[t].cols = db[t].cols /\ (t # Target(Stmts[i]) => o.db[t] = db[t])      \* C23
InsertAdds == \A i \in Of("insert") : LET o == Does(i)
                                          s == Stmts[i] IN Accepted(i) =>                                                  \* C01
  /\ o.n = Len(s.vals) /\ Len(o.db[s.t].rows) = Len(Rows(s.t)) + Len(s.vals)
  /\ SubSeq(o.db[s.t].rows, 1, Len(Rows(s.t))) = Rows(s.t)
  /\ \A r \in DOMAIN s.vals : \A c \in DOMAIN db[s.t].cols :
       LET row == o.db[s.t].rows[Len(Rows(s.t)) + r]
           at == {j \in DOMAIN s.vals[r] : IF s.cols = <<>> THEN j = c ELSE s.cols[j] = db[s.t].cols[c].n}
       IN IF at = {} THEN IsNull(row[c])
          ELSE \A j \in at : s.vals[r][j][1] = "v" => row[c] = Coerce(s.vals[r][j][2], db[s.t].cols[c].t)
UpdateAgrees == \A i \in Of("update") : LET o == Does(i)
                                            s == Stmts[i] IN Accepted(i) =>                                                \* C02, C10
  LET hit == Bag(Chosen(s.t, s.where))
      chg == {k \in DOMAIN db[s.t].cols : \E j \in DOMAIN s.set : s.set[j][1] = db[s.t].cols[k].n}
  IN /\ o.n = Len(Chosen(s.t, s.where))
     /\ Len(o.db[s.t].rows) = Len(Rows(s.t))
     /\ \A r \in DOMAIN Rows(s.t) :
          LET old == Rows(s.t)[r]
              new == o.db[s.t].rows[r]
          IN IF old \in DOMAIN hit
             THEN \A k \in DOMAIN old : IF k \in chg THEN \E j \in DOMAIN s.set : s.set[j][1] = db[s.t].cols[k].n /\ new[k] = Coerce(s.set[j][2], db[s.t].cols[k].t)
                                        ELSE new[k] = old[k]
             ELSE new = old
DeleteAgrees == \A i \in Of("delete") : LET o == Does(i)
                                            s == Stmts[i] IN Accepted(i) =>                                                \* C03, C10
  LET hit == Bag(Chosen(s.t, s.where))
      old == Bag(Rows(s.t))
      new == Bag(o.db[s.t].rows)
  IN /\ o.n = Len(Rows(s.t)) - Len(o.db[s.t].rows)
     /\ DOMAIN new \subseteq DOMAIN old
     /\ \A x \in DOMAIN old : Times(new, x) + Times(hit, x) = old[x]
Negation(o) == CASE o = "=" -> "<>" [] o = "<>" -> "=" [] o = "<" -> ">=" [] o = ">=" -> "<" [] o = ">" -> "<=" [] o = "<=" -> ">"
Single(s) == s.k = "select" /\ s.items = STAR /\ Len(s.from) = 1
(* a comparison and its negation split the rows whose operands are not NULL; exchanging the sides changes nothing *)
ConditionLaws == \A i \in Of("delete") : LET w == Stmts[i].where
                                             t == Stmts[i].t IN (Accepted(i) /\ w # <<>>) =>                               \* C10
  CASE w[1] = "cmp" /\ w[3][1] = "c" /\ w[4][1] = "v" ->
         /\ IsNull(w[4][2]) => Chosen(t, w) = <<>>
         /\ ~IsNull(w[4][2]) => Len(Chosen(t, w)) + Len(Chosen(t, [w EXCEPT ![2] = Negation(@)])) + Len(Chosen(t, <<"null", w[3]>>)) = Len(Rows(t))
         /\ Chosen(t, w) = Chosen(t, <<"cmp", Mirror(w[2]), w[4], w[3]>>)
    [] w[1] = "in" -> /\ Len(Chosen(t, w)) <= Len(Chosen(t, <<"notnull", w[2]>>))
                      /\ (\A j \in DOMAIN w[3] : ~IsNull(w[3][j])) =>
                           Len(Chosen(t, w)) + Len(Chosen(t, <<"nin", w[2], w[3]>>)) = Len(Chosen(t, <<"notnull", w[2]>>))
    [] w[1] = "nin" -> (\E j \in DOMAIN w[3] : IsNull(w[3][j])) => Chosen(t, w) = <<>>
    [] w[1] = "null" -> Len(Chosen(t, w)) + Len(Chosen(t, <<"notnull", w[2]>>)) = Len(Rows(t))
    [] w[1] = "and" -> Len(Chosen(t, w)) + Len(Chosen(t, <<"or", w[2], w[3]>>)) = Len(Chosen(t, w[2])) + Len(Chosen(t, w[3]))
    [] w[1] = "xor" -> Len(Chosen(t, w)) + 2 * Len(Chosen(t, <<"and", w[2], w[3]>>)) = Len(Chosen(t, w[2])) + Len(Chosen(t, w[3]))
    [] OTHER -> TRUE
SelectProjects == \A i \in Of("select") : LET o == Does(i)
                                              s == Stmts[i] IN (Accepted(i) /\ Len(s.from) = 1 /\ s.group = <<>>) =>        \* C04, C06
  LET all == Chosen(s.from[1][1], s.where)
  IN IF ItemCounts(s) # {} THEN o.rows = <<<<I(Len(all))>>>> /\ Len(o.cols) = 1
     ELSE /\ Len(o.rows) = Len(all)
          /\ \A r \in DOMAIN all : \E x \in DOMAIN Rows(s.from[1][1]) : Rows(s.from[1][1])[x] = all[r]
          /\ Stars(s) = {} => \A c \in DOMAIN o.cols : \E k \in DOMAIN db[s.from[1][1]].cols :
               /\ o.cols[c].n = s.from[1][1] \o "." \o db[s.from[1][1]].cols[k].n
               /\ \A r \in DOMAIN all : o.rows[r][c] = all[r][k]
RECURSIVE Prod(_)
Prod(from) == IF from = <<>> THEN 1 ELSE Len(Rows(from[1][1])) * Prod(Tail(from))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Conj(_)
Conj(cs) == IF Len(cs) = 1 THEN cs[1] ELSE <<"and", cs[1], Conj(Tail(cs))>>
(* a join is the selection of the combinations by all its conditions at once, and its order of tables does not matter *)
JoinLaws == \A i \in Of("select") : LET o == Does(i)
                                        s == Stmts[i] IN (Accepted(i) /\ Len(s.from) > 1 /\ s.group = <<>> /\ ItemCounts(s) = {}) =>   \* C05
  /\ Len(o.rows) <= Prod(s.from)
  /\ s.style = "comma" /\ s.where = <<>> => Len(o.rows) = Prod(s.from)
  /\ s.style = "join" => LET ws == s.joins \o (IF s.where = <<>> THEN <<>> ELSE <<s.where>>)
                         IN SameBag(Exec(db, [s EXCEPT !.style = "comma", !.joins = <<>>, !.where = Conj(ws)]).rows, o.rows)
  /\ Len(s.from) = 2 /\ s.style = "comma" /\ Stars(s) # {} =>
       LET n == Len(db[s.from[1][1]].cols)
           m == Len(db[s.from[2][1]].cols)
           r2 == Exec(db, [s EXCEPT !.from = <<s.from[2], s.from[1]>>]).rows
       IN SameBag([r \in DOMAIN r2 |-> SubSeq(r2[r], m + 1, m + n) \o SubSeq(r2[r], 1, m)], o.rows)
(* the counts add up to the rows, one row per key *)
GroupLaws == \A i \in Of("select") : LET o == Does(i)
                                         s == Stmts[i] IN (Accepted(i) /\ s.group # <<>> /\ ItemCols(s) # {}) =>           \* C06
  LET all == Exec(db, [s EXCEPT !.items = SelectSeq(s.items, LAMBDA x : x[1] = "c"), !.group = <<>>]).rows
      cnt == {c \in DOMAIN o.cols : o.cols[c].n = "COUNT(*)"}
      keyof == [r \in DOMAIN o.rows |-> [c \in DOMAIN o.cols \ cnt |-> o.rows[r][c]]]
  IN /\ Len(o.rows) <= Len(all)
     /\ (o.rows = <<>>) = (all = <<>>)
     /\ \A c \in cnt : /\ Sum([r \in DOMAIN o.rows |-> o.rows[r][c][2]]) = Len(all)
                       /\ \A r \in DOMAIN o.rows : o.rows[r][c][2] >= 1
     /\ ItemCols(s) # {} /\ Cardinality({s.items[j] : j \in ItemCols(s)}) = Len(s.group) =>
          /\ Cardinality({keyof[r] : r \in DOMAIN keyof}) = Len(o.rows)
          /\ Len(o.rows) = Cardinality({all[r] : r \in DOMAIN all})
CreateAdds == \A i \in Of("create") : LET o == Does(i)
                                          s == Stmts[i] IN Accepted(i) =>                                                  \* C08
  /\ DOMAIN o.db = DOMAIN db \cup {s.t}
  /\ s.t \notin DOMAIN db => o.db[s.t].rows = <<>> /\ [c \in DOMAIN s.cols |-> s.cols[c].n] = [c \in DOMAIN o.db[s.t].cols |-> o.db[s.t].cols[c].n]
  /\ s.t \in DOMAIN db => s.ine = 1

(* ---- the graph ----------------------------------------------------------------------------------- *)
(* per state: for each statement, the state it leads to; "" stays, "!" rejected, "?" left open, "-" outside the bounds *)
TabNames == <<"A", "B", "Cc", "T", "t", "Tt", "Y", "Z">>
Name(d) == ToString([i \in DOMAIN TabNames |->
             IF TabNames[i] \notin DOMAIN d THEN <<>>
             ELSE LET tab == d[TabNames[i]]
                  IN <<[c \in DOMAIN tab.cols |-> LET x == tab.cols[c] IN <<x.n, x.t, x.p, x.nn, x.uq, x.ai, x.pk, x.ix>>], tab.rows>>])
Leads == [i \in DOMAIN Stmts |-> LET o == Does(i)
                                 IN CASE o.v = "rej" -> "!" [] o.v \in {"any", "may"} -> "?" [] o.db = db -> ""
                                      [] Within(o.db) -> Name(Canon(o.db)) [] OTHER -> "-"]
Printed == ~Emit \/ PrintT("STATE " \o ToJson([f |-> Name(db), to |-> Leads, init |-> IF db = NoDb THEN 1 ELSE 0]))
ASSUME Emit => PrintT("STMTS " \o ToJson(Stmts))
===============================================================================
