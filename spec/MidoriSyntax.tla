----------------------------- MODULE MidoriSyntax ------------------------------
(* Which token sequences are statements of the language.                                              *)
(*                                                                                                    *)
(* A token is a string: a keyword or symbol as itself, NAME, STR, INT, FLT or BOOL for the rest, "=" and      *)
(* CMP for comparisons, FCOUNT for COUNT directly followed by "(".  A parser here is a function from the         *)
(* position where a phrase starts to the position after it, 0 when there is no such phrase there; the grammar      *)
(* is deterministic enough for that.  Operator precedence does not matter for membership.                           *)
EXTENDS Naturals, Sequences

At(ts, i) == IF i \in DOMAIN ts THEN ts[i] ELSE "EOF"
Tok(ts, i, k) == IF i # 0 /\ At(ts, i) = k THEN i + 1 ELSE 0
RECURSIVE Toks(_, _, _)
Toks(ts, i, ks) == IF ks = <<>> THEN i ELSE IF i = 0 THEN 0 ELSE Toks(ts, Tok(ts, i, Head(ks)), Tail(ks))
Opt(ts, i, k) == IF i # 0 /\ At(ts, i) = k THEN i + 1 ELSE i

(* ---- lists of names ---- *)
RECURSIVE NameList(_, _)
NameList(ts, i) == LET j == Tok(ts, i, "NAME") IN IF j # 0 /\ At(ts, j) = "," THEN NameList(ts, j + 1) ELSE j

(* ---- expressions ----
   d: the dialect: "sel" in SELECT, "cond" in conditions of DELETE and of UPDATE (and what UPDATE assigns), "ins" in INSERT *)
Literal == {"STR", "INT", "FLT", "BOOL", "NULL"}
Binary(d) == CASE d = "sel" -> {"+", "-", "*", "/", "%", "MOD", "AND", "&&", "OR", "||", "XOR", "=", "CMP", "LIKE"}
               [] d = "cond" -> {"AND", "&&", "OR", "||", "XOR", "=", "CMP"}
               [] OTHER -> {"+", "-", "*", "/", "%"}

RECURSIVE Expr(_, _, _), Primary(_, _, _), After(_, _, _), Args(_, _, _), Whens(_, _)

Primary(d, ts, i) ==
  LET k == At(ts, i)
  IN CASE k \in Literal -> i + 1
       [] k = "(" -> Tok(ts, Expr(d, ts, i + 1), ")")
       [] k = "NAME" /\ d # "ins" -> IF d = "sel" /\ At(ts, i + 1) = "." THEN Tok(ts, i + 2, "NAME") ELSE i + 1
       [] k = "-" /\ d # "cond" -> Expr(d, ts, i + 1)
       [] k = "FCOUNT" /\ d = "sel" -> IF At(ts, i + 2) = "*" THEN Toks(ts, i + 1, <<"(", "*", ")">>)
                                       ELSE Tok(ts, Expr(d, ts, Tok(ts, i + 1, "(")), ")")
       [] k = "CURRENT_DATE" /\ d = "sel" -> i + 1
       [] k = "CASE" /\ d = "sel" -> LET j == IF At(ts, i + 1) = "WHEN" THEN i + 1 ELSE Expr(d, ts, i + 1)
                                         w == Whens(ts, j)
                                     IN Tok(ts, IF At(ts, w) = "ELSE" /\ w # 0 THEN Expr(d, ts, w + 1) ELSE w, "END")
       [] OTHER -> 0

Whens(ts, i) ==
  LET c == Expr("sel", ts, Tok(ts, i, "WHEN"))
      v == Expr("sel", ts, Tok(ts, c, "THEN"))
  IN IF v # 0 /\ At(ts, v) = "WHEN" THEN Whens(ts, v) ELSE v

Args(d, ts, i) == LET j == Expr(d, ts, i) IN IF j # 0 /\ At(ts, j) = "," THEN Args(d, ts, j + 1) ELSE j

(* what may follow an operand: IS NULL, IN (...), another operator *)
After(d, ts, i) ==
  IF i = 0 THEN 0
  ELSE LET k == At(ts, i)
       IN CASE k = "IS" /\ d # "ins" -> After(d, ts, Tok(ts, Opt(ts, i + 1, "NOT"), "NULL"))
            [] k = "IN" /\ d # "ins" -> After(d, ts, Tok(ts, Args(d, ts, Tok(ts, i + 1, "(")), ")"))
            [] k = "NOT" /\ d # "ins" ->
                 IF At(ts, i + 1) = "IN" THEN After(d, ts, Tok(ts, Args(d, ts, Tok(ts, i + 2, "(")), ")"))
                 ELSE IF d = "sel" THEN Expr(d, ts, Tok(ts, i + 1, "LIKE")) ELSE 0
            [] k \in Binary(d) -> Expr(d, ts, i + 1)
            [] OTHER -> i

Expr(d, ts, i) == IF i = 0 THEN 0 ELSE After(d, ts, Primary(d, ts, i))

(* ---- CREATE TABLE ---- *)
RECURSIVE Attributes(_, _), ColDefs(_, _)
Attributes(ts, i) ==
  LET k == At(ts, i)
  IN IF i = 0 THEN 0
     ELSE CASE k = "NOT" -> Attributes(ts, Tok(ts, i + 1, "NULL"))
            [] k \in {"NULL", "AUTO_INCREMENT", "UNIQUE"} -> Attributes(ts, i + 1)
            [] k = "PRIMARY" -> Attributes(ts, Tok(ts, i + 1, "KEY"))
            [] OTHER -> i
DataType(ts, i) == CASE At(ts, i) \in {"INTEGER", "TINYINT", "DOUBLE", "DATE", "DATETIME"} -> i + 1
                     [] At(ts, i) = "VARCHAR" -> Toks(ts, i + 1, <<"(", "INT", ")">>)
                     [] OTHER -> 0
ColDef(ts, i) ==
  CASE i = 0 -> 0
    [] At(ts, i) = "PRIMARY" -> Tok(ts, NameList(ts, Toks(ts, i + 1, <<"KEY", "(">>)), ")")
    [] At(ts, i) = "INDEX" -> Tok(ts, NameList(ts, Tok(ts, i + 1, "(")), ")")
    [] At(ts, i) = "NAME" -> Attributes(ts, DataType(ts, i + 1))
    [] OTHER -> 0
ColDefs(ts, i) == LET j == ColDef(ts, i) IN IF j # 0 /\ At(ts, j) = "," THEN ColDefs(ts, j + 1) ELSE j
Create(ts, i) ==
  LET a == Toks(ts, i, <<"CREATE", "TABLE">>)
      b == IF a # 0 /\ At(ts, a) = "IF" THEN Toks(ts, a, <<"IF", "NOT", "EXISTS">>) ELSE a
  IN Tok(ts, ColDefs(ts, Toks(ts, b, <<"NAME", "(">>)), ")")

(* ---- SELECT ---- *)
RECURSIVE Items(_, _), Joins(_, _), Sources(_, _), Orders(_, _), Distincts(_, _)
Alias(ts, i) == IF i # 0 /\ At(ts, i) = "AS" THEN Tok(ts, i + 1, "NAME") ELSE Opt(ts, i, "NAME")
Items(ts, i) == LET j == Alias(ts, Expr("sel", ts, i)) IN IF j # 0 /\ At(ts, j) = "," THEN Items(ts, j + 1) ELSE j
ItemList(ts, i) == IF i # 0 /\ At(ts, i) = "*" THEN (IF At(ts, i + 1) = "," THEN Items(ts, i + 2) ELSE i + 1) ELSE Items(ts, i)
Factor(ts, i) == Alias(ts, Tok(ts, i, "NAME"))
Joins(ts, i) ==
  IF i = 0 THEN 0
  ELSE LET k == At(ts, i)
           j == CASE k = "JOIN" -> i + 1
                  [] k = "INNER" -> Tok(ts, i + 1, "JOIN")
                  [] k \in {"LEFT", "RIGHT"} -> Tok(ts, Opt(ts, i + 1, "OUTER"), "JOIN")
                  [] OTHER -> 0
       IN IF k \notin {"JOIN", "INNER", "LEFT", "RIGHT"} THEN i
          ELSE Joins(ts, Expr("sel", ts, Tok(ts, Factor(ts, j), "ON")))
Sources(ts, i) == LET j == Joins(ts, Factor(ts, i)) IN IF j # 0 /\ At(ts, j) = "," THEN Sources(ts, j + 1) ELSE j
AscDesc(ts, i) == IF i # 0 /\ At(ts, i) \in {"ASC", "DESC"} THEN i + 1 ELSE i
Orders(ts, i) == LET j == AscDesc(ts, Expr("sel", ts, i)) IN IF j # 0 /\ At(ts, j) = "," THEN Orders(ts, j + 1) ELSE j
Clause(ts, i, ks, P(_, _)) == IF i # 0 /\ At(ts, i) = Head(ks) THEN P(ts, Toks(ts, i, ks)) ELSE i
SelExpr(ts, i) == Expr("sel", ts, i)
LimitArgs(ts, i) == LET j == SelExpr(ts, i) IN IF j # 0 /\ At(ts, j) = "," THEN SelExpr(ts, j + 1) ELSE j
Distincts(ts, i) == IF i # 0 /\ At(ts, i) = "DISTINCT" THEN Distincts(ts, i + 1) ELSE i
Select(ts, i) ==
  LET a == ItemList(ts, Distincts(ts, Tok(ts, i, "SELECT")))
  IN IF a = 0 \/ At(ts, a) # "FROM" THEN a
     ELSE Clause(ts, Clause(ts, Clause(ts, Clause(ts, Clause(ts, Sources(ts, a + 1),
            <<"WHERE">>, SelExpr), <<"GROUP", "BY">>, Orders), <<"HAVING">>, SelExpr), <<"ORDER", "BY">>, Orders), <<"LIMIT">>, LimitArgs)

(* ---- INSERT, UPDATE, DELETE ---- *)
RECURSIVE Tuples(_, _), Assigns(_, _)
Tuples(ts, i) == LET j == Tok(ts, Args("ins", ts, Tok(ts, i, "(")), ")") IN IF j # 0 /\ At(ts, j) = "," THEN Tuples(ts, j + 1) ELSE j
Insert(ts, i) ==
  LET a == Tok(ts, Opt(ts, Tok(ts, i, "INSERT"), "INTO"), "NAME")
      b == IF a # 0 /\ At(ts, a) = "(" THEN Tok(ts, NameList(ts, a + 1), ")") ELSE a
  IN IF b # 0 /\ At(ts, b) = "SELECT" THEN Select(ts, b) ELSE Tuples(ts, Tok(ts, b, "VALUES"))
Assigns(ts, i) == LET j == Expr("cond", ts, Toks(ts, i, <<"NAME", "=">>)) IN IF j # 0 /\ At(ts, j) = "," THEN Assigns(ts, j + 1) ELSE j
CondExpr(ts, i) == Expr("cond", ts, i)
Update(ts, i) == Clause(ts, Assigns(ts, Toks(ts, i, <<"UPDATE", "NAME", "SET">>)), <<"WHERE">>, CondExpr)
Delete(ts, i) == Clause(ts, Toks(ts, i, <<"DELETE", "FROM", "NAME">>), <<"WHERE">>, CondExpr)

(* ---- statements ---- *)
Statement(ts, i) == CASE At(ts, i) = "CREATE" -> Create(ts, i)
                      [] At(ts, i) = "SELECT" -> Select(ts, i)
                      [] At(ts, i) = "INSERT" -> Insert(ts, i)
                      [] At(ts, i) = "UPDATE" -> Update(ts, i)
                      [] At(ts, i) = "DELETE" -> Delete(ts, i)
                      [] OTHER -> 0
RECURSIVE StatementsFrom(_, _)
StatementsFrom(ts, i) == LET j == Tok(ts, Statement(ts, i), ";")
                         IN j # 0 /\ (j = Len(ts) + 1 \/ StatementsFrom(ts, j))
InLanguage(ts) == StatementsFrom(ts, 1)
===============================================================================
