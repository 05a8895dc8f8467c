-------------------------------- MODULE ExprMC --------------------------------
(* Arithmetic as it is written: token sequences with numbers, + - * / %, unary minus and parentheses, their      *)
(* parse by precedence and left associativity, and the value MidoriSQL gives them.  Every sequence up to the       *)
(* bounds is a state; the complete ones are printed with their parse and run as INSERT values on the real code.     *)
(* Checked on each of them: the parse agrees with a second, declarative definition of precedence; the value agrees   *)
(* with TLC's own integers; redundant parentheses, signs and regrouping obey the laws of arithmetic.                *)
EXTENDS MidoriSQL, Json

CONSTANTS MaxOperands, MaxMinus, MaxParens, Emit
VARIABLES toks, depth, want, minus, parens, lits
vars == <<toks, depth, want, minus, parens, lits>>

(* the numbers in the order in which they are used: one sequence per behaviour *)
INum(n) == <<"I", n>>
DNum(k) == <<"D", k>>
Numbers == <<<<INum(7), INum(2), INum(3), INum(5)>>, <<INum(20), INum(6), INum(4), INum(3)>>, <<INum(5), INum(0), INum(2), INum(0)>>,
             <<DNum(7680), DNum(2048), DNum(512), DNum(4096)>>, <<<<"J", 0, <<5807, 5477, 368, 3372, 922>>>>, INum(3), INum(1000), INum(7)>>>>
Place == "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4         \* tokens are strings, numbers by their place
IsNum(x) == x \in DOMAIN Place
Num(k) == Numbers[lits][Place[k]]
BinOps == {"+", "-", "*", "/", "%"}
Used == Cardinality({i \in DOMAIN toks : IsNum(toks[i])})

Init == toks = <<>> /\ depth = 0 /\ want = "operand" /\ minus = 0 /\ parens = 0 /\ lits \in DOMAIN Numbers
Put(t) == toks' = Append(toks, t)
PutNumber == want = "operand" /\ Used < MaxOperands /\ Put(ToString(Used + 1)) /\ want' = "operator" /\ UNCHANGED <<depth, minus, parens, lits>>
PutMinus == want = "operand" /\ minus < MaxMinus /\ Put("~") /\ minus' = minus + 1 /\ UNCHANGED <<depth, want, parens, lits>>
PutOpen == want = "operand" /\ parens < MaxParens /\ Used < MaxOperands - 1 /\ Put("(") /\ depth' = depth + 1 /\ parens' = parens + 1 /\ UNCHANGED <<want, minus, lits>>
PutClose == /\ want = "operator" /\ depth > 0 /\ toks[Len(toks) - 1] # "("          \* not around a lone number
            /\ Put(")") /\ depth' = depth - 1 /\ UNCHANGED <<want, minus, parens, lits>>
PutOp == want = "operator" /\ Used < MaxOperands /\ \E o \in BinOps : Put(o) /\ want' = "operand" /\ UNCHANGED <<depth, minus, parens, lits>>
Next == PutNumber \/ PutMinus \/ PutOpen \/ PutClose \/ PutOp
Spec == Init /\ [][Next]_vars
Complete == want = "operator" /\ depth = 0

(* ---- the parse: [e |-> tree, i |-> position after it] ---- *)
RECURSIVE Sum(_, _), SumRest(_, _, _), Term(_, _), TermRest(_, _, _), Factor(_, _)
TokAt(ts, i) == IF i \in DOMAIN ts THEN ts[i] ELSE ""
Factor(ts, i) == CASE ts[i] = "~" -> LET f == Factor(ts, i + 1) IN [e |-> <<"neg", f.e>>, i |-> f.i]
                   [] ts[i] = "(" -> LET s == Sum(ts, i + 1) IN [e |-> s.e, i |-> s.i + 1]
                   [] OTHER -> [e |-> <<"v", Num(ts[i])>>, i |-> i + 1]
TermRest(ts, l, i) == IF TokAt(ts, i) \in {"*", "/", "%"} THEN LET r == Factor(ts, i + 1) IN TermRest(ts, <<"op", ts[i], l, r.e>>, r.i) ELSE [e |-> l, i |-> i]
Term(ts, i) == LET f == Factor(ts, i) IN TermRest(ts, f.e, f.i)
SumRest(ts, l, i) == IF TokAt(ts, i) \in {"+", "-"} THEN LET r == Term(ts, i + 1) IN SumRest(ts, <<"op", ts[i], l, r.e>>, r.i) ELSE [e |-> l, i |-> i]
Sum(ts, i) == LET t == Term(ts, i) IN SumRest(ts, t.e, t.i)
Parse(ts) == Sum(ts, 1).e

(* ---- the same, declared: the last operator of the weakest kind outside parentheses is applied last ---- *)
Opened(ts, i) == Cardinality({j \in 1..i : ts[j] = "("}) - Cardinality({j \in 1..i : ts[j] = ")"})
Last(ts, ops) == {i \in DOMAIN ts : ts[i] \in ops /\ Opened(ts, i) = 0}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Tree(_)
Tree(ts) == LET weak == Last(ts, {"+", "-"})
                strong == Last(ts, {"*", "/", "%"})
                cut == MaxOf(IF weak # {} THEN weak ELSE strong)
            IN IF weak \cup strong # {} THEN <<"op", ts[cut], Tree(SubSeq(ts, 1, cut - 1)), Tree(SubSeq(ts, cut + 1, Len(ts)))>>
               ELSE IF ts[1] = "~" THEN <<"neg", Tree(Tail(ts))>>
               ELSE IF ts[1] = "(" THEN Tree(SubSeq(ts, 2, Len(ts) - 1))
               ELSE <<"v", Num(ts[1])>>

(* ---- the value in TLC's integers; none after a division by zero ---- *)
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
RECURSIVE Plain(_)
Plain(e) == CASE e[1] = "v" -> <<e[2][2]>>
              [] e[1] = "neg" -> LET x == Plain(e[2]) IN IF x = <<>> THEN x ELSE <<-x[1]>>
              [] OTHER -> LET a == Plain(e[3])
                              b == Plain(e[4])
                          IN IF <<>> \in {a, b} \/ (e[2] \in {"/", "%"} /\ b = <<0>>) THEN <<>>
                             ELSE <<CASE e[2] = "+" -> a[1] + b[1] [] e[2] = "-" -> a[1] - b[1] [] e[2] = "*" -> a[1] * b[1]
                                      [] e[2] = "/" -> Quot(a[1], b[1])
                                      [] OTHER -> a[1] - b[1] * Quot(a[1], b[1])>>

SmallNumbers == lits \in {1, 2, 3}
Value == Eval(Parse(toks))
ParseAgrees == Complete => Parse(toks) = Tree(toks)
ValueAgrees == Complete /\ SmallNumbers => LET p == Plain(Parse(toks)) IN IF p = <<>> THEN IsNull(Value) ELSE Value = INum(p[1])
KnownValue == Complete => Value[1] \in {"I", "J", "D", "E", "N", "W"}
Laws == Complete => LET e == Parse(toks) IN
  /\ Parse(<<"(">> \o toks \o <<")">>) = e
  /\ Eval(<<"neg", <<"neg", e>>>>) = Value
  /\ e[1] = "op" => LET a == e[3]
                        b == e[4]
                        v(o, x, y) == Eval(<<"op", o, x, y>>)
                    IN /\ e[2] \in {"+", "*"} => v(e[2], b, a) = Value
                       /\ e[2] = "-" => v("+", a, <<"neg", b>>) = Value
                       /\ (e[2] \in {"/", "%"} /\ SmallNumbers /\ ~IsNull(Value)) => v("+", <<"op", "*", b, <<"op", "/", a, b>>>>, <<"op", "%", a, b>>) = Eval(a)

Spelled == [i \in DOMAIN toks |-> IF IsNum(toks[i]) THEN <<"v", Num(toks[i])>> ELSE IF toks[i] = "~" THEN "-" ELSE toks[i]]
Printed == ~(Emit /\ Complete) \/ PrintT("EXPR " \o ToJson([t |-> Spelled, e |-> Parse(toks)]))
===============================================================================
