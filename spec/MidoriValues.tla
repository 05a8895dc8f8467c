----------------------------- MODULE MidoriValues -----------------------------
(* Values and types of MidoriDB.                                                                      *)
(*   <<"N">>              NULL                                                                        *)
(*   <<"I", n>>           INTEGER, |n| < 2^31      <<"J", sign, digits>> any other INTEGER (BigNum)     *)
(*   <<"D", k>>           DOUBLE with the exact value k/1024, |k| < 2^31                               *)
(*   <<"E", f, s, bits>>  any other DOUBLE: f = floor(1024 * value) clamped, s = sign bit, bits = the    *)
(*                        IEEE magnitude as four 16-bit words, most significant first                   *)
(*   <<"Q">>              the DOUBLE that is not a number                                              *)
(*   <<"B", 0 or 1>>      TINYINT (Boolean)                                                            *)
(*   <<"S", string>>      VARCHAR                                                                      *)
(*   <<"T", yyyymmdd, hhmmss>>  DATE (hhmmss = 0) and DATETIME                                          *)
(*   <<"W">>              a number the specification does not determine (inexact division, overflow)      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigNum

NULL == <<"N">>
IsNull(v) == v[1] = "N"

LitType(v) == CASE v[1] \in {"I", "J"} -> "INTEGER"
                [] v[1] \in {"D", "E", "Q"} -> "DOUBLE"
                [] v[1] = "B" -> "TINYINT"
                [] v[1] = "S" -> "VARCHAR"
                [] v[1] = "N" -> "NULL"
                [] OTHER -> "?"

(* ---- verdicts --------------------------------------------------------------------------------- *)
OK == [v |-> "ok", why |-> ""]
ANY == [v |-> "any", why |-> ""]             \* the specification leaves acceptance and effect open
MAY == [v |-> "may", why |-> ""]             \* acceptance is left open, but an accepted statement must mean this
Known(c) == c.v \in {"ok", "may"}
Rej(why) == [v |-> "rej", why |-> why]
Both(a, b) == IF a.v = "rej" THEN a
              ELSE IF b.v = "rej" THEN b
              ELSE IF a.v = "any" THEN a
              ELSE IF b.v = "any" THEN b
              ELSE IF a.v = "may" THEN a ELSE b
RECURSIVE AllOf(_)
AllOf(s) == IF s = <<>> THEN OK ELSE Both(Head(s), AllOf(Tail(s)))
If(c, r) == IF c THEN OK ELSE r

(* ---- dates ------------------------------------------------------------------------------------- *)
DigitOf == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4)
           @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
Ch(s, i) == SubSeq(s, i, i)
IsDig(s, i) == Ch(s, i) \in DOMAIN DigitOf
Num2(s, i) == DigitOf[Ch(s, i)] * 10 + DigitOf[Ch(s, i + 1)]

DateShape(s) == /\ Len(s) >= 10
                /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDig(s, i)
                /\ Ch(s, 5) = "-" /\ Ch(s, 8) = "-"
TimeShape(s) == /\ Len(s) = 19 /\ Ch(s, 11) = " " /\ Ch(s, 14) = ":" /\ Ch(s, 17) = ":"
                /\ \A i \in {12, 13, 15, 16, 18, 19} : IsDig(s, i)
Year(s) == Num2(s, 1) * 100 + Num2(s, 3)
Month(s) == Num2(s, 6)
Day(s) == Num2(s, 9)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DateVal(s) == Year(s) * 10000 + Month(s) * 100 + Day(s)
TimeVal(s) == Num2(s, 12) * 10000 + Num2(s, 15) * 100 + Num2(s, 18)
(* spellings without leading zeros: their acceptance is left open, their meaning is not *)
RECURSIVE Split(_, _, _)
(* the numbers between the separators *)
Split(s, i, acc) == IF i > Len(s) THEN acc
                    ELSE IF IsDig(s, i) THEN Split(s, i + 1, [acc EXCEPT ![Len(acc)] = <<@[1] * 10 + DigitOf[Ch(s, i)], @[2] + 1>>])
                    ELSE Split(s, i + 1, acc \o <<<<0, 0>>>>)
Groups(s) == Split(s, 1, <<<<0, 0>>>>)
Marks(s) == SelectSeq([i \in 1..Len(s) |-> IF IsDig(s, i) THEN "" ELSE Ch(s, i)], LAMBDA c : c # "")
Short(g, first) == \A i \in DOMAIN g : g[i][2] >= 1 /\ g[i][2] <= (IF i = 1 THEN first ELSE 2)
LooseDate(s) == Len(s) <= 10 /\ Marks(s) = <<"-", "-">> /\ Short(Groups(s), 4) /\ Groups(s)[1][2] = 4
LooseDateTime(s) == Len(s) <= 19 /\ Marks(s) = <<"-", "-", " ", ":", ":">> /\ Short(Groups(s), 4) /\ Groups(s)[1][2] = 4
Fields(s) == [i \in DOMAIN Groups(s) |-> Groups(s)[i][1]]
DateFields(s) == SubSeq(Fields(s), 1, 3)
TimeFields(s) == SubSeq(Fields(s), 4, 6)
CheckFields(f, good) ==
  IF f[2] \notin 1..12 \/ f[3] \notin 1..DaysIn(f[1], f[2]) THEN Rej("date")
  ELSE IF Len(f) = 6 /\ (f[4] > 23 \/ f[5] > 59 \/ f[6] > 61) THEN Rej("date")
  ELSE IF Len(f) = 6 /\ f[6] > 59 THEN ANY
  ELSE good

NoDigit(s) == \A i \in 1..Len(s) : ~IsDig(s, i)
NoColon(s) == \A i \in 1..Len(s) : Ch(s, i) # ":"

CheckDate(s) ==
  IF NoDigit(s) THEN Rej("date")
  ELSE IF ~DateShape(s) THEN (IF LooseDate(s) THEN CheckFields(DateFields(s), MAY) ELSE ANY)   \* other spellings strptime may accept
  ELSE IF Month(s) \notin 1..12 \/ Day(s) \notin 1..DaysIn(Year(s), Month(s)) THEN Rej("date")
  ELSE IF Len(s) > 10 THEN Rej("date")
  ELSE IF Year(s) = 0 THEN MAY
  ELSE OK
CheckDateTime(s) ==
  IF NoDigit(s) \/ NoColon(s) THEN Rej("date")
  ELSE IF ~(DateShape(s) /\ TimeShape(s)) THEN (IF LooseDateTime(s) THEN CheckFields(DateFields(s) \o TimeFields(s), MAY) ELSE ANY)
  ELSE IF Month(s) \notin 1..12 \/ Day(s) \notin 1..DaysIn(Year(s), Month(s)) THEN Rej("date")
  ELSE IF Num2(s, 12) > 23 \/ Num2(s, 15) > 59 \/ Num2(s, 18) > 61 THEN Rej("date")
  ELSE IF Num2(s, 18) > 59 THEN ANY
  ELSE IF Year(s) = 0 THEN MAY
  ELSE OK

(* ---- assigning a literal to a column ----------------------------------------------------------- *)
CheckAssign(v, col) ==
  IF IsNull(v) THEN (IF col.nn = 1 THEN Rej("notnull") ELSE OK)
  ELSE IF v[1] = "S" /\ col.t = "DATE" THEN CheckDate(v[2])
  ELSE IF v[1] = "S" /\ col.t = "DATETIME" THEN CheckDateTime(v[2])
  ELSE IF LitType(v) # col.t THEN Rej("type")
  ELSE IF col.t = "VARCHAR" THEN If(Len(v[2]) < col.p, Rej("length"))   \* p counts the terminator
  ELSE OK

(* the value stored: dates are stored parsed *)
Coerce(v, type) ==
  IF v[1] # "S" \/ type \notin {"DATE", "DATETIME"} THEN v
  ELSE IF IF type = "DATE" THEN LooseDate(v[2]) ELSE LooseDateTime(v[2])
       THEN LET f == Fields(v[2]) IN <<"T", f[1] * 10000 + f[2] * 100 + f[3], IF type = "DATETIME" THEN f[4] * 10000 + f[5] * 100 + f[6] ELSE 0>>
  ELSE <<"T", DateVal(v[2]), IF type = "DATETIME" THEN TimeVal(v[2]) ELSE 0>>

(* ---- comparing stored values of one type --------------------------------------------------------- *)
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
(* the sign and magnitude order of IEEE doubles *)
DblLess(x, y) ==
  IF x[1] = "D" /\ y[1] = "D" THEN x[2] < y[2]
  ELSE IF x[1] = "D" THEN x[2] <= y[2]            \* y lies strictly above its floor
  ELSE IF y[1] = "D" THEN x[2] < y[2]
  ELSE IF x[3] # y[3] THEN x[3] = 1
  ELSE IF x[3] = 1 THEN LexLess(y[4], x[4], 1) ELSE LexLess(x[4], y[4], 1)

ValLess(x, y) ==
  CASE x[1] \in {"I", "J"} -> IntCmp(x, y) < 0
    [] x[1] \in {"D", "E"} -> DblLess(x, y)
    [] x[1] = "T" -> x[2] < y[2] \/ (x[2] = y[2] /\ x[3] < y[3])
    [] x[1] = "B" -> x[2] < y[2]
    [] OTHER -> FALSE

(* a comparison with NULL on either side is false, whatever the operator *)
CmpVals(op, x, y) ==
  IF IsNull(x) \/ IsNull(y) THEN FALSE
  ELSE IF "Q" \in {x[1], y[1]} THEN op = "<>"
  ELSE CASE op = "=" -> x = y
         [] op = "<>" -> x # y
         [] op = "<" -> ValLess(x, y)
         [] op = ">" -> ValLess(y, x)
         [] op = "<=" -> x = y \/ ValLess(x, y)
         [] op = ">=" -> x = y \/ ValLess(y, x)

(* the operator that gives the same outcome with its operands exchanged *)
Mirror(op) == CASE op = "<" -> ">" [] op = ">" -> "<" [] op = "<=" -> ">=" [] op = ">=" -> "<=" [] OTHER -> op

(* ---- arithmetic of INSERT expressions ---------------------------------------------------------- *)
Wild == <<"W">>
Clip(x) == IF x[1] = "W" \/ IntFits(x) THEN x ELSE Wild
IntArith(op, x, y) ==
  CASE op = "+" -> Clip(IntAdd(x, y))
    [] op = "-" -> Clip(IntSub(x, y))
    [] op = "*" -> Clip(IntMul(x, y))
    [] op = "/" -> IF IntZero(y) THEN NULL ELSE Clip(IntDiv(x, y))
    [] op = "%" -> IF IntZero(y) THEN NULL ELSE IntMod(x, y)

Abs(n) == IF n < 0 THEN -n ELSE n
TDiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))
TMod(a, b) == IF a < 0 THEN -(Abs(a) % Abs(b)) ELSE Abs(a) % Abs(b)
DLIM == 1000000000
DOk(k) == <<"D", k>>
(* exact results only; anything that needs rounding is a wild card *)
DblArith(op, x, y) ==
  IF op \in {"/", "%"} /\ y[1] = "D" /\ (IF op = "/" THEN y[2] = 0 ELSE Abs(y[2]) < 1024) THEN NULL
  ELSE IF x[1] # "D" \/ y[1] # "D" THEN Wild
  ELSE CASE op \in {"+", "-"} -> IF Abs(x[2]) < DLIM /\ Abs(y[2]) < DLIM
                                 THEN DOk(IF op = "+" THEN x[2] + y[2] ELSE x[2] - y[2]) ELSE Wild
         [] op = "*" -> IF Abs(x[2]) < 40000 /\ Abs(y[2]) < 40000
                        THEN (IF Abs(x[2] * y[2]) % 1024 = 0 THEN DOk(TDiv(x[2] * y[2], 1024)) ELSE Wild)
                        ELSE IF Abs(x[2]) % 1024 = 0 /\ Abs(x[2]) < 40000 * 1024 /\ Abs(y[2]) < 40000
                             THEN DOk(TDiv(x[2], 1024) * y[2])
                        ELSE IF Abs(y[2]) % 1024 = 0 /\ Abs(y[2]) < 40000 * 1024 /\ Abs(x[2]) < 40000
                             THEN DOk(TDiv(y[2], 1024) * x[2])
                        ELSE Wild
         [] op = "/" -> IF Abs(x[2]) < 2000000
                        THEN (IF (Abs(x[2]) * 1024) % Abs(y[2]) = 0 THEN DOk(TDiv(x[2] * 1024, y[2])) ELSE Wild)
                        ELSE IF Abs(x[2]) % Abs(y[2]) = 0 /\ Abs(x[2]) \div Abs(y[2]) < 2000000
                             THEN DOk(TDiv(x[2], y[2]) * 1024)
                        ELSE Wild
         [] op = "%" -> DOk(TMod(TDiv(x[2], 1024), TDiv(y[2], 1024)) * 1024)

Arith(op, x, y) ==
  IF IsNull(x) \/ IsNull(y) THEN NULL
  ELSE IF x[1] = "W" \/ y[1] = "W" THEN Wild
  ELSE IF x[1] \in {"I", "J"} THEN IntArith(op, x, y)
  ELSE DblArith(op, x, y)
Negate(x) == CASE x[1] \in {"I", "J"} -> Clip(IntMinus(x))
               [] x[1] = "D" -> DOk(-x[2])
               [] x[1] = "N" -> NULL
               [] OTHER -> Wild
===============================================================================
