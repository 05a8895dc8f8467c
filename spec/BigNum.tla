-------------------------------- MODULE BigNum --------------------------------
(* Signed integers of any size.  TLC's integers are 32 bits wide while MidoriDB's INTEGER type is    *)
(* 64 bits wide, so the specification carries its own arithmetic: a magnitude is a sequence of        *)
(* base-10^4 digits, least significant first, without leading zeros (zero is the empty sequence).     *)
EXTENDS Integers, Sequences

BASE == 10000

RECURSIVE MTrim(_)
MTrim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE MTrim(SubSeq(a, 1, Len(a) - 1))

RECURSIVE MOfNat(_)
MOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o MOfNat(n \div BASE)

Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

(* -1, 0 or 1 *)
RECURSIVE MCmpAt(_, _, _)
MCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1
                   ELSE IF a[i] > b[i] THEN 1
                   ELSE MCmpAt(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE MCmpAt(a, b, Len(a))

RECURSIVE MAddAt(_, _, _, _)
MAddAt(a, b, i, carry) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == Digit(a, i) + Digit(b, i) + carry
       IN <<s % BASE>> \o MAddAt(a, b, i + 1, s \div BASE)
MAdd(a, b) == MAddAt(a, b, 1, 0)

RECURSIVE MSubAt(_, _, _, _)
MSubAt(a, b, i, borrow) ==            \* a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - Digit(b, i) - borrow
       IN <<IF d < 0 THEN d + BASE ELSE d>> \o MSubAt(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
MSub(a, b) == MTrim(MSubAt(a, b, 1, 0))

RECURSIVE MScaleAt(_, _, _, _)
MScaleAt(a, d, i, carry) ==
  IF i > Len(a) THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET p == a[i] * d + carry IN <<p % BASE>> \o MScaleAt(a, d, i + 1, p \div BASE)
MScale(a, d) == MTrim(MScaleAt(a, d, 1, 0))

RECURSIVE MMulAt(_, _, _)
MMulAt(a, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET rest == MMulAt(a, b, i + 1)
       IN MAdd(MScale(a, b[i]), IF rest = <<>> THEN <<>> ELSE <<0>> \o rest)
MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE MTrim(MMulAt(a, b, 1))

(* the largest digit d with d * b <= r *)
RECURSIVE MQDigit(_, _, _, _)
MQDigit(r, b, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF MCmp(MScale(b, m), r) <= 0 THEN MQDigit(r, b, m, hi) ELSE MQDigit(r, b, lo, m - 1)

RECURSIVE MDivAt(_, _, _, _, _)
MDivAt(a, b, i, q, r) ==
  IF i = 0 THEN [q |-> MTrim(q), r |-> r]
  ELSE LET r1 == MTrim(<<a[i]>> \o r)
           d  == MQDigit(r1, b, 0, BASE - 1)
       IN MDivAt(a, b, i - 1, <<d>> \o q, MSub(r1, MScale(b, d)))
MDivMod(a, b) == MDivAt(a, b, Len(a), <<>>, <<>>)          \* b # 0

(* ---- signed integers -------------------------------------------------------------------------- *)
(* <<"I", n>> when |n| < 2^31, <<"J", sign, magnitude>> (sign 1 = negative) otherwise               *)

MAX31 == <<3647, 4748, 21>>                              \* 2147483647
MAX63 == <<5807, 5477, 368, 3372, 922>>                  \* 9223372036854775807
MIN63 == <<5808, 5477, 368, 3372, 922>>                  \* its magnitude + 1

RECURSIVE MToNat(_)
MToNat(a) == IF a = <<>> THEN 0 ELSE a[1] + BASE * MToNat(Tail(a))

IntOf(neg, mag) == IF MCmp(mag, MAX31) <= 0
                   THEN <<"I", IF neg = 1 THEN -MToNat(mag) ELSE MToNat(mag)>>
                   ELSE <<"J", neg, mag>>
IntNeg(x) == IF x[1] = "I" THEN (IF x[2] < 0 THEN 1 ELSE 0) ELSE x[2]
IntMag(x) == IF x[1] = "I" THEN MOfNat(IF x[2] < 0 THEN -x[2] ELSE x[2]) ELSE x[3]

(* does the value fit the 64-bit INTEGER type? *)
IntFits(x) == x[1] = "I" \/ MCmp(x[3], IF x[2] = 1 THEN MIN63 ELSE MAX63) <= 0

IntMinus(x) == IF x[1] = "I" THEN <<"I", -x[2]>> ELSE <<"J", 1 - x[2], x[3]>>

IntCmp(x, y) ==
  IF x[1] = "I" /\ y[1] = "I"
  THEN (IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0)
  ELSE IF IntNeg(x) # IntNeg(y) THEN (IF IntNeg(x) = 1 THEN -1 ELSE 1)
  ELSE IF IntNeg(x) = 1 THEN MCmp(IntMag(y), IntMag(x)) ELSE MCmp(IntMag(x), IntMag(y))

Small(x, lim) == x[1] = "I" /\ x[2] < lim /\ x[2] > -lim

IntAdd(x, y) ==
  IF Small(x, 1000000000) /\ Small(y, 1000000000) THEN <<"I", x[2] + y[2]>>
  ELSE IF IntNeg(x) = IntNeg(y) THEN IntOf(IntNeg(x), MAdd(IntMag(x), IntMag(y)))
  ELSE IF MCmp(IntMag(x), IntMag(y)) >= 0 THEN IntOf(IntNeg(x), MSub(IntMag(x), IntMag(y)))
  ELSE IntOf(IntNeg(y), MSub(IntMag(y), IntMag(x)))
IntSub(x, y) == IntAdd(x, IntMinus(y))

IntMul(x, y) ==
  IF Small(x, 40000) /\ Small(y, 40000) THEN <<"I", x[2] * y[2]>>
  ELSE IntOf(IF IntNeg(x) = IntNeg(y) THEN 0 ELSE 1, MMul(IntMag(x), IntMag(y)))

(* division truncates towards zero; the remainder has the sign of the dividend; y # 0 *)
IntDiv(x, y) == IntOf(IF IntNeg(x) = IntNeg(y) THEN 0 ELSE 1, MDivMod(IntMag(x), IntMag(y)).q)
IntMod(x, y) == IntOf(IntNeg(x), MDivMod(IntMag(x), IntMag(y)).r)
IntZero(x) == x[1] = "I" /\ x[2] = 0
===============================================================================
