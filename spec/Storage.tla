------------------------------- MODULE Storage -------------------------------
(* The storage of one table as its users see it: columns and a set of addressed rows.  An address is opaque  *)
(* and stays valid until the rows are laid out again (vacuum, adding or removing a column).                  *)
(*                                                                                                          *)
(*   cols  sequence of columns, each a record [n, t, p, f] (name, type, length, flags)                        *)
(*   rows  function from addresses to sequences of values                                                    *)
(*                                                                                                          *)
(* Step(cols, rows, op, a, at, r, cols2, rows2, dead) says whether an operation may answer r and leave         *)
(* (cols2, rows2) with `dead` deleted slots behind; Storage is deliberately silent about the layout.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxColumns == 128
Zero(t) == CASE t = "VARCHAR" -> "s" [] t = "INTEGER" -> "i0" [] t = "TINYINT" -> "b0" [] t = "DOUBLE" -> "d0000000000000000" [] OTHER -> "t0"

Names(cols) == {cols[i].n : i \in DOMAIN cols}
Index(cols, n) == CHOOSE i \in DOMAIN cols : cols[i].n = n
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

(* the multiset of the rows *)
BagOf(rows) == LET V == {rows[a] : a \in DOMAIN rows} IN [v \in V |-> Cardinality({a \in DOMAIN rows : rows[a] = v})]

CanAdd(cols, c) == c.p >= 1 /\ Len(cols) < MaxColumns /\ c.n \notin Names(cols)
CanRemove(cols, n) == n \in Names(cols)

(* what is wrong with a step, as a set of names *)
Flag(c, name) == IF c THEN {name} ELSE {}
Same(cols, rows, cols2, rows2) == Flag(cols # cols2, "columns") \cup Flag(rows # rows2, "rows")
Lost(b, b2) == \E v \in DOMAIN b : v \notin DOMAIN b2

Faults(cols, rows, op, a, at, r, cols2, rows2, dead) ==
  CASE op = "ins" ->
         IF r # "ok" THEN {"refused"} \cup Same(cols, rows, cols2, rows2)
         ELSE LET new == DOMAIN rows2 \ DOMAIN rows
              IN Flag(cols2 # cols, "columns") \cup Flag(Cardinality(new) # 1, "added") \cup Flag(DOMAIN rows \ DOMAIN rows2 # {}, "lost")
                 \cup Flag(\E x \in new : rows2[x] # a.vals, "stored") \cup Flag(\E x \in DOMAIN rows \cap DOMAIN rows2 : rows[x] # rows2[x], "other")
    [] op \in {"badlen", "updbad", "delbad"} -> Flag(r = "ok", "accepted") \cup Same(cols, rows, cols2, rows2)
    [] op \in {"del", "upd"} /\ r = "none" -> Flag(DOMAIN rows # {}, "none") \cup Same(cols, rows, cols2, rows2)
    [] op = "del" ->
         IF r # "ok" THEN {"refused"} \cup Same(cols, rows, cols2, rows2)
         ELSE Same(cols, [x \in DOMAIN rows \ {at} |-> rows[x]], cols2, rows2)
    [] op = "upd" ->
         IF r # "ok" THEN {"refused"} \cup Same(cols, rows, cols2, rows2)
         ELSE Same(cols, [rows EXCEPT ![at] = a.vals], cols2, rows2)
    [] op = "vac" ->
         Flag(r # "ok", "refused") \cup Flag(cols # cols2, "columns") \cup Flag(BagOf(rows) # BagOf(rows2), "rows") \cup Flag(dead # 0, "deleted-kept")
    [] op = "add" ->
         IF ~CanAdd(cols, a.col) THEN Flag(r = "ok", "accepted") \cup Same(cols, rows, cols2, rows2)
         ELSE Flag(r # "ok", "refused") \cup Flag(cols2 # Append(cols, a.col), "columns")
              \cup Flag(BagOf(rows2) # BagOf([x \in DOMAIN rows |-> Append(rows[x], Zero(a.col.t))]), "rows")
    [] op = "rem" ->
         IF ~CanRemove(cols, a.name) THEN Flag(r = "ok", "accepted") \cup Same(cols, rows, cols2, rows2)
         ELSE LET k == Index(cols, a.name)
              IN Flag(r # "ok", "refused") \cup Flag(cols2 # Drop(cols, k), "columns")
                 \cup Flag(BagOf(rows2) # BagOf([x \in DOMAIN rows |-> Drop(rows[x], k)]), "rows")
===============================================================================
