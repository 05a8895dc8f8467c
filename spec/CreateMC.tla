------------------------------- MODULE CreateMC -------------------------------
(* CREATE TABLE as it is written: columns with attributes and INDEX / PRIMARY KEY clauses in any order.  Every       *)
(* list of up to MaxColumns columns and MaxClauses clauses is a state; each is printed and run on the real code.       *)
(* Checked on each: what MidoriSQL declares is what the elements say, one by one, whatever their order; a clause that    *)
(* names an unknown column and a repeated name are refused wherever they stand.                                        *)
EXTENDS MidoriSQL, Json

CONSTANTS MaxColumns, MaxClauses, Emit
VARIABLES parts
vars == <<parts>>

Attrs == {{}, {"nn"}, {"pk"}, {"uq", "ai"}, {"null"}}
Lists == {<<"x">>, <<"y">>, <<"z">>, <<"y", "x">>, <<"x", "z">>, <<"x", "x">>}
IsCol(e) == e[1] = "col"
Cols == SelectSeq(parts, IsCol)
Clauses == SelectSeq(parts, LAMBDA e : ~IsCol(e))

Init == parts = <<>>
PutColumn == /\ Len(Cols) < MaxColumns
             /\ \E n \in (IF Cols = <<>> THEN {"x"} ELSE {"x", "y", "X"}), a \in Attrs : parts' = Append(parts, <<"col", n, a>>)
PutClause == /\ Len(Clauses) < MaxClauses
             /\ \E k \in {"ix", "pk"}, l \in Lists : parts' = Append(parts, <<"clause", k, l>>)
Next == PutColumn \/ PutClause
Spec == Init /\ [][Next]_vars

Bit(b) == IF b THEN 1 ELSE 0
Column(e) == [n |-> e[2], t |-> "INTEGER", p |-> 0, nn |-> Bit("nn" \in e[3]), uq |-> Bit("uq" \in e[3]), ai |-> Bit("ai" \in e[3]), pk |-> Bit("pk" \in e[3]), null |-> Bit("null" \in e[3])]
Stmt == [k |-> "create", t |-> "T", ine |-> 0, cols |-> [i \in DOMAIN Cols |-> Column(Cols[i])],
         idx |-> [i \in DOMAIN Clauses |-> <<Clauses[i][2], Clauses[i][3]>>]]
(* number of columns before each clause *)
RECURSIVE Before(_, _)
Before(i, n) == IF i > Len(parts) THEN <<>> ELSE IF IsCol(parts[i]) THEN Before(i + 1, n + 1) ELSE <<n>> \o Before(i + 1, n)

(* ---- the same, element by element ---- *)
ColsNamed(n) == {i \in DOMAIN parts : IsCol(parts[i]) /\ parts[i][2] = n}
Says(n, kind) == \E i \in DOMAIN parts : ~IsCol(parts[i]) /\ parts[i][2] = kind /\ n \in {parts[i][3][j] : j \in DOMAIN parts[i][3]}
Valid == /\ \A i \in DOMAIN parts : IsCol(parts[i]) => Cardinality(ColsNamed(parts[i][2])) = 1
         /\ \A i \in DOMAIN parts : IsCol(parts[i]) \/ \A j \in DOMAIN parts[i][3] : ColsNamed(parts[i][3][j]) # {}

Written == Cols # <<>>
Result == ExecCreate(<<>>, Stmt)
Decl(n) == LET c == Result.db["T"].cols IN c[ColIdx(c, n)]
ValidOnly == Written => (Result.v = "ok") = Valid /\ (Result.v = "rej") = ~Valid
Unchanged == Written /\ ~Valid => Result.db = <<>>
Declared == Written /\ Valid => \A i \in DOMAIN parts : IsCol(parts[i]) =>
  LET n == parts[i][2]
      key == "pk" \in parts[i][3] \/ Says(n, "pk")
  IN Decl(n) = [n |-> n, t |-> "INTEGER", p |-> 0, nn |-> Bit(key \/ "nn" \in parts[i][3]), uq |-> Bit(key \/ "uq" \in parts[i][3]),
                ai |-> Bit("ai" \in parts[i][3]), pk |-> Bit(key), ix |-> Bit(Says(n, "ix"))]
Ordered == Written /\ Valid => [i \in DOMAIN Result.db["T"].cols |-> Result.db["T"].cols[i].n] = [i \in DOMAIN Cols |-> Cols[i][2]]
Printed == ~(Emit /\ Written) \/ PrintT("CREATE " \o ToJson([s |-> Stmt, at |-> Before(1, 0)]))
===============================================================================
