-------------------------------- MODULE Judge ---------------------------------
(* Comparing what was observed with what the specification allows.                                      *)
EXTENDS MidoriSQL

SameTable(a, b) == a = b \/ (a.cols = b.cols /\ SameBag(a.rows, b.rows))
Changed(a, b, t) == (t \in DOMAIN a) # (t \in DOMAIN b) \/ (t \in DOMAIN a /\ t \in DOMAIN b /\ ~SameTable(a[t], b[t]))
ChangedTables(a, b) == {t \in DOMAIN a \cup DOMAIN b : Changed(a, b, t)}

Flag(c, name) == IF c THEN {name} ELSE {}

(* the columns of a result set: the expected names and types, in any order *)
ColMap(exp, got) == [i \in DOMAIN got |-> IF got[i].n \in Names(exp) THEN ColIdx(exp, got[i].n) ELSE 0]
ColsOk(exp, got) == /\ Len(exp) = Len(got)
                    /\ Names(exp) = Names(got)
                    /\ \A i \in DOMAIN got : exp[ColIdx(exp, got[i].n)].t = got[i].t
Permute(rows, map) == [r \in DOMAIN rows |-> [i \in DOMAIN map |-> rows[r][map[i]]]]

Result(o, e) ==
  IF ~Known(o) THEN {}
  ELSE IF e.s.k # "select" THEN Flag(e.st # "OK", "status") \cup Flag(e.st = "OK" /\ e.n # o.n, "affected")
  ELSE IF e.st # "ROWS" THEN {"status"}
  ELSE IF ~ColsOk(o.cols, e.cols) THEN {"result-columns"}
  ELSE Flag(IF o.fuzzy THEN Len(e.rows) # Len(o.rows)
            ELSE ~SameBag(e.rows, Permute(o.rows, ColMap(o.cols, e.cols))), "result-rows")

===============================================================================
