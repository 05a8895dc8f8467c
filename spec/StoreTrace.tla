------------------------------ MODULE StoreTrace ------------------------------
(* Trace validation of the storage layer: every recorded operation on a table must be a step of Storage.      *)
(* The next step starts from what was observed, so one divergence does not hide the following ones.            *)
EXTENDS Storage, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cols, rows
vars == <<l, cols, rows>>

Init == l = 1 /\ cols = <<>> /\ rows = <<>> /\ TLCSet(1, [x \in {} |-> 0]) /\ TLCSet(2, 0)

(* the observed rows, by address; an address listed twice would be a fault of the driver *)
RowsOf(seq) == LET D == {seq[i][1] : i \in DOMAIN seq} IN [a \in D |-> seq[CHOOSE i \in DOMAIN seq : seq[i][1] = a][2]]

Tally(key) == LET m == TLCGet(1)
              IN TLCSet(1, IF key \in DOMAIN m THEN [m EXCEPT ![key] = @ + 1] ELSE (key :> 1) @@ m)

StepNew == /\ l <= Len(Trace) /\ Trace[l].ev = "reset"
           /\ cols' = Trace[l].cols /\ rows' = RowsOf(Trace[l].rows) /\ l' = l + 1

StepOp == /\ l <= Len(Trace) /\ Trace[l].ev = "op"
          /\ LET e == Trace[l]
                 rows2 == TLCEval(RowsOf(e.rows))
                 f == TLCEval(IF e.st # "OK" THEN {e.st} ELSE Faults(cols, rows, e.op, e.a, e.at, e.r, e.cols, rows2, e.dead))
             IN /\ Tally(e.op \o ":" \o e.r)
                /\ IF f = {} THEN TRUE
                   ELSE /\ TLCSet(2, TLCGet(2) + 1)
                        /\ PrintT("MISMATCH " \o ToJson([h |-> e.h, i |-> e.i, k |-> e.op, v |-> "ok", why |-> "", asp |-> f]))
                /\ cols' = (IF e.st = "OK" THEN e.cols ELSE cols)
                /\ rows' = (IF e.st = "OK" THEN rows2 ELSE rows)
          /\ l' = l + 1

Next == StepNew \/ StepOp
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter = Len(Trace) + 1
        /\ PrintT("TRACE-DONE " \o ToJson([events |-> Len(Trace), mismatches |-> TLCGet(2), tally |-> TLCGet(1)]))
===============================================================================
