-------------------------------- MODULE DsTrace --------------------------------
(* Trace validation of the containers: every recorded operation must be a step of Containers, and the    *)
(* whole content observed after it must be the specified one.  After a mismatch the rest of the history    *)
(* is skipped.                                                                                         *)
EXTENDS Containers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind, st, par, bad
vars == <<l, kind, st, par, bad>>

Init == l = 1 /\ kind = "" /\ st = <<>> /\ par = 0 /\ bad = FALSE
        /\ TLCSet(1, [x \in {} |-> 0]) /\ TLCSet(2, 0)

Flag(c, name) == IF c THEN {name} ELSE {}
Map(found) == [k \in {i \in DOMAIN found : found[i] # 0} |-> found[k]]

Faults(e) ==
  IF e.st # "OK" THEN {e.st}
  ELSE LET s2 == After(kind, st, e.op, e.a)
       IN Flag(~AnswerOk(kind, st, e.op, e.a, e.r), "answer")
          \cup (CASE kind = "ht" -> Flag(e.n # Cardinality(DOMAIN s2), "count")
                  [] kind \in {"queue", "stack"} -> Flag(e.n # Len(s2), "count") \cup Flag((e.empty # 0) # (s2 = <<>>), "empty")
                  [] kind = "vector" -> Flag(2 * e.n # Len(s2), "count")
                  [] kind = "list" -> Flag(e.n # Len(s2), "count") \cup Flag((e.empty # 0) # (s2 = <<>>), "empty")
                  [] OTHER -> {})
          \cup (IF e.full = 0 THEN {}      \* of long histories, only some steps show the whole content
                ELSE CASE kind = "ht" -> Flag(~Lists(e.all, s2), "content")
                  [] kind \in {"queue", "stack", "vector"} -> Flag(e.all # s2, "content")
                  [] kind = "list" -> Flag(e.all # s2, "content") \cup Flag(e.back # [i \in DOMAIN s2 |-> s2[Len(s2) + 1 - i]], "backwards")
                  [] kind = "btree" -> Flag(Map(e.found) # s2, "found") \cup TreeFaults(e.tree, par, s2))

Tally(key) == LET m == TLCGet(1)
              IN TLCSet(1, IF key \in DOMAIN m THEN [m EXCEPT ![key] = @ + 1] ELSE (key :> 1) @@ m)

StepNew == /\ l <= Len(Trace) /\ Trace[l].ev = "reset"
           /\ kind' = Trace[l].kind /\ par' = Trace[l].par /\ st' = Empty(Trace[l].kind) /\ bad' = FALSE /\ l' = l + 1

StepOp == /\ l <= Len(Trace) /\ Trace[l].ev = "op"
          /\ LET e == Trace[l]
                 f == IF bad THEN {} ELSE IF ~Allowed(kind, st, e.op, e.a) THEN {"NOT-ALLOWED"} ELSE TLCEval(Faults(e))
             IN /\ Tally(kind \o ":" \o e.op)
                /\ IF f = {} THEN TRUE
                   ELSE /\ TLCSet(2, TLCGet(2) + 1)
                        /\ PrintT("MISMATCH " \o ToJson([h |-> e.h, i |-> e.i, k |-> kind \o ":" \o e.op, v |-> "ok", why |-> "", asp |-> f]))
                /\ bad' = (bad \/ f # {})
                /\ st' = IF bad \/ f # {} THEN st ELSE TLCEval(After(kind, st, e.op, e.a))
          /\ l' = l + 1 /\ UNCHANGED <<kind, par>>

Next == StepNew \/ StepOp
Spec == Init /\ [][Next]_vars
Done == /\ TLCGet("stats").diameter = Len(Trace) + 1
        /\ PrintT("TRACE-DONE " \o ToJson([events |-> Len(Trace), mismatches |-> TLCGet(2), tally |-> TLCGet(1)]))
===============================================================================
