------------------------------ MODULE Concurrent ------------------------------
(* Threads executing statements on one database: every statement takes effect at one moment between its     *)
(* call and its return.                                                                                *)
(*                                                                                                    *)
(* Runs is a sequence of recorded runs: the database before the threads started (init), the statements of      *)
(* every thread with their observed outcomes and the times of call and return (inv, resp: all different), and     *)
(* the database afterwards (final).  A behaviour of this specification executes the statements of one run, one      *)
(* at a time, in some order that keeps the order of each thread and real time and in which every statement has        *)
(* the outcome that was observed.  The run is explained (and accepted) when a behaviour ends in the final database      *)
(* and synchronisation orders all conflicting accesses to memory (conf), without which C gives the run no meaning.      *)
EXTENDS Judge, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r,      \* the run
          pos,    \* next statement of each thread
          db
vars == <<r, pos, db>>

Tab(x) == [t \in DOMAIN x |-> x[t]]
Init == /\ TLCSet(1, {})
        /\ r \in 1..Len(Runs)
        /\ pos = [t \in DOMAIN Runs[r].ops |-> 1]
        /\ db = Tab(Runs[r].init)

Left(t) == pos[t] <= Len(Runs[r].ops[t])
Op(t) == Runs[r].ops[t][pos[t]]
(* nothing that has returned by the time it was called is still to take effect *)
InTime(t) == \A u \in DOMAIN pos : Left(u) => Op(u).resp > Op(t).inv

(* the database after e, if the specification allows what was observed *)
Allowed(o, e) ==
  CASE e.st = "ERR" -> o.v # "ok"
    [] e.st \in {"OK", "ROWS"} -> o.v # "rej" /\ Result(o, e) = {}
    [] OTHER -> FALSE
After(o, e) == IF e.st = "ERR" THEN db ELSE o.db
(* the specification leaves open what the statement does to the tables (an overflow, say): nothing is claimed about the run *)
Open(o, e) == e.st # "ERR" /\ e.s.k # "select" /\ (o.fuzzy \/ o.v # "ok")

(* ---- accesses to the same memory by two threads, one of them writing: <<earlier, later>>, each with the clocks of ---- *)
(* ---- its thread (how much of every thread had happened before it, by program order and synchronisation)          ---- *)
Ordered(c) == c[1].vc[c[1].t + 1] <= c[2].vc[c[1].t + 1]
RaceFree == \A i \in DOMAIN Runs[r].conf : Ordered(Runs[r].conf[i])

Step == \E t \in DOMAIN pos :
          /\ r \notin TLCGet(1)
          /\ Left(t) /\ InTime(t)
          /\ LET e == Op(t)
                 o == TLCEval(Exec(db, e.s))
             IN Allowed(o, e) /\ db' = After(o, e) /\ (IF Open(o, e) /\ RaceFree THEN TLCSet(1, TLCGet(1) \cup {r}) ELSE TRUE)
          /\ pos' = [pos EXCEPT ![t] = @ + 1]
          /\ UNCHANGED r

Finished == \A t \in DOMAIN pos : ~Left(t)
Explained == Finished /\ RaceFree /\ ChangedTables(db, Tab(Runs[r].final)) = {}
(* every statement's effect seen, whatever the order, the database obeys its invariants *)
Sound == /\ \A t \in DOMAIN db : TypedTable(db[t]) /\ NotNullTable(db[t])
         /\ IF Explained THEN TLCSet(1, TLCGet(1) \cup {r}) ELSE TRUE

Spec == Init /\ [][Step]_vars

Done == PrintT("RUNS " \o ToJson([runs |-> Len(Runs), explained |-> {Runs[x].h : x \in TLCGet(1)}, states |-> TLCGet("stats").distinct, steps |-> TLCGet("stats").generated]))
===============================================================================
