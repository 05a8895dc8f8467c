------------------------------- MODULE SqlTrace -------------------------------
(* Trace validation: every recorded step of the real database must be a step of MidoriSQL.             *)
(*                                                                                                    *)
(* The trace is a sequence of events, each the observed outcome of one call on the public interface        *)
(* together with the whole projected database after it (only tables that differ from the previous            *)
(* observation are written down).  A step whose outcome or effect Exec does not allow is printed as a           *)
(* MISMATCH with the set of aspects that differ; validation goes on from the observed state, so that every        *)
(* event is judged against what the database really held before it.                                           *)
EXTENDS Judge, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES l,        \* next event
          db,       \* the database as last observed
          held      \* open result sets: slot -> [cols, rows still to be delivered]
vars == <<l, db, held>>

NoHeld == [s \in {} |-> 0]
Init == l = 1 /\ db = NoDb /\ held = NoHeld /\ TLCSet(1, [x \in {} |-> 0]) /\ TLCSet(2, 0)

Observed(e) == [t \in (DOMAIN db \cup DOMAIN e.chg) \ {e.gone[i] : i \in DOMAIN e.gone} |->
                  IF t \in DOMAIN e.chg THEN e.chg[t] ELSE db[t]]

(* what an accepted statement may leave behind *)
Effect(o, s, after) ==
  LET t == Target(s)
      touched == ChangedTables(db, after) \ {t}
  IN Flag(touched # {} /\ s.k # "select", "other-table")
     \cup Flag(touched # {} /\ s.k = "select", "select-changed")
     \cup (IF ~Known(o) \/ t = "" \/ t \notin DOMAIN o.db THEN {}
           ELSE IF t \notin DOMAIN after THEN {"table-missing"}
           ELSE Flag(after[t].cols # o.db[t].cols, "schema")
                \cup Flag(IF o.fuzzy THEN Len(after[t].rows) # Len(o.db[t].rows)
                          ELSE ~SameBag(after[t].rows, o.db[t].rows), "target-rows"))

Sane(after) == Flag(\E t \in DOMAIN after : (t \notin DOMAIN db \/ after[t] # db[t]) /\ ~TypedTable(after[t]), "typed")
               \cup Flag(\E t \in DOMAIN after : (t \notin DOMAIN db \/ after[t] # db[t]) /\ ~NotNullTable(after[t]), "null-in-not-null")

Aspects(o, e, after) ==
  IF e.st \in {"DIED", "HANG"} THEN {e.st}
  ELSE IF e.st = "ERR" THEN
       Flag(o.v = "ok", "rejected") \cup Flag(e.msg = 0, "no-message")
       \cup Flag(ChangedTables(db, after) # {}, "rejected-changed")
  ELSE Flag(o.v = "rej", "accepted")
       \cup Effect(o, e.s, after) \cup Result(o, e) \cup Sane(after)

Report(e, asp, o) ==
  IF asp = {} THEN TRUE
  ELSE
     /\ TLCSet(2, TLCGet(2) + 1)
     /\ PrintT("MISMATCH " \o ToJson([h |-> e.h, i |-> e.i, k |-> IF e.ev \in {"fetch", "free", "closed"} THEN e.ev ELSE e.s.k,
                                      v |-> o.v, why |-> o.why, asp |-> asp]))
Tally(e, o) == LET key == (IF e.ev \in {"fetch", "free"} THEN e.ev ELSE IF e.ev \in {"fault", "mem"} THEN e.ev \o "-" \o e.s.k ELSE e.s.k) \o ":" \o o.v
                   m == TLCGet(1)
               IN TLCSet(1, IF key \in DOMAIN m THEN [m EXCEPT ![key] = @ + 1] ELSE (key :> 1) @@ m)

(* ---- steps ------------------------------------------------------------------------------------- *)
IsEvent(name) == l <= Len(Trace) /\ Trace[l].ev = name /\ l' = l + 1

StepReset == /\ IsEvent("reset")
             /\ db' = NoDb /\ held' = NoHeld

StepStatement ==
  /\ IsEvent("stmt")
  /\ LET e     == Trace[l]
         o     == TLCEval(Exec(db, e.s))
         after == Observed(e)
     IN /\ Tally(e, o)
        /\ Report(e, Aspects(o, e, after), o)
        /\ db' = after
  /\ UNCHANGED held

(* a SELECT whose result set stays open *)
StepOpen ==
  /\ IsEvent("open")
  /\ LET e     == Trace[l]
         o     == TLCEval(Exec(db, e.s))
         after == Observed(e)
         good  == Known(o) /\ e.st = "ROWS" /\ ColsOk(o.cols, e.cols)
         bad   == (IF e.st = "ROWS" /\ Known(o) /\ ~good THEN {"result-columns"} ELSE {})
                  \cup (IF e.st \in {"DIED", "HANG"} THEN {e.st} ELSE {})
                  \cup Flag(o.v = "ok" /\ e.st = "ERR", "rejected") \cup Flag(o.v = "rej" /\ e.st # "ERR", "accepted")
                  \cup Flag(ChangedTables(db, after) # {}, "select-changed")
     IN /\ Tally(e, o)
        /\ Report(e, bad, o)
        /\ db' = after
        /\ held' = (e.slot :> [known |-> good /\ ~o.fuzzy,
                               rows |-> IF good THEN Permute(o.rows, ColMap(o.cols, e.cols)) ELSE <<>>]) @@ held

(* one step of an open cursor delivers one of the rows not delivered yet, or reports the end *)
RemoveOne(rows, x) == LET k == CHOOSE i \in DOMAIN rows : rows[i] = x
                      IN SubSeq(rows, 1, k - 1) \o SubSeq(rows, k + 1, Len(rows))
StepFetch ==
  /\ IsEvent("fetch")
  /\ LET e == Trace[l]
         h == held[e.slot]
         has == e.st = "ROW" /\ \E i \in DOMAIN h.rows : h.rows[i] = e.row
         bad == IF e.st \in {"DIED", "HANG"} THEN {e.st}
                ELSE IF ~h.known \/ e.st = "NONE" THEN {}
                ELSE IF e.st = "ROW" THEN Flag(~has, "fetched-row")
                ELSE Flag(h.rows # <<>>, "ended-early")
     IN /\ Tally(e, OK)
        /\ Report(e, bad, OK)
        /\ held' = IF has THEN [held EXCEPT ![e.slot].rows = RemoveOne(@, e.row)] ELSE held
  /\ UNCHANGED db

StepFree ==
  /\ IsEvent("free")
  /\ LET e     == Trace[l]
         after == Observed(e)
     IN /\ Tally(e, OK)
        /\ Report(e, IF e.st \in {"DIED", "HANG"} THEN {e.st} ELSE Flag(ChangedTables(db, after) # {}, "free-changed"), OK)
        /\ db' = after
        /\ held' = [s \in DOMAIN held \ {e.slot} |-> held[s]]

Next == StepReset \/ StepStatement \/ StepOpen \/ StepFetch \/ StepFree
Spec == Init /\ [][Next]_vars

(* printed once, when the whole trace has been consumed *)
Done == /\ TLCGet("stats").diameter = Len(Trace) + 1
        /\ PrintT("TRACE-DONE " \o ToJson([events |-> Len(Trace), mismatches |-> TLCGet(2), tally |-> TLCGet(1)]))
===============================================================================
