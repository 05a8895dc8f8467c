----------------------------- MODULE ResourceTrace -----------------------------
(* Memory: what statements may leave behind, and what they may do when they do not get any.               *)
(*                                                                                                    *)
(* On top of the events of SqlTrace:                                                                    *)
(*   mem     a statement with the number of blocks and bytes in use before it and after every run of it        *)
(*           (it is repeated while it leaves the database as it was), and the blocks that nothing refers to      *)
(*   closed  the blocks that nothing refers to when the database has been closed (also after allocations failed)      *)
(*   mark, rewind   the database the fault events below start from, and back to it (a new process each time)        *)
(*   fault   a statement during which allocations failed                                                           *)
EXTENDS SqlTrace

VARIABLE base
rvars == <<l, db, held, base>>
RInit == Init /\ base = NoDb

(* ---- C19 ---- *)
MemAspects(e) ==
  Flag(e.lost > 0, "unreachable-memory")
  \cup Flag(\E i \in 2..(Len(e.mem) - 1) : e.mem[i + 1][1] > e.mem[i][1] \/ e.mem[i + 1][2] > e.mem[i][2], "memory-grows")

StepMem ==
  /\ IsEvent("mem")
  /\ LET e     == Trace[l]
         o     == TLCEval(Exec(db, e.s))
         after == Observed(e)
     IN /\ Tally(e, o)
        /\ Report(e, (Aspects(o, e, after) \cup IF e.st \in {"DIED", "HANG"} THEN {} ELSE MemAspects(e)), o)
        /\ db' = after
  /\ UNCHANGED <<held, base>>

StepClosed ==
  /\ IsEvent("closed")
  /\ Report(Trace[l], Flag(Trace[l].lost > 0, "not-released"), OK)
  /\ UNCHANGED <<db, held, base>>

(* ---- C24 ---- *)
Untouched(after) == ChangedTables(db, after) = {}
PartOf(o, s, after) ==
  /\ s.k \in {"insert", "update", "delete"}
  /\ ChangedTables(db, after) \subseteq {s.t} /\ s.t \in DOMAIN after
  /\ after[s.t].cols = db[s.t].cols
  /\ \/ o.fuzzy \/ ~Known(o)
     \/ \E k \in 0..o.n : SameBag(after[s.t].rows, PartRows(db, s, o.db, k))

FaultAspects(o, e, after) ==
  IF e.st \in {"ERR", "NULLOUT"} THEN Flag(~Untouched(after) /\ ~PartOf(o, e.s, after), "corrupted") \cup Sane(after)
  ELSE Aspects(o, e, after)

StepFault ==
  /\ IsEvent("fault")
  /\ LET e     == Trace[l]
         o     == TLCEval(Exec(db, e.s))
         after == Observed(e)
     IN /\ Tally(e, o)
        /\ Report(e, FaultAspects(o, e, after), o)
        /\ db' = after
  /\ UNCHANGED <<held, base>>

StepMark == IsEvent("mark") /\ base' = db /\ UNCHANGED <<db, held>>
StepRewind == IsEvent("rewind") /\ db' = base /\ UNCHANGED <<held, base>>

RNext == (Next /\ UNCHANGED base) \/ StepMem \/ StepClosed \/ StepFault \/ StepMark \/ StepRewind
RSpec == RInit /\ [][RNext]_rvars
===============================================================================
