-------------------------------- MODULE Cursors --------------------------------
(* Result sets that stay open while the database changes: a SELECT freezes its rows, stepping delivers them one     *)
(* by one in any order and then only reports the end, statements in between and other result sets do not matter.     *)
(* The judge of recorded runs (SqlTrace) keeps the same state; the walks replayed on the real code take every         *)
(* transition of this model, with the frozen rows of a result set counted only.                                     *)
EXTENDS MidoriSQL, Json, SequencesExt

CONSTANTS MaxRows, Slots, Emit
VARIABLES db, held, given         \* held: slot -> rows still to come;  given: slot -> rows delivered, and the frozen rows
vars == <<db, held, given>>

I(n) == <<"I", n>>
Lit(v) == <<"v", v>>
C(n) == <<"c", "", n>>
K1 == <<"cmp", "=", C("k"), Lit(I(1))>>
Cols == <<[n |-> "k", t |-> "INTEGER", p |-> 0, nn |-> 0, uq |-> 0, ai |-> 0, pk |-> 0], [n |-> "s", t |-> "VARCHAR", p |-> 9, nn |-> 0, uq |-> 0, ai |-> 0, pk |-> 0]>>
Ins(k, s) == [k |-> "insert", t |-> "A", cols |-> <<>>, vals |-> <<<<Lit(k), Lit(s)>>>>]
Sel(items, w, g) == [k |-> "select", from |-> <<<<"A", "">>>>, style |-> "comma", joins |-> <<>>, items |-> items, where |-> w, group |-> g]
Changes == <<[k |-> "create", t |-> "A", ine |-> 0, cols |-> Cols, idx |-> <<>>],
             Ins(I(1), <<"S", "one">>), Ins(I(2), NULL), Ins(NULL, <<"S", "">>),
             [k |-> "delete", t |-> "A", where |-> <<>>], [k |-> "delete", t |-> "A", where |-> K1],
             [k |-> "update", t |-> "A", set |-> <<<<"s", <<"S", "changed">>>>>>, where |-> K1],
             [k |-> "update", t |-> "A", set |-> <<<<"k", NULL>>, <<"s", NULL>>>>, where |-> <<"null", C("s")>>],
             Sel(<<<<"star">>>>, <<>>, <<>>), Sel(<<<<"c", "", "z">>>>, <<>>, <<>>)>>
Queries == <<Sel(<<<<"star">>>>, <<>>, <<>>), Sel(<<C("s")>>, K1, <<>>), Sel(<<<<"count">>>>, <<>>, <<>>), Sel(<<C("k"), <<"count">>>>, <<>>, <<C("k")>>), Sel(<<<<"c", "", "z">>>>, <<>>, <<>>)>>
SlotSeq == SetToSeq(Slots)

Strings == <<"", "changed", "one">>
Rank(v) == CASE v[1] = "N" -> -1 [] v[1] = "I" -> v[2] [] v[1] = "S" -> CHOOSE i \in DOMAIN Strings : Strings[i] = v[2]
RowLess(a, b) == \E i \in DOMAIN a : Rank(a[i]) < Rank(b[i]) /\ \A j \in 1..(i - 1) : Rank(a[j]) = Rank(b[j])
Sorted(s) == SortSeq(s, RowLess)
Canon(d) == [t \in DOMAIN d |-> [d[t] EXCEPT !.rows = Sorted(@)]]
Within(d) == \A t \in DOMAIN d : Len(d[t].rows) <= MaxRows
None == [s \in {} |-> <<>>]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Init == db = NoDb /\ held = None /\ given = None
Run(s) == LET o == Exec(db, s)
          IN o.v = "ok" /\ o.db # db /\ Within(o.db) /\ db' = Canon(o.db) /\ UNCHANGED <<held, given>>
Open(c, s) == LET o == Exec(db, s)
              IN c \notin DOMAIN held /\ o.v = "ok"
                 /\ held' = (c :> Sorted(o.rows)) @@ held /\ given' = (c :> [got |-> <<>>, all |-> o.rows]) @@ given /\ UNCHANGED db
Fetch(c) == /\ c \in DOMAIN held
            /\ \E i \in DOMAIN held[c] : held' = [held EXCEPT ![c] = DropAt(@, i)] /\ given' = [given EXCEPT ![c].got = Sorted(Append(@, held[c][i]))]
            /\ UNCHANGED db
Free(c) == /\ c \in DOMAIN held
           /\ held' = [x \in DOMAIN held \ {c} |-> held[x]] /\ given' = [x \in DOMAIN given \ {c} |-> given[x]] /\ UNCHANGED db
Next == \/ \E i \in DOMAIN Changes : Run(Changes[i])
        \/ \E c \in Slots : (\E q \in DOMAIN Queries : Open(c, Queries[q])) \/ Fetch(c) \/ Free(c)
Spec == Init /\ [][Next]_vars

(* every row of the frozen result is either delivered or still to come, exactly once, whatever happened to the table *)
Frozen == \A c \in DOMAIN held : SameBag(held[c] \o given[c].got, given[c].all)
(* a result set only changes by being stepped, and one slot's steps leave the others alone *)
Isolated == [][\A c \in DOMAIN held \cap DOMAIN held' : given'[c].all = given[c].all =>
                 (held'[c] # held[c] => db' = db /\ \A x \in DOMAIN held \ {c} : x \in DOMAIN held' /\ held'[x] = held[x])]_vars

(* ---- the graph, with the rows of open result sets counted --------------------------------------------- *)
Acts == [i \in DOMAIN Changes |-> [op |-> "Q", s |-> Changes[i]]]
        \o [k \in 1..(Len(SlotSeq) * Len(Queries)) |-> [op |-> "K", slot |-> SlotSeq[((k - 1) \div Len(Queries)) + 1], s |-> Queries[((k - 1) % Len(Queries)) + 1]]]
        \o [i \in DOMAIN SlotSeq |-> [op |-> "F", slot |-> SlotSeq[i]]]
        \o [i \in DOMAIN SlotSeq |-> [op |-> "X", slot |-> SlotSeq[i]]]
Count(h) == [i \in DOMAIN SlotSeq |-> IF SlotSeq[i] \in DOMAIN h THEN Len(h[SlotSeq[i]]) ELSE -1]
NameOf(d, n) == ToString(<<IF d = NoDb THEN <<0>> ELSE <<1, d["A"].rows>>, n>>)
View == NameOf(db, Count(held))
At(slot) == CHOOSE i \in DOMAIN SlotSeq : SlotSeq[i] = slot
Lead(a) ==
  LET n == Count(held)
  IN IF a.op = "Q" THEN LET o == Exec(db, a.s)
                        IN CASE o.v # "ok" -> "!" [] o.db = db -> "" [] Within(o.db) -> NameOf(Canon(o.db), n) [] OTHER -> "-"
     ELSE IF a.op = "K" THEN LET o == Exec(db, a.s)
                             IN IF a.slot \in DOMAIN held THEN "-" ELSE IF o.v # "ok" THEN "!" ELSE NameOf(db, [n EXCEPT ![At(a.slot)] = Len(o.rows)])
     ELSE IF a.slot \notin DOMAIN held THEN "-"
     ELSE IF a.op = "F" THEN (IF held[a.slot] = <<>> THEN "" ELSE NameOf(db, [n EXCEPT ![At(a.slot)] = @ - 1]))
     ELSE NameOf(db, [n EXCEPT ![At(a.slot)] = -1])
Printed == ~Emit \/ PrintT("STATE " \o ToJson([f |-> View, to |-> [i \in DOMAIN Acts |-> Lead(Acts[i])],
                                               init |-> IF db = NoDb /\ held = None THEN 1 ELSE 0]))
ASSUME Emit => PrintT("STMTS " \o ToJson(Acts))
===============================================================================
