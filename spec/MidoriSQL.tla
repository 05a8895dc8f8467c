------------------------------ MODULE MidoriSQL -------------------------------
(* The meaning of MidoriDB statements.                                                                *)
(*                                                                                                    *)
(* A database maps table names to [cols |-> sequence of columns, rows |-> sequence of rows]; the order   *)
(* of the rows is not part of any guarantee.  A column is a record n (name), t (type), p (declared         *)
(* length of a VARCHAR, else 0) and the flags nn (NOT NULL), uq, ai, pk, ix as 0/1.  A row is a sequence   *)
(* of values (MidoriValues).                                                                           *)
(*                                                                                                    *)
(* Exec(db, s) is the outcome of statement s:                                                           *)
(*   v     "ok" accepted, "rej" rejected (why = the reason), "may" acceptance is left open, "any" acceptance   *)
(*         and effect are left open                                                                        *)
(*   db    the database afterwards when the statement is accepted (a rejected one leaves db as it was)     *)
(*   n     affected rows of CREATE / INSERT / UPDATE / DELETE                                              *)
(*   cols, rows   the result set of SELECT (columns as records n, t; rows as sequences in that order)       *)
(*   fuzzy TRUE when some stored value is a wild card, so that rows cannot be compared                      *)
EXTENDS MidoriValues
LOCAL INSTANCE SequencesExt

Syntax == INSTANCE MidoriSyntax

MaxCols == 128
MaxName == 127
MaxVarchar == 9999

NoDb == [t \in {} |-> 0]
Outcome(verdict, db, n) == [v |-> verdict.v, why |-> verdict.why, db |-> db, n |-> n,
                            cols |-> <<>>, rows |-> <<>>, fuzzy |-> FALSE]
Reject(db, why) == Outcome(Rej(why), db, 0)

Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
Names(cols) == {cols[i].n : i \in DOMAIN cols}
ColIdx(cols, name) == IF name \in Names(cols) THEN CHOOSE i \in DOMAIN cols : cols[i].n = name ELSE 0
Keep(s, P(_)) == SelectSeq(s, P)
CountIf(flags, n) == Cardinality({i \in 1..n : flags[i]})

(* ================================ CREATE TABLE ================================================= *)
(* s: t, ine (0/1), cols (columns with flags nn, uq, ai, pk), idx: sequence of <<"pk" | "ix", names>>     *)

InList(s, kind, name) == \E i \in DOMAIN s.idx : s.idx[i][1] = kind
                                                 /\ \E j \in DOMAIN s.idx[i][2] : s.idx[i][2][j] = name
DeclCol(s, c) ==
  LET pk == c.pk = 1 \/ InList(s, "pk", c.n)
  IN [n |-> c.n, t |-> c.t, p |-> IF c.t = "VARCHAR" THEN c.p ELSE 0,
      nn |-> IF c.nn = 1 \/ pk THEN 1 ELSE 0, uq |-> IF c.uq = 1 \/ pk THEN 1 ELSE 0,
      ai |-> c.ai, pk |-> IF pk THEN 1 ELSE 0, ix |-> IF InList(s, "ix", c.n) THEN 1 ELSE 0]

CheckCreate(db, s) ==
  AllOf(<<If(\A i \in DOMAIN s.cols : s.cols[i].t # "VARCHAR" \/ s.cols[i].p \in 1..MaxVarchar, Rej("length")),
          If(Distinct([i \in DOMAIN s.cols |-> s.cols[i].n]), Rej("dup-column")),
          If(\A i \in DOMAIN s.idx : \A j \in DOMAIN s.idx[i][2] : s.idx[i][2][j] \in Names(s.cols), Rej("column")),
          If(Len(s.cols) <= MaxCols, Rej("too-many")),
          If(Len(s.t) <= MaxName /\ \A i \in DOMAIN s.cols : Len(s.cols[i].n) <= MaxName, ANY)>>)

ExecCreate(db, s) ==
  LET c == CheckCreate(db, s)
      new == [cols |-> [i \in DOMAIN s.cols |-> DeclCol(s, s.cols[i])], rows |-> <<>>]
  IN IF s.t \in DOMAIN db
     THEN (IF s.ine = 1 THEN Outcome(IF Known(c) THEN c ELSE ANY, db, 0) ELSE Reject(db, "exists"))
     ELSE IF c.v = "rej" THEN Reject(db, c.why)
     ELSE Outcome(c, (s.t :> new) @@ db, 0)

(* ================================ INSERT ====================================================== *)
(* s: t, cols (names, <<>> = all), vals: sequence of tuples of expressions                               *)
(* expression: <<"v", literal>>, <<"op", o, l, r>>, <<"neg", e>>                                         *)

RECURSIVE Eval(_)
Eval(e) == CASE e[1] = "v" -> e[2]
             [] e[1] = "neg" -> Negate(Eval(e[2]))
             [] e[1] = "op" -> Arith(e[2], Eval(e[3]), Eval(e[4]))

(* every operand of an expression must have the (numeric) type of the column *)
RECURSIVE CheckTerms(_, _)
CheckTerms(e, t) == CASE e[1] = "v" -> If(LitType(e[2]) = t, Rej("type"))
                      [] e[1] = "neg" -> CheckTerms(e[2], t)
                      [] e[1] = "op" -> Both(CheckTerms(e[3], t), CheckTerms(e[4], t))
CheckExpr(e, col) ==
  IF e[1] = "v" THEN CheckAssign(e[2], col)
  ELSE IF col.t \notin {"INTEGER", "DOUBLE"} THEN Rej("type")
  ELSE LET c == CheckTerms(e, col.t)
       IN IF c.v = "ok" THEN (IF IsNull(Eval(e)) /\ col.nn = 1 THEN Rej("notnull")
                              ELSE IF Eval(e)[1] = "W" /\ col.nn = 1 THEN ANY ELSE OK)
          ELSE c

InsTargets(tab, s) ==                         \* column index of each listed value (0 = unknown column)
  IF s.cols = <<>> THEN [i \in DOMAIN tab.cols |-> i]
  ELSE [i \in DOMAIN s.cols |-> ColIdx(tab.cols, s.cols[i])]

CheckInsert(tab, s) ==
  LET tg == InsTargets(tab, s)
  IN Both(AllOf(<<If(Distinct(s.cols), Rej("dup-column")),
                  If(\A i \in DOMAIN tg : tg[i] # 0, Rej("column")),
                  If(\A r \in DOMAIN s.vals : Len(s.vals[r]) = Len(tg), Rej("count"))>>),
          IF (\A i \in DOMAIN tg : tg[i] # 0) /\ (\A r \in DOMAIN s.vals : Len(s.vals[r]) = Len(tg))
          THEN Both(If(\A i \in DOMAIN tab.cols : tab.cols[i].nn = 0 \/ (\E k \in DOMAIN tg : tg[k] = i), Rej("notnull")),
                    AllOf([k \in 1..(Len(s.vals) * Len(tg)) |->
                             LET r == ((k - 1) \div Len(tg)) + 1
                                 j == ((k - 1) % Len(tg)) + 1
                             IN CheckExpr(s.vals[r][j], tab.cols[tg[j]])]))
          ELSE OK)

NewRow(tab, tg, tuple) ==
  [i \in DOMAIN tab.cols |->
     IF \E k \in DOMAIN tg : tg[k] = i
     THEN Coerce(Eval(tuple[CHOOSE k \in DOMAIN tg : tg[k] = i]), tab.cols[i].t)
     ELSE NULL]

ExecInsert(db, s) ==
  IF s.t \notin DOMAIN db THEN Reject(db, "table")
  ELSE LET tab == db[s.t]
           c   == CheckInsert(tab, s)
       IN IF ~Known(c) THEN [Outcome(c, db, Len(s.vals)) EXCEPT !.fuzzy = TRUE]
          ELSE LET tg  == InsTargets(tab, s)
                   new == [r \in DOMAIN s.vals |-> NewRow(tab, tg, s.vals[r])]
               IN [Outcome(c, [db EXCEPT ![s.t].rows = @ \o new], Len(s.vals))
                   EXCEPT !.fuzzy = \E r \in DOMAIN new : \E i \in DOMAIN new[r] : new[r][i][1] = "W"]

(* ================================ conditions ================================================== *)
(* <<"cmp", op, a, b>>, <<"and"|"or"|"xor", l, r>>, <<"in"|"nin", col, values>>, <<"null"|"notnull", col>>  *)
(* operands: <<"c", qualifier or "", name>> and <<"v", literal>>                                           *)
(* A scope is the sequence of the columns of the joined tables: records tb, al (alias or ""), n, t, p;       *)
(* the index into it is the index into the combined row.                                                     *)

Qual(sc) == IF sc.al # "" THEN sc.al ELSE sc.tb
(* the columns it may name: by the alias of their table or, when there is none, by its own name although
   it has an alias *)
Named(scope, q, n) == {i \in DOMAIN scope : scope[i].n = n /\ (q = "" \/ q = Qual(scope[i]))}
ByTable(scope, q, n) == {i \in DOMAIN scope : scope[i].n = n /\ q = scope[i].tb}
(* index of the column, 0 when it does not exist or is ambiguous *)
Find(scope, q, n) ==
  LET c == Named(scope, q, n)
      b == IF c = {} THEN ByTable(scope, q, n) ELSE c
  IN IF Cardinality(b) = 1 THEN CHOOSE i \in b : TRUE ELSE 0
FindOperand(scope, o) == Find(scope, o[2], o[3])
CheckCol(scope, o) ==
  IF FindOperand(scope, o) = 0 THEN (IF Named(scope, o[2], o[3]) = {} /\ ByTable(scope, o[2], o[3]) # {} THEN ANY ELSE Rej("column"))
  ELSE IF Named(scope, o[2], o[3]) = {} THEN MAY ELSE OK

Ordering == {"<", ">", "<=", ">="}
CheckStrFor(type, lit, op) ==                 \* a literal compared to a column of that type
  IF IsNull(lit) THEN If(op \in {"=", "<>"}, Rej("cond-type"))
  ELSE IF type = "DATE" /\ lit[1] = "S" THEN CheckDate(lit[2])
  ELSE IF type = "DATETIME" /\ lit[1] = "S" THEN CheckDateTime(lit[2])
  ELSE IF LitType(lit) # type THEN Rej("cond-type")
  ELSE IF type = "VARCHAR" /\ op \in Ordering THEN Rej("cond-type")
  ELSE IF type = "TINYINT" /\ op \in Ordering THEN MAY
  ELSE OK

CheckCmp(scope, op, a, b) ==
  IF a[1] = "c" /\ b[1] = "c" THEN
       LET ca == CheckCol(scope, a)
           cb == CheckCol(scope, b)
       IN IF ~Known(Both(ca, cb)) THEN Both(ca, cb)
          ELSE LET ta == scope[FindOperand(scope, a)].t
                   tb == scope[FindOperand(scope, b)].t
               IN Both(Both(ca, cb), IF ta # tb THEN Rej("cond-type")
                  ELSE IF ta = "VARCHAR" /\ op \in Ordering THEN Rej("cond-type")
                  ELSE IF ta = "TINYINT" /\ op \in Ordering THEN MAY
                  ELSE OK)
  ELSE IF a[1] = "c" THEN
       IF ~Known(CheckCol(scope, a)) THEN CheckCol(scope, a)
       ELSE Both(CheckCol(scope, a), CheckStrFor(scope[FindOperand(scope, a)].t, b[2], op))
  ELSE IF b[1] = "c" THEN
       IF ~Known(CheckCol(scope, b)) THEN CheckCol(scope, b)
       ELSE Both(CheckCol(scope, b), CheckStrFor(scope[FindOperand(scope, b)].t, a[2], op))
  ELSE IF IsNull(a[2]) \/ IsNull(b[2]) THEN MAY
  ELSE IF LitType(a[2]) # LitType(b[2]) THEN Rej("cond-type")
  ELSE IF LitType(a[2]) = "VARCHAR" /\ op \in Ordering THEN Rej("cond-type")
  ELSE IF LitType(a[2]) = "TINYINT" /\ op \in Ordering THEN MAY
  ELSE OK

RECURSIVE CheckCond(_, _)
CheckCond(scope, c) ==
  CASE c[1] = "cmp" -> CheckCmp(scope, c[2], c[3], c[4])
    [] c[1] \in {"and", "or", "xor"} -> Both(CheckCond(scope, c[2]), CheckCond(scope, c[3]))
    [] c[1] \in {"null", "notnull"} -> CheckCol(scope, c[2])
    [] c[1] \in {"in", "nin"} ->
         IF ~Known(CheckCol(scope, c[2])) THEN CheckCol(scope, c[2])
         ELSE AllOf(<<CheckCol(scope, c[2])>> \o [i \in DOMAIN c[3] |-> CheckStrFor(scope[FindOperand(scope, c[2])].t, c[3][i], "=")])
CheckWhere(scope, w) == IF w = <<>> THEN OK ELSE CheckCond(scope, w)
(* columns are not qualified in UPDATE and DELETE: the specification leaves open what qualified ones do there *)
RECURSIVE CondCols(_)
CondCols(c) ==
  CASE c = <<>> -> {}
    [] c[1] = "cmp" -> {o \in {c[3], c[4]} : o[1] = "c"}
    [] c[1] \in {"and", "or", "xor"} -> CondCols(c[2]) \cup CondCols(c[3])
    [] OTHER -> {c[2]}
CheckWhereIn(scope, w) == Both(CheckWhere(scope, w), If(\A o \in CondCols(w) : o[2] = "", MAY))

(* resolution: columns become <<"r", index>> and date strings become dates *)
ResLit(scope, lit, other) ==
  <<"v", IF other[1] = "c" THEN Coerce(lit, scope[FindOperand(scope, other)].t) ELSE lit>>
ResOp(scope, o, other) == IF o[1] = "c" THEN <<"r", FindOperand(scope, o)>> ELSE ResLit(scope, o[2], other)
RECURSIVE Res(_, _)
Res(scope, c) ==
  CASE c[1] = "cmp" -> <<"cmp", c[2], ResOp(scope, c[3], c[4]), ResOp(scope, c[4], c[3])>>
    [] c[1] \in {"and", "or", "xor"} -> <<c[1], Res(scope, c[2]), Res(scope, c[3])>>
    [] c[1] \in {"null", "notnull"} -> <<c[1], FindOperand(scope, c[2])>>
    [] c[1] \in {"in", "nin"} ->
         <<c[1], FindOperand(scope, c[2]), {ResLit(scope, c[3][i], c[2])[2] : i \in DOMAIN c[3]}>>
ResWhere(scope, w) == IF w = <<>> THEN <<>> ELSE Res(scope, w)

OpVal(o, row) == IF o[1] = "r" THEN row[o[2]] ELSE o[2]
RECURSIVE Holds(_, _)
Holds(c, row) ==
  CASE c = <<>> -> TRUE
    [] c[1] = "cmp" -> CmpVals(c[2], OpVal(c[3], row), OpVal(c[4], row))
    [] c[1] = "and" -> Holds(c[2], row) /\ Holds(c[3], row)
    [] c[1] = "or" -> Holds(c[2], row) \/ Holds(c[3], row)
    [] c[1] = "xor" -> Holds(c[2], row) # Holds(c[3], row)
    [] c[1] = "null" -> IsNull(row[c[2]])
    [] c[1] = "notnull" -> ~IsNull(row[c[2]])
    [] c[1] = "in" -> ~IsNull(row[c[2]]) /\ row[c[2]] \in c[3]
    (* a NULL in the list makes every comparison with it false, hence NOT IN false *)
    [] c[1] = "nin" -> ~IsNull(row[c[2]]) /\ NULL \notin c[3] /\ row[c[2]] \notin c[3]

ScopeOf(db, tb, al) == [i \in DOMAIN db[tb].cols |->
                          [tb |-> tb, al |-> al, n |-> db[tb].cols[i].n, t |-> db[tb].cols[i].t, p |-> db[tb].cols[i].p]]

(* ================================ UPDATE and DELETE =========================================== *)
(* s: t, set: sequence of <<column name, literal>>, where: condition or <<>>                              *)

CheckUpdate(db, s) ==
  LET tab == db[s.t]
      sc  == ScopeOf(db, s.t, "")
  IN AllOf(<<AllOf([i \in DOMAIN s.set |->
                     LET k == ColIdx(tab.cols, s.set[i][1])
                     IN IF k = 0 THEN Rej("column") ELSE CheckAssign(s.set[i][2], tab.cols[k])]),
             If(Distinct([i \in DOMAIN s.set |-> s.set[i][1]]), ANY),
             CheckWhereIn(sc, s.where)>>)

ExecUpdate(db, s) ==
  IF s.t \notin DOMAIN db THEN Reject(db, "table")
  ELSE LET c == CheckUpdate(db, s)
       IN IF ~Known(c) THEN [Outcome(c, db, 0) EXCEPT !.fuzzy = TRUE]
          ELSE LET tab == db[s.t]
                   w   == ResWhere(ScopeOf(db, s.t, ""), s.where)
                   hit == [r \in DOMAIN tab.rows |-> Holds(w, tab.rows[r])]
                   asg == [i \in DOMAIN tab.cols |->
                             {k \in DOMAIN s.set : s.set[k][1] = tab.cols[i].n}]
                   Upd(row) == [i \in DOMAIN row |->
                                  IF asg[i] = {} THEN row[i]
                                  ELSE Coerce(s.set[CHOOSE k \in asg[i] : TRUE][2], tab.cols[i].t)]
               IN Outcome(c, [db EXCEPT ![s.t].rows =
                                 [r \in DOMAIN @ |-> IF hit[r] THEN Upd(@[r]) ELSE @[r]]],
                          CountIf(hit, Len(hit)))

ExecDelete(db, s) ==
  IF s.t \notin DOMAIN db THEN Reject(db, "table")
  ELSE LET sc == ScopeOf(db, s.t, "")
           c  == CheckWhereIn(sc, s.where)
       IN IF ~Known(c) THEN [Outcome(c, db, 0) EXCEPT !.fuzzy = TRUE]
          ELSE LET tab  == db[s.t]
                   w    == ResWhere(sc, s.where)
                   Stay(row) == ~Holds(w, row)
                   kept == SelectSeq(tab.rows, Stay)
               IN Outcome(c, [db EXCEPT ![s.t].rows = kept], Len(tab.rows) - Len(kept))

(* ---- a statement that runs out of memory may have changed a first part of its rows ---- *)
(* the tables that may be left behind: the old one with the first k of the row changes, in storage order *)
HitFlags(db, s) == LET w == ResWhere(ScopeOf(db, s.t, ""), s.where)
                   IN [r \in DOMAIN db[s.t].rows |-> Holds(w, db[s.t].rows[r])]
PartRows(db, s, full, k) ==
  LET old == db[s.t].rows
      new == full[s.t].rows
  IN CASE s.k = "insert" -> SubSeq(new, 1, Len(old) + k)
       [] s.k = "update" -> LET hit == HitFlags(db, s)
                            IN [r \in DOMAIN old |-> IF hit[r] /\ CountIf(hit, r) <= k THEN new[r] ELSE old[r]]
       [] s.k = "delete" -> LET hit == HitFlags(db, s)
                                Stays(r) == ~(hit[r] /\ CountIf(hit, r) <= k)
                                at == SelectSeq([r \in DOMAIN old |-> r], Stays)
                            IN [i \in DOMAIN at |-> old[at[i]]]

(* ================================ SELECT ======================================================= *)
(* s: from: sequence of <<table, alias or "">>; style "comma" or "join"; joins: one ON condition per table    *)
(* after the first (style "join"); items: <<"star">>, <<"c", q, n>>, <<"count">>, <<"countc", q, n>>;          *)
(* where; group: sequence of <<"c", q, n>>                                                                    *)

RECURSIVE FlatScope(_, _, _)
FlatScope(db, from, k) == IF k = 0 THEN <<>> ELSE FlatScope(db, from, k - 1) \o ScopeOf(db, from[k][1], from[k][2])

(* combinations of rows of the first k tables that satisfy the ON conditions of the first k tables *)
RECURSIVE Cross(_, _)
Cross(a, b) == IF a = <<>> THEN <<>> ELSE [i \in DOMAIN b |-> a[1] \o b[i]] \o Cross(Tail(a), b)
RECURSIVE Combos(_, _, _, _)
Combos(db, s, ons, k) ==
  IF k = 1 THEN db[s.from[1][1]].rows
  ELSE LET all == Cross(Combos(db, s, ons, k - 1), db[s.from[k][1]].rows)
           Sat(row) == Holds(ons[k - 1], row)
       IN IF s.style = "join" THEN SelectSeq(all, Sat) ELSE all

ItemCols(s) == {i \in DOMAIN s.items : s.items[i][1] \in {"c"}}
ItemCounts(s) == {i \in DOMAIN s.items : s.items[i][1] \in {"count", "countc"}}
Stars(s) == {i \in DOMAIN s.items : s.items[i][1] = "star"}

CheckItems(scope, s) ==
  AllOf([i \in DOMAIN s.items |-> IF s.items[i][1] \in {"c", "countc"} THEN CheckCol(scope, s.items[i]) ELSE OK]
        \o [i \in DOMAIN s.group |-> CheckCol(scope, s.group[i])])

(* which mixtures of columns, COUNT and GROUP BY are meaningful *)
CheckShape(s) ==
  AllOf(<<If(Cardinality(ItemCounts(s)) <= 1, Rej("count-twice")),
          If(ItemCounts(s) = {} \/ s.group # <<>> \/ (ItemCols(s) = {} /\ Stars(s) = {}), Rej("group")),
          If(s.group = <<>> \/ Stars(s) = {}, ANY)>>)
CheckGrouped(scope, s) ==
  IF s.group = <<>> THEN OK
  ELSE LET keys == {FindOperand(scope, s.group[i]) : i \in DOMAIN s.group}
           text == {s.group[i] : i \in DOMAIN s.group}
       IN AllOf([i \in DOMAIN s.items |->
                   IF s.items[i][1] # "c" THEN OK
                   ELSE IF s.items[i] \in text THEN OK
                   ELSE IF FindOperand(scope, s.items[i]) \in keys THEN MAY ELSE Rej("group")])
AnyAlias(s) == \E k \in DOMAIN s.from : s.from[k][2] # ""
RECURSIVE OnlyCmp(_)
OnlyCmp(c) == CASE c[1] = "cmp" -> TRUE
                [] c[1] \in {"and", "or", "xor"} -> OnlyCmp(c[2]) /\ OnlyCmp(c[3])
                [] OTHER -> FALSE

(* spellings whose acceptance is an implementation limit rather than part of the meaning *)
CheckLimits(s) ==
  LET quals == {s.from[k][2] : k \in DOMAIN s.from} \ {""}
      refs  == UNION {CondCols(s.where), UNION {CondCols(s.joins[k]) : k \in DOMAIN s.joins},
                      {s.items[i] : i \in {j \in DOMAIN s.items : s.items[j][1] \in {"c", "countc"}}},
                      {s.group[i] : i \in DOMAIN s.group}}
  IN AllOf(<<If(Distinct([k \in DOMAIN s.from |-> s.from[k][1]]), MAY),                       \* self joins
             If(Cardinality({k \in DOMAIN s.from : s.from[k][2] # ""}) = Cardinality(quals), ANY),
             If(\A k \in DOMAIN s.joins : OnlyCmp(s.joins[k]), MAY),
             If(s.style # "join" \/ Len(s.from) = 1 \/ ~AnyAlias(s) \/ \A r \in refs : r[2] # "", MAY)>>)

CheckSelect(db, s) ==
  IF \E k \in DOMAIN s.from : s.from[k][1] \notin DOMAIN db THEN Rej("table")
  ELSE LET scope == FlatScope(db, s.from, Len(s.from))
           pre   == AllOf(<<CheckItems(scope, s), CheckWhere(scope, s.where), CheckShape(s),
                            AllOf([k \in DOMAIN s.joins |-> CheckCond(scope, s.joins[k])]),
                            If(Len(scope) + (IF \E i \in DOMAIN s.items : s.items[i][1] \in {"count", "countc"} THEN 1 ELSE 0) <= MaxCols, MAY),
                            If(\A i \in DOMAIN scope : Len(scope[i].tb) + 1 + Len(scope[i].n) <= MaxName, MAY)>>)
       IN Both(Both(pre, IF Known(pre) THEN CheckGrouped(scope, s) ELSE OK), CheckLimits(s))

ResultCol(scope, i) == [n |-> scope[i].tb \o "." \o scope[i].n, t |-> scope[i].t]
CountCol == [n |-> "COUNT(*)", t |-> "INTEGER"]

(* drop repeated elements, keeping the first *)
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>>
                 ELSE IF Head(s) \in seen THEN Uniq(Tail(s), seen)
                 ELSE <<Head(s)>> \o Uniq(Tail(s), seen \cup {Head(s)})

ExecSelect(db, s) ==
  LET c == CheckSelect(db, s)
  IN IF ~Known(c) THEN [Outcome(c, db, 0) EXCEPT !.fuzzy = TRUE]
     ELSE
     LET scope == FlatScope(db, s.from, Len(s.from))
         ons   == [k \in DOMAIN s.joins |-> Res(scope, s.joins[k])]
         w     == ResWhere(scope, s.where)
         Sat(row) == Holds(w, row)
         match == SelectSeq(Combos(db, s, ons, Len(s.from)), Sat)
         picks == IF Stars(s) # {} THEN [i \in DOMAIN scope |-> i]
                  ELSE Uniq([i \in DOMAIN s.items |->
                               IF s.items[i][1] = "c" THEN FindOperand(scope, s.items[i]) ELSE 0], {})
         cols  == [i \in DOMAIN picks |-> IF picks[i] = 0 THEN CountCol ELSE ResultCol(scope, picks[i])]
         (* COUNT(column) is only determined when the column holds no NULL *)
         vague == \E i \in ItemCounts(s) : s.items[i][1] = "countc"
                     /\ \E r \in DOMAIN match : IsNull(match[r][FindOperand(scope, s.items[i])])
         Project(row, cnt) == [i \in DOMAIN picks |-> IF picks[i] = 0 THEN <<"I", cnt>> ELSE row[picks[i]]]
         Key(row) == [i \in DOMAIN s.group |-> row[FindOperand(scope, s.group[i])]]
         keys  == TLCEval([r \in DOMAIN match |-> Key(match[r])])
         groups == {keys[r] : r \in DOMAIN keys}
         Group(k) == LET g == {r \in DOMAIN keys : keys[r] = k} IN Project(match[CHOOSE r \in g : TRUE], Cardinality(g))
         rows  == IF s.group # <<>> THEN LET ks == SetToSeq(groups) IN [i \in DOMAIN ks |-> Group(ks[i])]
                  ELSE IF ItemCounts(s) # {} THEN <<Project(<<>>, Len(match))>>
                  ELSE [r \in DOMAIN match |-> Project(match[r], 0)]
     IN [Outcome(c, db, 0) EXCEPT !.cols = cols, !.rows = rows, !.fuzzy = vague]

(* ================================ every statement ============================================== *)
Exec(db, s) == CASE s.k = "create" -> ExecCreate(db, s)
                 [] s.k = "insert" -> ExecInsert(db, s)
                 [] s.k = "update" -> ExecUpdate(db, s)
                 [] s.k = "delete" -> ExecDelete(db, s)
                 [] s.k = "select" -> ExecSelect(db, s)
                 [] s.k = "bad" -> Reject(db, s.why)          \* not a statement of the language
                 [] s.k = "text" ->                           \* any token sequence s.toks; s.t: the table it names first
                      IF Syntax!InLanguage(s.toks) THEN Outcome(ANY, db, 0) ELSE Reject(db, "syntax")
                 [] s.k = "free" -> Outcome(ANY, db, 0)       \* any text: may do nothing to the tables

Target(s) == IF s.k \in {"create", "insert", "update", "delete", "text"} THEN s.t ELSE ""

(* ================================ invariants of every database =================================== *)
TypedValue(v, c) == CASE IsNull(v) -> TRUE
                      [] c.t = "VARCHAR" -> v[1] = "S" /\ Len(v[2]) < c.p
                      [] c.t = "INTEGER" -> v[1] \in {"I", "J"} /\ IntFits(v)
                      [] c.t = "DOUBLE" -> v[1] \in {"D", "E", "Q"}
                      [] c.t = "TINYINT" -> v[1] = "B"
                      [] c.t = "DATE" -> v[1] = "T" /\ v[3] = 0
                      [] c.t = "DATETIME" -> v[1] = "T"
                      [] OTHER -> FALSE
TypedTable(tab) == \A r \in DOMAIN tab.rows :
                     /\ DOMAIN tab.rows[r] = DOMAIN tab.cols
                     /\ \A i \in DOMAIN tab.cols : tab.rows[r][i][1] = "W" \/ TypedValue(tab.rows[r][i], tab.cols[i])
NotNullTable(tab) == \A i \in DOMAIN tab.cols : tab.cols[i].nn = 1 =>
                       \A r \in DOMAIN tab.rows : ~IsNull(tab.rows[r][i])

SameBag(a, b) ==                      \* equal as multisets
  \/ a = b
  \/ LET A == {a[i] : i \in DOMAIN a}
         B == {b[i] : i \in DOMAIN b}
     IN /\ Len(a) = Len(b)
        /\ A = B
        /\ \/ Cardinality(A) = Len(a)
           \/ \A x \in A : Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
===============================================================================
