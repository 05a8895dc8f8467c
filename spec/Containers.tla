------------------------------ MODULE Containers ------------------------------
(* The containers MidoriDB is built from, as state machines.                                           *)
(*                                                                                                    *)
(*   kind      state                                      operations                                   *)
(*   ht        function from keys to values               put k v, get k, rem k, drain                    *)
(*   queue     sequence of items, oldest first            offer x, poll, peek                             *)
(*   stack     sequence of items, bottom first            push x, upush x, pop, peek                       *)
(*   vector    string of bytes (hexadecimal)              push bytes, clear                               *)
(*   list      sequence of nodes                          add x k, tail x, del k, purge x                   *)
(*   btree     function from keys to values               ins k v, upd k v, rem k                          *)
(*                                                                                                    *)
(* After(kind, st, op, a) is the state after an operation and Answer(kind, st, op, a) what it returns.    *)
(* Allowed(kind, st, op, a) says when an operation may be called at all.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty(kind) == CASE kind \in {"ht", "btree"} -> [k \in {} |-> 0]
                 [] kind = "vector" -> ""
                 [] OTHER -> <<>>
With(m, k, v) == (k :> v) @@ m
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Front(s) == SubSeq(s, 1, Len(s) - 1)
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InsertAfter(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))

Allowed(kind, st, op, a) ==
  CASE kind = "stack" /\ op \in {"pop", "peek"} -> st # <<>>
    [] kind = "list" /\ op = "add" -> a[2] \in 0..Len(st)
    [] kind = "list" /\ op = "del" -> a[1] \in 1..Len(st)
    [] kind = "btree" /\ op = "ins" -> a[1] \notin DOMAIN st
    [] OTHER -> TRUE

After(kind, st, op, a) ==
  CASE kind = "ht" /\ op = "put" -> IF a[1] \in DOMAIN st THEN st ELSE With(st, a[1], a[2])
    [] kind = "ht" /\ op = "rem" -> Without(st, a[1])
    [] kind = "ht" /\ op = "drain" -> Empty("ht")
    [] kind = "queue" /\ op = "offer" -> Append(st, a[1])
    [] kind = "queue" /\ op = "poll" -> IF st = <<>> THEN st ELSE Tail(st)
    [] kind = "stack" /\ op \in {"push", "upush"} -> Append(st, a[1])
    [] kind = "stack" /\ op = "pop" -> Front(st)
    [] kind = "vector" /\ op = "push" -> st \o a[1]
    [] kind = "vector" /\ op = "clear" -> ""
    [] kind = "list" /\ op = "add" -> InsertAfter(st, a[2], a[1])
    [] kind = "list" /\ op = "tail" -> Append(st, a[1])
    [] kind = "list" /\ op = "del" -> DropAt(st, a[1])
    [] kind = "list" /\ op = "purge" -> LET Stay(x) == x # a[1] IN SelectSeq(st, Stay)
    [] kind = "btree" /\ op = "ins" -> With(st, a[1], a[2])
    [] kind = "btree" /\ op = "upd" -> IF a[1] \in DOMAIN st THEN With(st, a[1], a[2]) ELSE st
    [] kind = "btree" /\ op = "rem" -> Without(st, a[1])
    [] OTHER -> st

Pairs(m) == {<<k, m[k]>> : k \in DOMAIN m}
Range(s) == {s[i] : i \in DOMAIN s}
(* a sequence that lists every entry of a map exactly once *)
Lists(seq, m) == Len(seq) = Cardinality(DOMAIN m) /\ Range(seq) = Pairs(m)

AnswerOk(kind, st, op, a, r) ==
  CASE kind = "ht" /\ op = "put" -> r = (IF a[1] \in DOMAIN st THEN "refused" ELSE "ok")
    [] kind = "ht" /\ op \in {"get", "rem"} -> r = (IF a[1] \in DOMAIN st THEN st[a[1]] ELSE "none")
    [] kind = "ht" /\ op = "drain" -> Lists(r, st)
    [] kind = "queue" /\ op \in {"poll", "peek"} -> r = (IF st = <<>> THEN "none" ELSE Head(st))
    [] kind = "stack" /\ op \in {"pop", "peek"} -> r = st[Len(st)]
    [] op \in {"offer", "push", "upush", "ins"} -> r = "ok"
    [] kind = "btree" /\ op = "upd" -> r = (IF a[1] \in DOMAIN st THEN "ok" ELSE "refused")
    [] OTHER -> TRUE

(* ---- the shape of a B-tree of minimum degree t: records k (keys), v (values), c (children) ------------- *)
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
RECURSIVE InOrder(_)
InOrder(x) ==
  IF x.c = <<>> THEN x.k
  ELSE Flatten([i \in DOMAIN x.c |-> InOrder(x.c[i]) \o (IF i <= Len(x.k) THEN <<x.k[i]>> ELSE <<>>)])
RECURSIVE Entries(_)
Entries(x) == {<<x.k[i], x.v[i]>> : i \in DOMAIN x.k} \cup UNION {Entries(x.c[i]) : i \in DOMAIN x.c}
RECURSIVE Depths(_)
Depths(x) == IF x.c = <<>> THEN {0} ELSE UNION {{d + 1 : d \in Depths(x.c[i])} : i \in DOMAIN x.c}
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
RECURSIVE Filled(_, _, _)
Filled(x, t, root) == /\ Len(x.k) <= 2 * t - 1
                      /\ Len(x.k) >= IF root THEN 1 ELSE t - 1
                      /\ x.c = <<>> \/ Len(x.c) = Len(x.k) + 1
                      /\ \A i \in DOMAIN x.c : Filled(x.c[i], t, FALSE)
NoTree == [x \in {} |-> 0]
TreeFaults(x, t, m) ==
  IF x = NoTree \/ x = <<>> THEN (IF DOMAIN m = {} THEN {} ELSE {"content"})
  ELSE IF ~Filled(x, t, TRUE) THEN {"occupancy"}
  ELSE (IF Increasing(InOrder(x)) THEN {} ELSE {"order"})
       \cup (IF Cardinality(Depths(x)) = 1 THEN {} ELSE {"depth"})
       \cup (IF Entries(x) = Pairs(m) /\ Len(InOrder(x)) = Cardinality(DOMAIN m) THEN {} ELSE {"content"})
===============================================================================
