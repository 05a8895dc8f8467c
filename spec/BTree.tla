--------------------------------- MODULE BTree ---------------------------------
(* The B-tree algorithms (split on the way down, fill on the way down), explored exhaustively over the      *)
(* keys 1..N: every reachable tree is a legal B-tree holding exactly the keys inserted and not removed, so     *)
(* the algorithm refines the map of Containers.  Every transition is printed; the conformance check walks       *)
(* through all of them on the real code.                                                                    *)
EXTENDS Containers, Json
CONSTANTS N, T, Emit
VARIABLES tree, keys
vars == <<tree, keys>>

Node(k, c) == [k |-> k, v |-> k, c |-> c]
Leaf(x) == x.c = <<>>
Full(x) == Len(x.k) = 2 * T - 1
Set(s, i, x) == [s EXCEPT ![i] = x]
Cut(s, a, b) == SubSeq(s, a, b)
Below(x, key) == Cardinality({i \in DOMAIN x.k : x.k[i] < key})     \* number of keys less than key

SplitChild(x, i) ==                              \* child i (1-based) is full
  LET y == x.c[i]
      a == Node(Cut(y.k, 1, T - 1), IF Leaf(y) THEN <<>> ELSE Cut(y.c, 1, T))
      b == Node(Cut(y.k, T + 1, 2 * T - 1), IF Leaf(y) THEN <<>> ELSE Cut(y.c, T + 1, 2 * T))
  IN Node(InsertAfter(x.k, i - 1, y.k[T]), InsertAfter(Set(x.c, i, a), i, b))

RECURSIVE InsertNonFull(_, _)
InsertNonFull(x, key) ==
  LET i == Below(x, key) + 1
  IN IF Leaf(x) THEN Node(InsertAfter(x.k, i - 1, key), <<>>)
     ELSE IF Full(x.c[i])
          THEN LET y == SplitChild(x, i)
                   j == IF y.k[i] < key THEN i + 1 ELSE i
               IN Node(y.k, Set(y.c, j, InsertNonFull(y.c[j], key)))
          ELSE Node(x.k, Set(x.c, i, InsertNonFull(x.c[i], key)))
Insert(x, key) ==
  IF x = NoTree THEN Node(<<key>>, <<>>)
  ELSE IF Full(x) THEN InsertNonFull(SplitChild(Node(<<>>, <<x>>), 1), key)
  ELSE InsertNonFull(x, key)

Merge(x, i) ==                                   \* children i and i+1 around key i
  LET y == x.c[i]
      z == x.c[i + 1]
  IN Node(DropAt(x.k, i), DropAt(Set(x.c, i, Node(y.k \o <<x.k[i]>> \o z.k, y.c \o z.c)), i + 1))
BorrowPrev(x, i) ==
  LET y == x.c[i]
      z == x.c[i - 1]
  IN Node(Set(x.k, i - 1, z.k[Len(z.k)]),
          Set(Set(x.c, i, Node(<<x.k[i - 1]>> \o y.k, IF Leaf(y) THEN <<>> ELSE <<z.c[Len(z.c)]>> \o y.c)),
              i - 1, Node(Front(z.k), IF Leaf(z) THEN <<>> ELSE Front(z.c))))
BorrowNext(x, i) ==
  LET y == x.c[i]
      z == x.c[i + 1]
  IN Node(Set(x.k, i, z.k[1]),
          Set(Set(x.c, i, Node(y.k \o <<x.k[i]>>, IF Leaf(y) THEN <<>> ELSE y.c \o <<z.c[1]>>)),
              i + 1, Node(Tail(z.k), IF Leaf(z) THEN <<>> ELSE Tail(z.c))))
RECURSIVE MaxKey(_)
MaxKey(x) == IF Leaf(x) THEN x.k[Len(x.k)] ELSE MaxKey(x.c[Len(x.c)])
RECURSIVE MinKey(_)
MinKey(x) == IF Leaf(x) THEN x.k[1] ELSE MinKey(x.c[1])

RECURSIVE RemoveFrom(_, _)
RemoveFrom(x, key) ==
  LET i == Below(x, key) + 1
      here == i <= Len(x.k) /\ x.k[i] = key
  IN IF here /\ Leaf(x) THEN Node(DropAt(x.k, i), <<>>)
     ELSE IF here THEN
          (IF Len(x.c[i].k) >= T
           THEN LET p == MaxKey(x.c[i]) IN Node(Set(x.k, i, p), Set(x.c, i, RemoveFrom(x.c[i], p)))
           ELSE IF Len(x.c[i + 1].k) >= T
           THEN LET s == MinKey(x.c[i + 1]) IN Node(Set(x.k, i, s), Set(x.c, i + 1, RemoveFrom(x.c[i + 1], s)))
           ELSE LET y == Merge(x, i) IN Node(y.k, Set(y.c, i, RemoveFrom(y.c[i], key))))
     ELSE IF Leaf(x) THEN x
     ELSE LET last == i = Len(x.k) + 1
              y == IF Len(x.c[i].k) >= T THEN x
                   ELSE IF i # 1 /\ Len(x.c[i - 1].k) >= T THEN BorrowPrev(x, i)
                   ELSE IF ~last /\ Len(x.c[i + 1].k) >= T THEN BorrowNext(x, i)
                   ELSE Merge(x, IF last THEN i - 1 ELSE i)
              j == IF i > Len(y.k) + 1 THEN i - 1 ELSE i
          IN Node(y.k, Set(y.c, j, RemoveFrom(y.c[j], key)))
Remove(x, key) ==
  IF x = NoTree THEN x
  ELSE LET y == RemoveFrom(x, key)
       IN IF y.k # <<>> THEN y ELSE IF Leaf(y) THEN NoTree ELSE y.c[1]

Say(op, k, t2) == ~Emit \/ PrintT("EDGE " \o ToJson([f |-> tree, op |-> op, k |-> k, t |-> t2]))

Init == tree = NoTree /\ keys = {}
DoInsert(k) == /\ k \notin keys
               /\ tree' = Insert(tree, k) /\ keys' = keys \cup {k} /\ Say("ins", k, tree')
DoRemove(k) == /\ tree' = Remove(tree, k) /\ keys' = keys \ {k} /\ Say("rem", k, tree')
Next == \E k \in 1..N : DoInsert(k) \/ DoRemove(k)
Spec == Init /\ [][Next]_vars

IsMap == TreeFaults(tree, T, [k \in keys |-> k]) = {}
===============================================================================
