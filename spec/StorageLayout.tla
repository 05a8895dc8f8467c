---------------------------- MODULE StorageLayout ----------------------------
(* How the storage layer lays rows out: a sequence of blocks, each with a prefix of used slots (a live or a     *)
(* deleted row).  Insertions append to the last block; vacuum moves the live rows forward with a read and a    *)
(* write position; adding a column lays all rows out again in smaller blocks, removing one widens the blocks.   *)
(* Checked here: every one of these keeps the live rows and their order (refinement of Storage).  The           *)
(* transitions are printed and walked on the real storage layer.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRows, Narrow, Wide, Emit     \* capacities of a block before and after a column is added
VARIABLES blocks, wide
vars == <<blocks, wide>>

Cap(w) == IF w THEN Wide ELSE Narrow
RECURSIVE Flat(_)
Flat(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o Flat(Tail(bs))
RECURSIVE Chunk(_, _)
Chunk(s, c) == IF s = <<>> THEN <<>> ELSE IF Len(s) <= c THEN <<s>> ELSE <<SubSeq(s, 1, c)>> \o Chunk(SubSeq(s, c + 1, Len(s)), c)
IsLive(x) == x[1] = "L"
(* the slots, each tagged with where it was *)
Tagged(bs) == [b \in DOMAIN bs |-> [i \in DOMAIN bs[b] |-> <<bs[b][i], b, i>>]]
LiveSeq(bs) == SelectSeq(Flat(bs), IsLive)
Strip(bs) == [b \in DOMAIN bs |-> [i \in DOMAIN bs[b] |-> bs[b][i][1]]]

Insert(bs, w, x) == IF bs = <<>> \/ Len(bs[Len(bs)]) = Cap(w) THEN Append(bs, <<x>>)
                    ELSE [bs EXCEPT ![Len(bs)] = Append(@, x)]

(* vacuum as the code does it: for every destination block, move live rows there until it is full; a row that    *)
(* does not fit any more ends the block; the last destination keeps the rest free; the blocks after it go         *)
RECURSIVE Fill(_, _, _, _, _)
Fill(bs, cap, sb, si, dst) ==          \* reading position (block, slot), rows of the current destination so far
  IF sb > Len(bs) THEN [dst |-> dst, sb |-> sb, si |-> si, full |-> FALSE]
  ELSE IF si > Len(bs[sb]) THEN Fill(bs, cap, sb + 1, 1, dst)
  ELSE IF ~IsLive(bs[sb][si]) THEN Fill(bs, cap, sb, si + 1, dst)
  ELSE IF Len(dst) = cap THEN [dst |-> dst, sb |-> sb, si |-> si, full |-> TRUE]
  ELSE Fill(bs, cap, sb, si + 1, Append(dst, bs[sb][si]))
RECURSIVE Dests(_, _, _, _)
Dests(bs, cap, sb, si) == LET r == Fill(bs, cap, sb, si, <<>>)
                          IN IF r.full THEN <<r.dst>> \o Dests(bs, cap, r.sb, r.si) ELSE <<r.dst>>
Vacuum(bs, w) == IF bs = <<>> THEN bs ELSE Dests(bs, Cap(w), 1, 1)
AddColumn(bs) == Chunk(Flat(bs), Wide)

Edge(op, x, to) == Emit => PrintT("EDGE " \o ToJson([f |-> <<blocks, wide>>, op |-> op, k |-> x, t |-> to]))
Go(op, x, bs, w) == /\ blocks' = bs /\ wide' = w /\ Edge(op, x, <<bs, w>>)

Init == blocks = <<>> /\ wide = FALSE
LiveCount == Cardinality({<<b, i>> \in (DOMAIN blocks) \X (1..Narrow) : i \in DOMAIN blocks[b] /\ blocks[b][i] = "L"})
Rank(b, i) == Cardinality({<<c, j>> \in (DOMAIN blocks) \X (1..Narrow) : j \in DOMAIN blocks[c] /\ blocks[c][j] = "L" /\ (c < b \/ (c = b /\ j < i))})
Next ==
  \/ Len(Flat(blocks)) < MaxRows /\ Go("ins", 0, Insert(blocks, wide, "L"), wide)
  \/ \E b \in DOMAIN blocks : \E i \in DOMAIN blocks[b] :
        blocks[b][i] = "L" /\ Go("del", Rank(b, i), [blocks EXCEPT ![b][i] = "D"], wide)
  \/ Go("vac", 0, Strip(Vacuum(Tagged(blocks), wide)), wide)
  \/ ~wide /\ Go("add", 0, AddColumn(blocks), TRUE)
  \/ wide /\ Go("rem", 0, blocks, FALSE)
Spec == Init /\ [][Next]_vars

(* the blocks are never over-full, and every re-layout keeps the live rows and their order *)
Fits == \A b \in DOMAIN blocks : Len(blocks[b]) <= Cap(wide)
KeepsLive == LET T == Tagged(blocks)
                 Live(x) == x[1] = "L"
                 L(bs) == SelectSeq(Flat(bs), Live)
             IN /\ L(Vacuum(T, wide)) = L(T)
                /\ Len(Flat(Vacuum(T, wide))) = Len(L(T))
                /\ L(AddColumn(T)) = L(T)
                /\ Flat(AddColumn(T)) = Flat(T)
===============================================================================
