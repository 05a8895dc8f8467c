----------------------------- MODULE ContainersGen -----------------------------
(* All operation sequences of length D that Containers allows, over a small set of operations: printed,     *)
(* then run on the real containers.                                                                       *)
EXTENDS Containers, Json
CONSTANTS Kind, D
VARIABLES st, hist

Ops ==
  CASE Kind = "ht" -> {<<"put", <<k, v>>>> : k \in {"61", "6161", "62"}, v \in {"01", "0203"}}
                      \cup {<<op, <<k>>>> : op \in {"get", "rem"}, k \in {"61", "6161", "62"}} \cup {<<"drain", <<>>>>}
    [] Kind = "queue" -> {<<"offer", <<x>>>> : x \in {"0a", "0b0b0b0b0b0b0b0b0b"}} \cup {<<"poll", <<>>>>, <<"peek", <<>>>>}
    [] Kind = "stack" -> {<<"push", <<"0a">>>>, <<"upush", <<"0b0b0b0b0b0b0b0b0b">>>>, <<"pop", <<>>>>, <<"peek", <<>>>>}
    [] Kind = "vector" -> {<<"push", <<x>>>> : x \in {"00", "01020304050607", "0a0b0c0d0e0f101112131415161718191a1b"}} \cup {<<"clear", <<>>>>}
    [] Kind = "list" -> {<<"add", <<x, k>>>> : x \in {"1", "2"}, k \in 0..D} \cup {<<"tail", <<"3">>>>}
                        \cup {<<"del", <<k>>>> : k \in 1..D} \cup {<<"purge", <<"1">>>>}

Init == st = Empty(Kind) /\ hist = <<>>
Next == /\ Len(hist) < D
        /\ \E o \in Ops : /\ Allowed(Kind, st, o[1], o[2])
                          /\ st' = After(Kind, st, o[1], o[2])
                          /\ hist' = Append(hist, o)
        /\ (Len(hist') < D \/ PrintT("HIST " \o ToJson(hist')))
Spec == Init /\ [][Next]_<<st, hist>>

(* what the containers promise, on the model *)
Count == CASE Kind \in {"ht", "btree"} -> Cardinality(DOMAIN st) [] OTHER -> Len(st)
Sane == Count >= 0 /\ (Kind # "vector" => Count <= Len(hist))
===============================================================================
