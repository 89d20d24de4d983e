------------------------------ MODULE MC_comms ------------------------------
(* Communicators, groups and topologies: making, using and freeing them in  *)
(* every order, with operations pending.                                    *)
EXTENDS MpiSerial
CONSTANTS MaxComms, Part     \* "comms", "groups" or "cart"
CfgVal == [fr |-> 4, fd |-> 8, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
FULL == 2            \* the group of all processes, as the program holds it
PrefixVal == <<Step("CommGroup", [comm |-> WORLD], 0, FULL)>>
CHARS == -1
SBuf == SAddr[1 + Len(posts)]
RBuf == RAddr[1 + Len(posts)]
C == DOMAIN S.comms
Room == Cardinality(C) < MaxComms
Grids == {<<>>, <<1>>, <<1, 1>>, <<2>>, <<1, 2>>}
Pers(n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<0>>, <<1>>} ELSE {<<0, 1>>, <<1, 0>>}
Making == \E c \in C :
  \/ Room /\ Call("CommDup", [comm |-> c])
  \/ Room /\ \E k \in {0, 3, UNDEF}, e \in {0, -1} : Call("CommSplit", [comm |-> c, color |-> k, key |-> e])
  \/ Room /\ \E g \in {NULL, EMPTY, FULL} : Call("CommCreate", [comm |-> c, g |-> g])
  \/ Room /\ \E l, p \in {c, NULL}, i \in {0, 1} : Call("IntercommCreate", [lc |-> l, ll |-> 0, pc |-> p, rl |-> 0, tag |-> i])
  \/ Room /\ \E i \in {0, 1} : Call("IntercommMerge", [comm |-> c, high |-> i])
  \/ Call("CommSize", [comm |-> c]) \/ Call("CommRank", [comm |-> c])
  \/ c # WORLD /\ Call("CommFree", [comm |-> c])
Using == \E c \in C :
  \/ Call("Isend", [buf |-> SBuf, n |-> 1, t |-> CHARS, dest |-> 0, tag |-> 1, comm |-> c])
  \/ Call("Irecv", [buf |-> RBuf, n |-> 1, t |-> CHARS, src |-> 0, tag |-> ANY, comm |-> c])
  \/ Call("Iprobe", [src |-> 0, tag |-> ANY, comm |-> c, st |-> 4])
  \/ \E k \in Reqs : Call("Test", [req |-> k, st |-> 5])
Groups ==
  LET G == {EMPTY, FULL} A == G \cup {NULL} IN
  \/ \E g, h \in A : \E op \in {"GroupUnion", "GroupIntersection", "GroupDifference"} : Call(op, [g1 |-> g, g2 |-> h])
  \/ \E g \in {FULL, NULL} : \E q \in {<<>>, <<0>>, <<1>>, <<0, 0>>, <<0, 1>>, <<-1>>} : Call("GroupIncl", [g1 |-> g, n |-> Len(q), ranks |-> q])
  \/ Call("GroupIncl", [g1 |-> EMPTY, n |-> 0, ranks |-> <<>>])
  \/ \E g \in {FULL, NULL} : \E q \in {<<>>, <<0, 0, 1>>, <<0, 0, -1>>, <<0, 0, 2>>, <<0, 1, 1>>, <<1, 0, -1>>, <<1, 1, 1>>, <<0, 1, 2>>, <<0, 2, 2>>, <<0, -1, -2>>, <<0, -2, -2>>, <<0, 0, 1, 0, 0, 1>>} :
       Call("GroupRangeIncl", [g1 |-> g, n |-> Len(q) \div 3, ranges |-> q])
  \/ Call("GroupRangeIncl", [g1 |-> EMPTY, n |-> 0, ranges |-> <<>>])
  \/ \E g \in {FULL, NULL}, h \in A : \E q \in {<<>>, <<0>>, <<0, 0, 0>>, <<1>>, <<0, 1>>} : Call("TranslateRanks", [g1 |-> g, n |-> Len(q), ranks |-> q, g2 |-> h])
  \/ \E g \in A : Call("CommCreate", [comm |-> WORLD, g |-> g])
Carts ==
  \/ Room /\ \E c \in C, g \in Grids : \E p \in Pers(Len(g)), r \in {0, 1} : Call("CartCreate", [comm |-> c, nd |-> Len(g), dims |-> g, per |-> p, reorder |-> r])
  \/ Room /\ \E c \in C \ {WORLD} : S.comms[c].nd > 0 /\ Call("CommDup", [comm |-> c])
  \/ \E c \in C \ {WORLD} : S.comms[c].nd > 0 /\
       (\/ \E m \in 0..S.comms[c].nd : Call("CartGet", [comm |-> c, max |-> m])
        \/ \E m \in 0..S.comms[c].nd, r \in {0, 1, -1} : Call("CartCoords", [comm |-> c, rank |-> r, max |-> m]))
  \/ \E n \in {1, 2}, d \in {<<>>, <<0>>, <<1>>, <<0, 0>>, <<1, 0, 0>>} : Call("DimsCreate", [nn |-> n, nd |-> Len(d), dims |-> d])
  \/ \E c \in C \ {WORLD} : Call("CommFree", [comm |-> c])
Next == Bounded /\ CASE Part = "comms" -> (Making \/ Using) [] Part = "groups" -> Groups [] Part = "cart" -> Carts
Spec == Init /\ [][Next]_vars
\* states are told apart by how each communicator was made, so that every kind is replayed
Maker(c) == LET M == {i \in 1..Len(hist) : hist[i].h = c} IN IF M = {} THEN "none" ELSE hist[SMax(M)].op
Grid(c) == IF Maker(c) \in {"CartCreate", "CommDup"} THEN S.comms[c].per ELSE <<>>
KindView == <<View, [c \in C |-> <<Maker(c), Grid(c)>>]>>
=============================================================================
