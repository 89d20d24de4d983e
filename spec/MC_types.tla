------------------------------ MODULE MC_types ------------------------------
(* Datatypes: every constructor over a repertoire of arguments, applied to  *)
(* basic and derived types, nested up to MaxLevel deep.                     *)
EXTENDS MpiSerial
CONSTANTS Rich        \* 0, 1, 2: how large the repertoire is
CfgVal == [fr |-> 4, fd |-> 8, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
PrefixVal == <<>>
INTS == -3
DBL == -10
SHORTINT == -30
LBM == -14
UBM == -15
Basics == {INTS} \cup (IF Rich > 1 THEN {DBL, SHORTINT} ELSE {})
\* the newest derived type, or a basic one
Olds == IF DOMAIN S.types = {} THEN Basics ELSE {SMax(DOMAIN S.types)}
Lv(x, y, z) == IF Rich = 0 THEN x ELSE IF Rich = 1 THEN y ELSE z
N == Lv({0, 2}, {0, 1, 2}, {0, 1, 2, 3})
St == Lv({-1, 2}, {-1, 2}, {-3, -1, 0, 1, 2})
Hs == Lv({24}, {-12, 24}, {-16, -5, 0, 8, 24})
Bl == Lv({0, 2}, {0, 1, 2}, {0, 1, 2})
D1 == Lv({-2, 3}, {-2, 0, 3}, {-2, 0, 1, 3})
HD == Lv({-12, 20}, {-12, 0, 20}, {-10, 0, 4, 20})
Make(op, a) == Call(op, a)
Plain == \E o \in Olds :
  \/ \E n \in N : Make("TContiguous", [n |-> n, old |-> o])
  \/ \E n \in N, b \in Bl, s \in St : Make("TVector", [n |-> n, bl |-> b, s |-> s, old |-> o])
  \/ \E n \in N, b \in Bl, s \in Hs : \E op \in {"THvector"} \cup (IF Rich > 1 THEN {"TCreateHvector"} ELSE {}) : Make(op, [n |-> n, bl |-> b, s |-> s, old |-> o])
  \/ \E b1, b2 \in Bl, d1, d2 \in D1 : Make("TIndexed", [bls |-> <<b1, b2>>, ds |-> <<d1, d2>>, old |-> o])
  \/ \E b \in Bl, d1, d2 \in D1 : Make("TIndexedBlock", [bl |-> b, ds |-> <<d1, d2>>, old |-> o])
  \/ \E b1, b2 \in Bl, d1, d2 \in HD : Make("THindexed", [bls |-> <<b1, b2>>, ds |-> <<d1, d2>>, old |-> o])
  \/ Make("TDup", [old |-> o])
  \/ o > 0 /\ ~S.types[o].com /\ Call("TCommit", [t |-> o])
\* structs: a data block, a second one or a marker, possibly both markers
Structs == \E o \in Olds :
  \/ \E p \in Basics \cup {o}, b1, b2 \in Bl, d1, d2 \in HD : Make("TStruct", [bls |-> <<b1, b2>>, ds |-> <<d1, d2>>, olds |-> <<p, o>>])
  \/ \E m \in {LBM, UBM}, b1 \in Bl \ {0}, d1, d2 \in HD : Make("TStruct", [bls |-> <<b1, 1>>, ds |-> <<d1, d2>>, olds |-> <<o, m>>])
  \/ \E m \in {LBM, UBM}, b2 \in {0, 1}, d1, d2 \in HD : Make("TStruct", [bls |-> <<b2, 1>>, ds |-> <<d1, d2>>, olds |-> <<m, o>>])
  \/ \E d0, d1, d2 \in HD : d0 <= d2 /\ Make("TStruct", [bls |-> <<1, 1, 1>>, ds |-> <<d0, d1, d2>>, olds |-> <<LBM, o, UBM>>])
Frees == \E t \in DOMAIN S.types : Call("TFree", [t |-> t])
Next == Bounded /\ Cardinality(DOMAIN S.types) < 4 /\ (Plain \/ Structs \/ (Rich > 0 /\ Frees))
Spec == Init /\ [][Next]_vars

\* every type is queried, packed, taken apart again, and received
Q(op, a) == Step(op, a, 0, 0)
Probes(T, t) ==
  LET sz == T.types[t].sz
      over == ~T.types[t].big /\ Cardinality({T.types[t].bm[i] : i \in 1..sz}) # sz
  IN <<Q("TSize", [t |-> t]), Q("TExtent", [t |-> t]), Q("TLb", [t |-> t]), Q("TUb", [t |-> t]), Q("TCommit", [t |-> t]),
       Q("Pack", [buf |-> 20000, n |-> 2, t |-> t, out |-> 30000, size |-> 2 * sz, pos |-> 0, comm |-> WORLD])>>
     \o (IF over THEN <<>> ELSE
         <<Q("Unpack", [in |-> 30000, size |-> sz, pos |-> 0, buf |-> 10000, n |-> 1, t |-> t, comm |-> WORLD]),
           Q("Allgather", [sbuf |-> 20000, sn |-> 1, stp |-> t, rbuf |-> 12000, rn |-> 1, rtp |-> t, comm |-> WORLD]),
           Step("Irecv", [buf |-> 14000, n |-> 1, t |-> t, src |-> 0, tag |-> 1, comm |-> WORLD], 19, 0),
           Q("Send", [buf |-> 22000, n |-> 1, t |-> t, dest |-> 0, tag |-> 1, comm |-> WORLD]),
           Q("Wait", [req |-> 19, st |-> 2]), Q("GetCount", [st |-> 2, t |-> t]), Q("GetElements", [st |-> 2, t |-> t])>>)
     \o <<Q("TSize", [t |-> t]), Q("TFree", [t |-> t])>>
EmitTypes == (Printing /\ last'.op \in TypeOps \cup {"TStruct"}) => PrintT(<<"SCRIPT", last'.fatal, ToJson(hist' \o Probes(S', last'.h))>>)
=============================================================================
