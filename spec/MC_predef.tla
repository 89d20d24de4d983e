----------------------------- MODULE MC_predef -----------------------------
(* Predefined datatypes: each one is queried, packed, sent and used in a    *)
(* constructor, under the configured Fortran sizes.                         *)
EXTENDS MpiSerial
CONSTANTS Fr, Fd
CfgVal == [fr |-> Fr, fd |-> Fd, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
PrefixVal == <<>>
All == (-47..-1) \ {-14, -15}
Pairs == -31..-23
Q(op, a) == Step(op, a, 0, 0)
Use == \E t \in All :
  \/ Call("TSize", [t |-> t]) \/ Call("TExtent", [t |-> t]) \/ Call("TLb", [t |-> t]) \/ Call("TUb", [t |-> t])
  \/ \E n \in {1, 3} : Call("Pack", [buf |-> 1000, n |-> n, t |-> t, out |-> 9000, size |-> 200, pos |-> 1, comm |-> WORLD])
  \/ \E n \in {1, 3} : Call("Allgather", [sbuf |-> 1000, sn |-> n, stp |-> t, rbuf |-> 5000, rn |-> n, rtp |-> t, comm |-> WORLD])
  \/ \E n \in {1, 3} : Call("Sendrecv", [sbuf |-> 1000, sn |-> n, stp |-> t, dest |-> 0, stag |-> 3, rbuf |-> 7000, rn |-> 4, rtp |-> t, src |-> 0, rtag |-> ANY, comm |-> WORLD, st |-> 9])
  \/ t # -13 /\ (\/ Call("TVector", [n |-> 2, bl |-> 2, s |-> 3, old |-> t])
                 \/ Call("TStruct", [bls |-> <<1, 1>>, ds |-> <<0, 32>>, olds |-> <<-1, t>>])
                 \/ Call("TDup", [old |-> t]))
Next == Bounded /\ Use
Spec == Init /\ [][Next]_vars
Epilogue == IF last'.op \in TypeOps \cup {"TStruct"}
        THEN LET t == last'.h IN <<Q("TSize", [t |-> t]), Q("TExtent", [t |-> t]), Q("TCommit", [t |-> t]),
                Q("Pack", [buf |-> 1000, n |-> 2, t |-> t, out |-> 9000, size |-> 600, pos |-> 0, comm |-> WORLD]), Q("TFree", [t |-> t])>>
        ELSE IF last'.op = "Sendrecv" THEN <<Q("GetCount", [st |-> 9, t |-> last'.a.stp]), Q("GetElements", [st |-> 9, t |-> last'.a.stp])>> ELSE <<>>
EmitUse == Printing => PrintT(<<"SCRIPT", last'.fatal, ToJson(hist' \o Epilogue)>>)
\* a constant of every name, with the size and structure of what it names
C21_Inv == \A t \in All :
   LET T == Predef(t, Fr, Fd) IN
     /\ T.sz > 0 /\ Len(T.bm) = T.sz /\ T.com /\ Lb(T) = 0 /\ Ub(T) = Extent(T) /\ Extent(T) % T.mx = 0
     /\ t \in Pairs => T.ne = 2 /\ (t \notin {-25, -24, -23} => T.bm[T.eo[2] + 1] % BSize(T.sg[2]) = 0)
     /\ t \notin Pairs => T.ne = 1 /\ T.sz = Extent(T)
     /\ DefExt(PredefMap(t)) = Extent(T)
C21 == [][last'.op \in {"Pack", "Allgather", "Sendrecv"} => S'.ph = "run"]_vars
=============================================================================
