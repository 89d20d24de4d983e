------------------------------ MODULE MC_life ------------------------------
(* Life cycle of the program, and of objects: requests, types and           *)
(* communicators made, used, freed in every order, until none is left.      *)
EXTENDS MpiSerial
CONSTANTS MaxLive
CfgVal == [fr |-> 4, fd |-> 8, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
PrefixVal == <<>>
INTS == -3
SBuf == 100 * (1 + Len(posts))
RBuf == 5000 + 100 * Len(posts)
Room == Cardinality(Live(S)) < MaxLive
Ty == {INTS} \cup {t \in DOMAIN S.types : S.types[t].com}
Objects == \E c \in DOMAIN S.comms :
  \/ Room /\ Call("CommDup", [comm |-> c])
  \/ Room /\ \E t \in Ty : Call("Isend", [buf |-> SBuf, n |-> 1, t |-> t, dest |-> 0, tag |-> 1, comm |-> c])
  \/ Room /\ \E t \in Ty : Call("Irecv", [buf |-> RBuf, n |-> 1, t |-> t, src |-> 0, tag |-> 1, comm |-> c])
  \/ c # WORLD /\ Call("CommFree", [comm |-> c])
Values == \/ Room /\ \E t \in Ty \cup DOMAIN S.types : Call("TVector", [n |-> 2, bl |-> 1, s |-> 2, old |-> t]) \/ Call("TDup", [old |-> t])
          \/ \E t \in DOMAIN S.types : ~S.types[t].com /\ Call("TCommit", [t |-> t])
          \/ \E t \in DOMAIN S.types : Call("TFree", [t |-> t])
          \/ \E k \in Reqs : Call("Test", [req |-> k, st |-> 4]) \/ Call("RequestFree", [req |-> k])
Cycle == IF S.ph = "pre" THEN \/ \E th \in {0, 1}, rq \in 0..3 : (th = 0 => rq = 0) /\ Call("Init", [thread |-> th, req |-> rq])
                              \/ Call("Initialized", [none |-> 0])
         ELSE \/ Call("Init", [thread |-> 0, req |-> 0]) \/ Call("Init", [thread |-> 1, req |-> 3]) \/ Call("Initialized", [none |-> 0]) \/ Call("Finalize", [none |-> 0])
Next == Len(hist) < MaxLevel /\ (Cycle \/ (S.ph = "run" /\ (Objects \/ Values))) /\ Running
Spec == Init /\ [][Next]_vars
\* call sequences that end where they began
EmitCycle == (Printing /\ S'.ph = "run" /\ Idle(S') /\ Len(hist') > 1) => PrintT(<<"SCRIPT", "clean", ToJson(hist')>>)
=============================================================================
