------------------------------- MODULE MC_req -------------------------------
(* Requests: every array of requests (complete, incomplete, null, in every  *)
(* order) under every completion call.                                      *)
EXTENDS MpiSerial
CONSTANTS MaxReqs
CfgVal == [fr |-> 4, fd |-> 8, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
INTS == -3
PrefixVal == <<Step("TContiguous", [n |-> 2, old |-> INTS], 2, 0), Step("TCommit", [t |-> 2], 0, 0)>>

\* the first free buffer, so that addresses are used again
RECURSIVE FreeFrom(_, _)
FreeFrom(m, U) == IF m \in U THEN FreeFrom(m + 100, U) ELSE m
Used == {S.reqs[k].buf : k \in {k \in DOMAIN S.reqs : ~S.reqs[k].done}}
SBuf == FreeFrom(100, Used)
RBuf == FreeFrom(5000, Used)
Posting == Cardinality(Reqs) < MaxReqs /\
  \/ \E d \in {0, PROCNULL} : Call("Isend", [buf |-> SBuf, n |-> 1, t |-> 2, dest |-> d, tag |-> 1 + Len(posts), comm |-> WORLD])
  \/ \E s \in {ANY, PROCNULL}, t \in {ANY, 2} : (s = PROCNULL => t = 2) /\ Call("Irecv", [buf |-> RBuf, n |-> 3, t |-> INTS, src |-> s, tag |-> t, comm |-> WORLD])
\* arrays of distinct live requests and nulls, holding at least two
Arrays == LET A == Reqs \cup {NULL} IN
  {q \in UNION {[1..n -> A] : n \in 0..MaxReqs} : \A i, j \in 1..Len(q) : i # j /\ q[i] = q[j] => q[i] = NULL}
Completing ==
  \/ \E q \in Arrays : \E op \in {"Testany", "Waitany"} : Call(op, [reqs |-> q, st |-> 7])
  \/ \E q \in Arrays : \E op \in {"Testall", "Waitall", "Testsome", "Waitsome"} : Call(op, [reqs |-> q, sts |-> 20])
  \/ \E k \in Reqs \cup {NULL} : \E op \in {"Test", "Wait"} : Call(op, [req |-> k, st |-> 6])
  \/ \E k \in Reqs : Call("RequestFree", [req |-> k])
  \* whatever was received last, as items of either type
  \/ last.op \notin {"GetCount", "GetElements"} /\ \E i \in DOMAIN S.stn : \E t \in {INTS, 2} : Call("GetCount", [st |-> i, t |-> t])
Next == Bounded /\ (Posting \/ Completing)
Spec == Init /\ [][Next]_vars
=============================================================================
