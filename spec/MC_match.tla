------------------------------ MODULE MC_match ------------------------------
(* Matching: every interleaving of sends, receives, probes, tests, waits    *)
(* and request frees with two tags and wildcards, on two communicators.     *)
EXTENDS MpiSerial
CONSTANTS Tags, Comms
CfgVal == [fr |-> 4, fd |-> 8, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
PrefixVal == <<Step("CommDup", [comm |-> WORLD], 2, 0)>>
CHARS == -1   \* MPI_CHAR: one byte

LiveC == DOMAIN S.comms \cap Comms
SBuf == SAddr[1 + Len(posts)]
SBuf2 == SAddr[2 + Len(posts)]
RBuf == RAddr[1 + Len(posts)]
RTags == Tags \cup {ANY}
Send(op) == \E t \in Tags, c \in LiveC : Call(op, [buf |-> SBuf, n |-> 1, t |-> CHARS, dest |-> 0, tag |-> t, comm |-> c])
RecvC(op) == \E t \in RTags, c \in LiveC : Call(op, [buf |-> RBuf, n |-> 1, t |-> CHARS, src |-> IF t = ANY THEN ANY ELSE 0, tag |-> t, comm |-> c, st |-> 3])
ProbeC(op) == \E t \in RTags, c \in LiveC : Call(op, [src |-> IF t = ANY THEN ANY ELSE 0, tag |-> t, comm |-> c, st |-> 4])
SR == \E t \in Tags, u \in RTags, c \in LiveC : Call("Sendrecv", [sbuf |-> SBuf2, sn |-> 1, stp |-> CHARS, dest |-> 0, stag |-> t,
                                                   rbuf |-> RBuf, rn |-> 1, rtp |-> CHARS, src |-> 0, rtag |-> u, comm |-> c, st |-> 5])
ReqC(op) == \E k \in Reqs : Call(op, [req |-> k, st |-> 6])
Next == Bounded /\
  \/ Send("Isend") \/ Send("Send") \/ Send("Irsend")
  \/ RecvC("Irecv") \/ RecvC("Recv")
  \/ ProbeC("Probe") \/ ProbeC("Iprobe")
  \/ SR
  \/ ReqC("Test") \/ ReqC("Wait")
  \/ \E k \in Reqs : Call("RequestFree", [req |-> k])
  \/ \E c \in LiveC \ {WORLD} : Call("CommFree", [comm |-> c])
Spec == Init /\ [][Next]_vars
=============================================================================
