------------------------------ MODULE MC_null ------------------------------
(* MPI_PROC_NULL, and calls with arguments no program may use, while        *)
(* ordinary traffic is pending.                                             *)
EXTENDS MpiSerial
CONSTANTS Part        \* "null" or "bad"
CfgVal == [fr |-> 4, fd |-> 8, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
INTS == -3
PrefixVal == <<Step("TContiguous", [n |-> 1, old |-> INTS], 2, 0),         \* type 2 stays uncommitted
               Step("TContiguous", [n |-> 2, old |-> INTS], 3, 0), Step("TCommit", [t |-> 3], 0, 0)>>
SBuf == 100 * (1 + Len(posts))
RBuf == 5000 + 100 * Len(posts)
Background == Len(hist) < 2 /\
  (\/ \E t \in {1, 2} : Call("Isend", [buf |-> SBuf, n |-> 1, t |-> INTS, dest |-> 0, tag |-> t, comm |-> WORLD])
   \/ \E t \in {1, ANY} : Call("Irecv", [buf |-> RBuf, n |-> 1, t |-> INTS, src |-> ANY, tag |-> t, comm |-> WORLD]))
SendTo(op, D, T) == \E d \in D, n \in {0, 1}, t \in T : Call(op, [buf |-> SBuf, n |-> n, t |-> t, dest |-> d, tag |-> 1, comm |-> WORLD])
RecvFrom(op, D, T) == \E d \in D, n \in {0, 1}, t \in T, g \in {1, ANY} : Call(op, [buf |-> RBuf, n |-> n, t |-> t, src |-> d, tag |-> g, comm |-> WORLD, st |-> 3])
ProbeOf(op, D) == \E d \in D, g \in {1, ANY}, s \in {-1, 4} : Call(op, [src |-> d, tag |-> g, comm |-> WORLD, st |-> s])
SendKinds == {"Isend", "Send", "Ssend", "Rsend", "Irsend"}
RecvKinds == {"Irecv", "Recv"}
ProbeKinds == {"Probe", "Iprobe"}
SR(D, E, X(_, _)) == \E d \in D, s \in E : X(d, s) /\ Call("Sendrecv", [sbuf |-> SBuf, sn |-> 1, stp |-> INTS, dest |-> d, stag |-> 1,
                    rbuf |-> RBuf, rn |-> 1, rtp |-> INTS, src |-> s, rtag |-> ANY, comm |-> WORLD, st |-> 5])
NullCalls == \/ \E op \in SendKinds : SendTo(op, {PROCNULL}, {INTS})
             \/ \E op \in RecvKinds : RecvFrom(op, {PROCNULL}, {INTS})
             \/ \E op \in ProbeKinds : ProbeOf(op, {PROCNULL})
             \/ SR({0, PROCNULL}, {0, ANY, PROCNULL}, LAMBDA d, s : PROCNULL \in {d, s})
             \/ \E k \in Reqs : \E op \in {"Test", "Wait"} : Call(op, [req |-> k, st |-> 6])
Bad == {1, -3, -7, 100}
BadCalls == \/ \E op \in SendKinds : SendTo(op, Bad \cup {ANY}, {INTS})
            \/ \E op \in RecvKinds : RecvFrom(op, Bad, {INTS})
            \/ \E op \in ProbeKinds : ProbeOf(op, Bad)
            \/ SR({0, 1, PROCNULL}, {0, 1, PROCNULL}, LAMBDA d, s : 1 \in {d, s})
            \/ \E op \in SendKinds : SendTo(op, {0}, {2})
            \/ \E op \in RecvKinds : RecvFrom(op, {0}, {2})
            \/ \E r \in {1, -1, -2, 7} :
                 \/ Call("Bcast", [buf |-> RBuf, n |-> 1, t |-> INTS, root |-> r, comm |-> WORLD])
                 \/ Call("Gather", [sbuf |-> SBuf, sn |-> 1, stp |-> INTS, rbuf |-> RBuf, rn |-> 1, rtp |-> INTS, root |-> r, comm |-> WORLD])
                 \/ Call("Gatherv", [sbuf |-> SBuf, sn |-> 1, stp |-> INTS, rbuf |-> RBuf, rn |-> 1, rd |-> 0, rtp |-> INTS, root |-> r, comm |-> WORLD])
                 \/ Call("Scatter", [sbuf |-> SBuf, sn |-> 1, stp |-> INTS, rbuf |-> RBuf, rn |-> 1, rtp |-> INTS, root |-> r, comm |-> WORLD])
                 \/ Call("Scatterv", [sbuf |-> SBuf, sn |-> 1, sd |-> 0, stp |-> INTS, rbuf |-> RBuf, rn |-> 1, rtp |-> INTS, root |-> r, comm |-> WORLD])
                 \/ Call("Reduce", [sbuf |-> SBuf, rbuf |-> RBuf, n |-> 1, t |-> INTS, oph |-> 0, root |-> r, comm |-> WORLD])
            \* more is asked for than sent, in items of one size or two
            \/ \E n, m \in {1, 2, 3}, t, u \in {INTS, 3} :
                 /\ n * TypeOf(S, t).ne < m * TypeOf(S, u).ne
                 /\ \/ Call("Allgather", [sbuf |-> SBuf, sn |-> n, stp |-> t, rbuf |-> RBuf, rn |-> m, rtp |-> u, comm |-> WORLD])
                    \/ Call("Allgatherv", [sbuf |-> SBuf, sn |-> n, stp |-> t, rbuf |-> RBuf, rn |-> m, rd |-> 1, rtp |-> u, comm |-> WORLD])
                    \/ Call("Alltoall", [sbuf |-> SBuf, sn |-> n, stp |-> t, rbuf |-> RBuf, rn |-> m, rtp |-> u, comm |-> WORLD])
                    \/ Call("Alltoallv", [sbuf |-> SBuf, sn |-> n, sd |-> 0, stp |-> t, rbuf |-> RBuf, rn |-> m, rd |-> 1, rtp |-> u, comm |-> WORLD])
                    \/ Call("Alltoallw", [sbuf |-> SBuf, sn |-> n, sd |-> 0, stp |-> t, rbuf |-> RBuf, rn |-> m, rd |-> 4, rtp |-> u, comm |-> WORLD])
                    \/ Call("Gather", [sbuf |-> SBuf, sn |-> n, stp |-> t, rbuf |-> RBuf, rn |-> m, rtp |-> u, root |-> 0, comm |-> WORLD])
                    \/ Call("Gatherv", [sbuf |-> SBuf, sn |-> n, stp |-> t, rbuf |-> RBuf, rn |-> m, rd |-> 1, rtp |-> u, root |-> 0, comm |-> WORLD])
                    \/ Call("Scatter", [sbuf |-> SBuf, sn |-> n, stp |-> t, rbuf |-> RBuf, rn |-> m, rtp |-> u, root |-> 0, comm |-> WORLD])
                    \/ Call("Scatterv", [sbuf |-> SBuf, sn |-> n, sd |-> 1, stp |-> t, rbuf |-> RBuf, rn |-> m, rtp |-> u, root |-> 0, comm |-> WORLD])
            \/ Call("Alltoall", [sbuf |-> SBuf, sn |-> 1, stp |-> 2, rbuf |-> RBuf, rn |-> 1, rtp |-> INTS, comm |-> WORLD])
            \/ Call("Allreduce", [sbuf |-> SBuf, rbuf |-> RBuf, n |-> 1, t |-> 2, oph |-> 0, comm |-> WORLD])
Next == Bounded /\ (Background \/ CASE Part = "null" -> NullCalls [] Part = "bad" -> BadCalls)
Spec == Init /\ [][Next]_vars
=============================================================================
