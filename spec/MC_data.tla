------------------------------ MODULE MC_data ------------------------------
(* Data movement: every pair of layouts and counts, through point to point  *)
(* (either side first), pack and unpack, and every collective.              *)
EXTENDS MpiSerial
CONSTANTS Part,      \* "p2p", "coll", "pack" or "twins"
          Ns, Nr,    \* counts on the sending and the receiving side
          MaxQ       \* messages (receives) pending at once
CfgVal == [fr |-> 4, fd |-> 8, tc |-> 0, hinfo |-> 0, conly |-> 0, bound |-> 262143, seed |-> 1, name |-> "mc"]
INTS == -3
Q(op, a) == Step(op, a, 0, 0)
PrefixVal == <<
  Step("TVector", [n |-> 2, bl |-> 1, s |-> 2, old |-> INTS], 2, 0), Q("TCommit", [t |-> 2]),
  Step("TIndexed", [bls |-> <<1, 2>>, ds |-> <<4, 1>>, old |-> INTS], 3, 0), Q("TCommit", [t |-> 3]),
  Step("THvector", [n |-> 2, bl |-> 1, s |-> -12, old |-> INTS], 4, 0), Q("TCommit", [t |-> 4]),
  Step("TStruct", [bls |-> <<1, 1, 1>>, ds |-> <<-8, 0, 20>>, olds |-> <<-14, 2, -15>>], 5, 0), Q("TCommit", [t |-> 5]),
  Step("TContiguous", [n |-> 0, old |-> INTS], 6, 0), Q("TCommit", [t |-> 6]),
  Step("TContiguous", [n |-> 1, old |-> INTS], 7, 0),           \* never committed
  \* as many elements as type 3 and the same bounds
  Step("TIndexedBlock", [bl |-> 1, ds |-> <<1, 4, 3>>, old |-> INTS], 8, 0), Q("TCommit", [t |-> 8]),
  \* types of addresses: one to send from, one to receive into
  Step("THindexed", [bls |-> <<2, 1>>, ds |-> <<ABSOLUTE + 15012, ABSOLUTE + 15000>>, old |-> INTS], 9, 0), Q("TCommit", [t |-> 9]),
  Step("TStruct", [bls |-> <<1, 1>>, ds |-> <<ABSOLUTE + 1025000, ABSOLUTE + 25000>>, olds |-> <<INTS, 2>>], 10, 0), Q("TCommit", [t |-> 10]),
  \* without gaps, the same first and last element: in order, and not
  Step("TContiguous", [n |-> 4, old |-> INTS], 11, 0), Q("TCommit", [t |-> 11]),
  Step("TIndexedBlock", [bl |-> 1, ds |-> <<0, 2, 1, 3>>, old |-> INTS], 12, 0), Q("TCommit", [t |-> 12])>>
Types == IF Part = "twins" THEN {11, 12} ELSE {INTS} \cup 2..6 \cup {8}
Sbuf == 10000 + 500 * Len(posts)
Rbuf == 20000 + 500 * Len(posts)
At(t, b) == IF t \in {9, 10} THEN 0 - ABSOLUTE ELSE b
SendA(op) == \E n \in Ns, t \in Types \cup {7, 9} : Call(op, [buf |-> At(t, Sbuf), n |-> n, t |-> t, dest |-> 0, tag |-> 3, comm |-> WORLD])
RecvA(op) == \E n \in Nr, t \in Types \cup {7, 10} : Call(op, [buf |-> At(t, Rbuf), n |-> n, t |-> t, src |-> ANY, tag |-> ANY, comm |-> WORLD, st |-> 9])
Busy == MaxQ > 1 \/ hist = <<>> \/ S.comms[WORLD].sq \o S.comms[WORLD].rq # <<>>     \* small runs: one pair at a time
P2P == \/ Busy /\ Len(S.comms[WORLD].sq) < MaxQ /\ (SendA("Isend") \/ SendA("Send"))
       \/ Busy /\ Len(S.comms[WORLD].rq) < MaxQ /\ (RecvA("Irecv") \/ RecvA("Recv"))
       \/ \E k \in Reqs : Call("Wait", [req |-> k, st |-> 9])
       \/ last.op \notin {"GetCount", "GetElements"} /\ \E i \in DOMAIN S.stn, t \in {INTS, 2, 3, 6} : \E op \in {"GetCount", "GetElements"} : Call(op, [st |-> i, t |-> t])
       \/ hist = <<>> /\ \E n \in Ns, m \in Nr, t, u \in Types \ {6} : Call("Sendrecv", [sbuf |-> Sbuf, sn |-> n, stp |-> t, dest |-> 0, stag |-> 3,
              rbuf |-> Rbuf, rn |-> m, rtp |-> u, src |-> 0, rtag |-> ANY, comm |-> WORLD, st |-> 9])
Roots == {0, ROOT, 1}
Bufs(s, r) == {<<s, r>>, <<INPLACE, r>>}
\* with MPI_IN_PLACE the count and type that go with it mean nothing
Wild == \E n \in {0, 5}, t \in {NULL, INTS, 2} :
       \/ Call("Allgather", [sbuf |-> INPLACE, sn |-> n, stp |-> t, rbuf |-> Rbuf, rn |-> 1, rtp |-> 3, comm |-> WORLD])
       \/ Call("Alltoall", [sbuf |-> INPLACE, sn |-> n, stp |-> t, rbuf |-> Rbuf, rn |-> 1, rtp |-> 3, comm |-> WORLD])
       \/ Call("Allgatherv", [sbuf |-> INPLACE, sn |-> n, stp |-> t, rbuf |-> Rbuf, rn |-> 1, rd |-> 2, rtp |-> 3, comm |-> WORLD])
       \/ Call("Alltoallv", [sbuf |-> INPLACE, sn |-> n, sd |-> 3, stp |-> t, rbuf |-> Rbuf, rn |-> 1, rd |-> 0, rtp |-> 3, comm |-> WORLD])
       \/ Call("Alltoallw", [sbuf |-> INPLACE, sn |-> n, sd |-> 3, stp |-> t, rbuf |-> Rbuf, rn |-> 1, rd |-> 0, rtp |-> 3, comm |-> WORLD])
       \/ Call("Gather", [sbuf |-> INPLACE, sn |-> n, stp |-> t, rbuf |-> Rbuf, rn |-> 1, rtp |-> 3, root |-> 0, comm |-> WORLD])
       \/ Call("Gatherv", [sbuf |-> INPLACE, sn |-> n, stp |-> t, rbuf |-> Rbuf, rn |-> 1, rd |-> 1, rtp |-> 3, root |-> 0, comm |-> WORLD])
       \/ Call("Scatter", [sbuf |-> Sbuf, sn |-> 1, stp |-> 3, rbuf |-> INPLACE, rn |-> n, rtp |-> t, root |-> 0, comm |-> WORLD])
       \/ Call("Scatterv", [sbuf |-> Sbuf, sn |-> 1, sd |-> 1, stp |-> 3, rbuf |-> INPLACE, rn |-> n, rtp |-> t, root |-> 0, comm |-> WORLD])
Coll ==
  \/ Call("Barrier", [comm |-> WORLD])
  \/ Wild
  \/ \E n \in 0..1, t \in Types, r \in Roots : Call("Bcast", [buf |-> Rbuf, n |-> n, t |-> t, root |-> r, comm |-> WORLD])
  \/ \E n \in Ns, m \in Nr, t, u \in Types, b \in Bufs(Sbuf, Rbuf) :
       \/ Call("Allgather", [sbuf |-> b[1], sn |-> n, stp |-> t, rbuf |-> b[2], rn |-> m, rtp |-> u, comm |-> WORLD])
       \/ Call("Alltoall", [sbuf |-> b[1], sn |-> n, stp |-> t, rbuf |-> b[2], rn |-> m, rtp |-> u, comm |-> WORLD])
       \/ \E d \in {0, 2} : Call("Allgatherv", [sbuf |-> b[1], sn |-> n, stp |-> t, rbuf |-> b[2], rn |-> m, rd |-> d, rtp |-> u, comm |-> WORLD])
       \/ \E d, e \in {0, 2} : Call("Alltoallv", [sbuf |-> b[1], sn |-> n, sd |-> e, stp |-> t, rbuf |-> b[2], rn |-> m, rd |-> d, rtp |-> u, comm |-> WORLD])
       \/ \E d, e \in {0, 12} : Call("Alltoallw", [sbuf |-> b[1], sn |-> n, sd |-> e, stp |-> t, rbuf |-> b[2], rn |-> m, rd |-> d, rtp |-> u, comm |-> WORLD])
       \/ \E r \in Roots : \/ Call("Gather", [sbuf |-> b[1], sn |-> n, stp |-> t, rbuf |-> b[2], rn |-> m, rtp |-> u, root |-> r, comm |-> WORLD])
                           \/ Call("Gatherv", [sbuf |-> b[1], sn |-> n, stp |-> t, rbuf |-> b[2], rn |-> m, rd |-> 1, rtp |-> u, root |-> r, comm |-> WORLD])
                           \/ Call("Scatter", [sbuf |-> b[2], sn |-> n, stp |-> t, rbuf |-> b[1], rn |-> m, rtp |-> u, root |-> r, comm |-> WORLD])
                           \/ Call("Scatterv", [sbuf |-> b[2], sn |-> n, sd |-> 1, stp |-> t, rbuf |-> b[1], rn |-> m, rtp |-> u, root |-> r, comm |-> WORLD])
  \/ \E n \in 0..2, t \in Types, b \in Bufs(Sbuf, Rbuf) :
       \/ Call("Allreduce", [sbuf |-> b[1], rbuf |-> b[2], n |-> n, t |-> t, oph |-> 0, comm |-> WORLD])
       \/ Call("Scan", [sbuf |-> b[1], rbuf |-> b[2], n |-> n, t |-> t, oph |-> 1, comm |-> WORLD])
       \/ Call("ReduceScatter", [sbuf |-> b[1], rbuf |-> b[2], n |-> n, t |-> t, oph |-> 2, comm |-> WORLD])
       \/ \E r \in {0, 1} : Call("Reduce", [sbuf |-> b[1], rbuf |-> b[2], n |-> n, t |-> t, oph |-> 0, root |-> r, comm |-> WORLD])
Packing ==
  \/ \E n \in 0..2, t \in Types \cup {9}, p \in {0, 3}, sl \in {-1, 0, 5} :
       LET nb == n * TypeOf(S, t).sz IN p + nb + sl >= 0 /\ Call("Pack", [buf |-> At(t, Sbuf), n |-> n, t |-> t, out |-> 30000, size |-> p + nb + sl, pos |-> p, comm |-> WORLD])
  \/ \E n \in 0..2, t \in Types \cup {10}, p \in {0, 3}, sl \in {-1, 0, 5} :
       LET nb == n * TypeOf(S, t).sz IN p + nb + sl >= 0 /\ Call("Unpack", [in |-> 30000, buf |-> At(t, Rbuf), n |-> n, t |-> t, size |-> p + nb + sl, pos |-> p, comm |-> WORLD])
  \/ \E n \in 0..3, t \in Types : Call("PackSize", [n |-> n, t |-> t, comm |-> WORLD])
Next == Bounded /\ CASE Part = "p2p" -> P2P [] Part = "coll" -> Coll [] Part = "pack" -> Packing
                              [] Part = "twins" -> P2P \/ (hist = <<>> /\ Coll)
Spec == Init /\ [][Next]_vars

\* completed requests are waited for and what was received is counted
RECURSIVE Waits(_, _)
Waits(T, K) == IF K = {} THEN <<>>
               ELSE LET k == SMin(K) IN <<Q("Wait", [req |-> k, st |-> 9])>> \o
                    (IF T.reqs[k].k = "r" THEN <<Q("GetCount", [st |-> 9, t |-> INTS]), Q("GetCount", [st |-> 9, t |-> 2]), Q("GetCount", [st |-> 9, t |-> 3]), Q("GetElements", [st |-> 9, t |-> 2])>> ELSE <<>>)
                    \o Waits(T, K \ {k})
EmitData == Printing => PrintT(<<"SCRIPT", last'.fatal, ToJson(Prefix \o hist' \o (IF S'.ph = "run" THEN Waits(S', {k \in DOMAIN S'.reqs : k > 0 /\ S'.reqs[k].done}) ELSE <<>>))>>)
=============================================================================
