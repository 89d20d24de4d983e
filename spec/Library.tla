------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* mpi-serial as a state machine: the state S of the library and of the    *)
(* calling program's memory, and for every documented routine the effect   *)
(* of one call.                                                            *)
(*                                                                         *)
(*   Do(S, op, b, a, ch)                                                   *)
(*     op  routine      b  binding, "c" or "f"      a  arguments           *)
(*     ch  choices the library is free to make (handle values, which       *)
(*         completed request an "any" call takes, ...)                     *)
(*   yields a record                                                       *)
(*     S      state afterwards                                             *)
(*     x      outputs the call must produce (name -> value)                *)
(*     ok     the choices in ch are allowed ones                           *)
(*     fatal  "no" | "must" | "may": the call has to / may end the program *)
(*     w      bytes stored to the caller's memory: {<<address, value>>}    *)
(*     may    addresses that may have been stored to by a fatal call       *)
(*     st     statuses that must be filled: {<<slot, source, tag>>}        *)
(*     un     status slots that must not be touched                        *)
(*     out    <<"none">>: the call is silent, <<"free">>: it may print,    *)
(*            <<"warn", ns, nr>>: it reports ns pending sends, nr receives *)
(*                                                                         *)
(* Both the model-checked specification (MpiSerial) and the validation of  *)
(* recorded executions (Trace) are built from this one operator.           *)
(***************************************************************************)
EXTENDS Layout

ANY == -1        \* MPI_ANY_SOURCE, MPI_ANY_TAG
PROCNULL == -2   \* MPI_PROC_NULL
ROOT == -3       \* MPI_ROOT
UNDEF == -1      \* MPI_UNDEFINED
INPLACE == -1    \* MPI_IN_PLACE as a buffer argument
NULL == 0        \* every null handle
WORLD == 1       \* MPI_COMM_WORLD
EMPTY == -1      \* MPI_GROUP_EMPTY
NOCOUNT == -99   \* length in a status whose contents are unspecified
ABSOLUTE == 500000000

------------------------------------------------------------------------
\* State
NoFun == [k \in {} |-> 0]
InitState(cfg) ==
  [ph |-> "pre", comms |-> NoFun, reqs |-> NoFun, types |-> NoFun, mem |-> NoFun, stn |-> NoFun,
   cfg |-> cfg, bulk |-> NoFun, marks |-> NoFun, z |-> 1]

NewComm == [sq |-> <<>>, rq |-> <<>>, nd |-> 0, per |-> <<>>]

Restrict(f, K) == [k \in K |-> f[k]]
Drop(f, k) == Restrict(f, DOMAIN f \ {k})
Put(f, k, v) == (k :> v) @@ f

\* memory never written holds the driver's fill pattern
InitByte(m, seed) ==
  LET k == (m + 500000) \div 1000000
      r == m - k * 1000000
  IN (r * 167 + (r \div 251) * 59 + (k + 7) * 31 + seed) % 251
MemAt(S, m) == IF m \in DOMAIN S.mem THEN S.mem[m] ELSE InitByte(m, S.cfg.seed)
\* the stores that are visible
Visible(S, w) == {p \in w : MemAt(S, p[1]) # p[2]}
Store(S, w) ==
  IF w = {} THEN S
  ELSE LET W == {p[1] : p \in w}
           N == [m \in W |-> (CHOOSE p \in w : p[1] = m)[2]]
       IN [S EXCEPT !.mem = [m \in DOMAIN @ \cup W |-> IF m \in W THEN N[m] ELSE @[m]]]

TypeOf(S, t) == IF t > 0 THEN S.types[t] ELSE Predef(t, S.cfg.fr, S.cfg.fd)

InRuns(rs, h) == \E i \in 1..Len(rs) : rs[i][1] <= h /\ h <= rs[i][2]
RunCount(rs) == SumTo([i \in 1..Len(rs) |-> rs[i][2] - rs[i][1] + 1], Len(rs))
RECURSIVE SumSet(_, _)
SumSet(f, K) == IF K = {} THEN 0 ELSE LET k == CHOOSE k \in K : TRUE IN f[k] + SumSet(f, K \ {k})
BulkCount(S) == SumSet([k \in DOMAIN S.bulk |-> RunCount(S.bulk[k])], DOMAIN S.bulk)

\* handles the program holds; keys < 0 of reqs are operations whose handle was freed
Live(S) == DOMAIN S.comms \cup {k \in DOMAIN S.reqs : k > 0} \cup DOMAIN S.types
LiveCount(S) == Cardinality(DOMAIN S.comms) + Cardinality(DOMAIN S.reqs) + Cardinality(DOMAIN S.types) + BulkCount(S)
Fresh(S, h) == h # NULL /\ h \notin Live(S) /\ \A k \in DOMAIN S.bulk : ~InRuns(S.bulk[k], h)
FreshType(S, h) == Fresh(S, h) /\ h \notin PredefNums

------------------------------------------------------------------------
\* Results
Base(S) == [S |-> S, x |-> NoFun, ok |-> TRUE, fatal |-> "no", w |-> {}, may |-> {}, st |-> {}, un |-> {}, out |-> <<"none">>]
Quiet(S) == Base(S)
Outs(S, x) == [Base(S) EXCEPT !.x = x]
Fatal(S) == [Base(S) EXCEPT !.fatal = "must"]
FatalMay(S, A) == [Base(S) EXCEPT !.fatal = "must", !.may = A]
Maybe(R) == [R EXCEPT !.fatal = "may"]

\* fill status slot s (s < 0: MPI_STATUS_IGNORE)
Status(R, s, src, tag, n) ==
  IF s < 0 THEN R ELSE [R EXCEPT !.st = @ \cup {<<s, src, tag>>}, !.S.stn = Put(@, s, n)]
StatusAny(R, s) == IF s < 0 THEN R ELSE [R EXCEPT !.S.stn = Put(@, s, NOCOUNT)]
\* a completed request (or the null request) reported in slot s
ReqStatus(R, s, r) == IF r.k = "s" THEN StatusAny(R, s) ELSE Status(R, s, r.src, r.tag, r.n)
NullReq == [k |-> "n", src |-> ANY, tag |-> ANY, n |-> 0]

------------------------------------------------------------------------
\* Moving data

\* elements delivered by a message; bytes written; why it cannot be
Deliver(S, sbuf, sn, sT, dbuf, dn, dT) ==
  LET n  == Min2(Prod(sn, sT.ne), Prod(dn, dT.ne))
      nb == BytesIn(dT, n)
  IN [n |-> n,
      w |-> {<<dbuf + ByteAt(dT, i), MemAt(S, sbuf + ByteAt(sT, i))>> : i \in 0..(nb - 1)},
      bad |-> IF ~(sT.com /\ dT.com) THEN (IF n > 0 THEN "must" ELSE "may")
              ELSE IF S.cfg.tc = 1 /\ \E i \in 0..(n - 1) : ElemType(sT, i) # ElemType(dT, i) THEN "must" ELSE "no"]
Addrs(buf, n, T) == IF T.big THEN {} ELSE {buf + ByteAt(T, i) : i \in 0..(n * T.sz - 1)}

RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Accepts(rtag, mtag) == rtag = ANY \/ rtag = mtag

\* the oldest pending receive of communicator c that accepts tag; 0 if none
RecvFor(S, c, tag) ==
  LET q == S.comms[c].rq  M == {i \in 1..Len(q) : Accepts(S.reqs[q[i]].tag, tag)} IN IF M = {} THEN 0 ELSE SMin(M)
\* the oldest pending message of communicator c that tag accepts; 0 if none
MsgFor(S, c, tag) ==
  LET q == S.comms[c].sq  M == {i \in 1..Len(q) : Accepts(tag, S.reqs[q[i]].tag)} IN IF M = {} THEN 0 ELSE SMin(M)

Pending(k, c, buf, cnt, ty, tag, no) ==
  [k |-> k, done |-> FALSE, zomb |-> FALSE, src |-> 0, tag |-> tag, n |-> 0, c |-> c, buf |-> buf, cnt |-> cnt, ty |-> ty, no |-> no]
Done(k, src, tag, n) ==
  [k |-> k, done |-> TRUE, zomb |-> FALSE, src |-> src, tag |-> tag, n |-> n, c |-> 0, buf |-> 0, cnt |-> 0, ty |-> 0, no |-> 0]

\* start a send / a receive under key; a step of the matching engine
\*   [S, w, hit, fatal]
SendCore(S, key, buf, cnt, T, tag, c) ==
  LET i == RecvFor(S, c, tag) IN
  IF i = 0
  THEN [S |-> [S EXCEPT !.reqs = Put(@, key, Pending("s", c, buf, cnt, T, tag, S.z)),
                        !.comms[c].sq = Append(@, key), !.z = @ + 1],
        w |-> {}, hit |-> FALSE, fatal |-> IF T.com THEN "no" ELSE "may"]
  ELSE LET rk == S.comms[c].rq[i]
           r  == S.reqs[rk]
           D  == Deliver(S, buf, cnt, T, r.buf, r.cnt, r.ty)
           rq == IF r.zomb THEN Drop(S.reqs, rk) ELSE [S.reqs EXCEPT ![rk] = Done("r", 0, tag, D.n)]
       IN [S |-> [S EXCEPT !.reqs = Put(rq, key, Done("s", 0, tag, 0)), !.comms[c].rq = RemoveAt(@, i)],
           w |-> D.w, hit |-> TRUE, fatal |-> D.bad]

RecvCore(S, key, buf, cnt, T, tag, c) ==
  LET i == MsgFor(S, c, tag) IN
  IF i = 0
  THEN [S |-> [S EXCEPT !.reqs = Put(@, key, Pending("r", c, buf, cnt, T, tag, S.z)),
                        !.comms[c].rq = Append(@, key), !.z = @ + 1],
        w |-> {}, hit |-> FALSE, fatal |-> IF T.com THEN "no" ELSE "may"]
  ELSE LET sk == S.comms[c].sq[i]
           s  == S.reqs[sk]
           D  == Deliver(S, s.buf, s.cnt, s.ty, buf, cnt, T)
           rq == IF s.zomb THEN Drop(S.reqs, sk) ELSE [S.reqs EXCEPT ![sk] = Done("s", 0, s.tag, 0)]
       IN [S |-> [S EXCEPT !.reqs = Put(rq, key, Done("r", 0, s.tag, D.n)), !.comms[c].sq = RemoveAt(@, i)],
           w |-> D.w, hit |-> TRUE, fatal |-> D.bad]

ValidDest(d) == d \in {0, PROCNULL}
ValidSrc(s) == s \in {0, ANY, PROCNULL}
\* result of an engine step E whose outputs and later bookkeeping are given by R
Engine(S, E, R) ==
  IF E.fatal = "must" THEN FatalMay(S, {})
  ELSE [R EXCEPT !.w = E.w, !.fatal = IF E.fatal = "may" THEN "may" ELSE @]

Hidden(S) == -S.z

------------------------------------------------------------------------
\* Point to point
DoSend(S, a) ==                                  \* Send, Ssend, Rsend
  IF ~ValidDest(a.dest) THEN Fatal(S)
  ELSE IF a.dest = PROCNULL THEN Quiet(S)
  ELSE LET k == Hidden(S)
           E == SendCore(S, k, a.buf, a.n, TypeOf(S, a.t), a.tag, a.comm)
       IN IF ~E.hit THEN Fatal(S)                \* nobody else could ever receive it
          ELSE Engine(S, E, Quiet([E.S EXCEPT !.reqs = Drop(@, k)]))

DoIsend(S, a, h, ready) ==
  IF ~ValidDest(a.dest) THEN Fatal(S)
  ELSE IF a.dest = PROCNULL
  THEN [Quiet([S EXCEPT !.reqs = Put(@, h, Done("s", 0, a.tag, 0))]) EXCEPT !.ok = Fresh(S, h)]
  ELSE LET E == SendCore(S, h, a.buf, a.n, TypeOf(S, a.t), a.tag, a.comm)
       IN IF ready /\ ~E.hit THEN Fatal(S)
          ELSE Engine(S, E, [Quiet(E.S) EXCEPT !.ok = Fresh(S, h)])

DoIrecv(S, a, h) ==
  IF ~ValidSrc(a.src) THEN Fatal(S)
  ELSE IF a.src = PROCNULL
  THEN [Quiet([S EXCEPT !.reqs = Put(@, h, Done("r", PROCNULL, ANY, 0))]) EXCEPT !.ok = Fresh(S, h)]
  ELSE LET E == RecvCore(S, h, a.buf, a.n, TypeOf(S, a.t), a.tag, a.comm)
       IN Engine(S, E, [Quiet(E.S) EXCEPT !.ok = Fresh(S, h)])

DoRecv(S, a) ==
  IF ~ValidSrc(a.src) THEN Fatal(S)
  ELSE IF a.src = PROCNULL THEN Status(Quiet(S), a.st, PROCNULL, ANY, 0)
  ELSE LET k == Hidden(S)
           E == RecvCore(S, k, a.buf, a.n, TypeOf(S, a.t), a.tag, a.comm)
       IN IF ~E.hit THEN Fatal(S)
          ELSE Engine(S, E, ReqStatus(Quiet([E.S EXCEPT !.reqs = Drop(@, k)]), a.st, E.S.reqs[k]))

\* the receive is posted, the message sent, then both have to be complete
DoSendrecv(S, a) ==
  IF ~ValidSrc(a.src) THEN Fatal(S)
  ELSE
  LET rk  == Hidden(S)
      E1  == RecvCore(S, rk, a.rbuf, a.rn, TypeOf(S, a.rtp), a.rtag, a.comm)
      R1  == IF a.src = PROCNULL THEN [S |-> [S EXCEPT !.reqs = Put(@, rk, Done("r", PROCNULL, ANY, 0))], w |-> {}, hit |-> TRUE, fatal |-> "no"] ELSE E1
      S1  == [Store(R1.S, R1.w) EXCEPT !.z = @ + 1]
      sk  == Hidden(S1)
      R2  == IF a.dest = PROCNULL THEN [S |-> S1, w |-> {}, hit |-> TRUE, fatal |-> "no"]
             ELSE SendCore(S1, sk, a.sbuf, a.sn, TypeOf(S1, a.stp), a.stag, a.comm)
      A   == {p[1] : p \in R1.w \cup R2.w}
      bad == {R1.fatal, R2.fatal}
  IN IF ~ValidDest(a.dest) THEN FatalMay(S, {p[1] : p \in R1.w})    \* the receive may be under way
     ELSE IF "must" \in bad \/ ~R2.hit \/ ~R2.S.reqs[rk].done THEN FatalMay(S, A)
     ELSE LET S3 == [R2.S EXCEPT !.reqs = Restrict(@, DOMAIN @ \ {rk, sk}), !.mem = S.mem]
              w2 == {p[1] : p \in R2.w}
          IN ReqStatus([Quiet(S3) EXCEPT !.w = {p \in R1.w : p[1] \notin w2} \cup R2.w,
                                         !.fatal = IF "may" \in bad THEN "may" ELSE "no"], a.st, R2.S.reqs[rk])

DoProbe(S, a, blocking) ==
  IF ~ValidSrc(a.src) THEN Fatal(S)
  ELSE LET i == MsgFor(S, a.comm, a.tag)
           flag(v) == IF blocking THEN Quiet(S) ELSE Outs(S, "flag" :> v)
       IN IF a.src = PROCNULL THEN Status(flag(1), a.st, PROCNULL, ANY, 0)
          ELSE IF i = 0 THEN (IF blocking THEN Fatal(S) ELSE StatusAny(flag(0), a.st))
          ELSE LET s == S.reqs[S.comms[a.comm].sq[i]] IN Status(flag(1), a.st, 0, s.tag, s.cnt * s.ty.ne)

------------------------------------------------------------------------
\* Completion
IsDone(S, h) == h = NULL \/ S.reqs[h].done
ReqRec(S, h) == IF h = NULL THEN NullReq ELSE S.reqs[h]
Release(S, H) == [S EXCEPT !.reqs = Restrict(@, DOMAIN @ \ H)]

DoTest(S, a, blocking) ==
  LET flag(v) == IF blocking THEN NoFun ELSE "flag" :> v
  IN IF ~IsDone(S, a.req)
     THEN IF blocking THEN Fatal(S)
          ELSE [Outs(S, flag(0) @@ ("req" :> a.req)) EXCEPT !.un = IF a.st < 0 THEN {} ELSE {a.st}]
     ELSE ReqStatus(Outs(Release(S, {a.req}), flag(1) @@ ("req" :> NULL)), a.st, ReqRec(S, a.req))

DoRequestFree(S, a) ==
  LET r == S.reqs[a.req]
      \* still queued: the operation stays, nobody can refer to it any more
      swap(q) == [i \in 1..Len(q) |-> IF q[i] = a.req THEN Hidden(S) ELSE q[i]]
      S2 == IF r.done \/ r.c \notin DOMAIN S.comms THEN Release(S, {a.req})
            ELSE [S EXCEPT !.reqs = Put(Drop(@, a.req), Hidden(S), [r EXCEPT !.zomb = TRUE]),
                           !.comms[r.c].sq = swap(@), !.comms[r.c].rq = swap(@), !.z = @ + 1]
  IN Outs(S2, "req" :> NULL)

Active(q) == {i \in 1..Len(q) : q[i] # NULL}
Ready(S, q) == {i \in Active(q) : S.reqs[q[i]].done}
Nulled(q, I) == [i \in 1..Len(q) |-> IF i \in I THEN NULL ELSE q[i]]
FIdx(b, i) == IF b = "f" THEN i ELSE i - 1      \* index as the binding counts

DoAny(S, b, a, ch, blocking) ==
  LET q == a.reqs
      flag(v) == IF blocking THEN NoFun ELSE "flag" :> v
      P == {i \in Ready(S, q) : FIdx(b, i) = ch.idx}
  IN IF Active(q) = {}
     THEN Status(Outs(S, flag(1) @@ ("idx" :> UNDEF) @@ ("reqs" :> q)), a.st, ANY, ANY, 0)
     ELSE IF Ready(S, q) = {}
     THEN IF blocking THEN Fatal(S) ELSE Outs(S, flag(0) @@ ("reqs" :> q))
     ELSE IF P = {} THEN [Outs(S, "idx" :> FIdx(b, CHOOSE i \in Ready(S, q) : TRUE)) EXCEPT !.ok = FALSE]
     ELSE LET i == CHOOSE i \in P : TRUE
          IN ReqStatus(Outs(Release(S, {q[i]}), flag(1) @@ ("idx" :> ch.idx) @@ ("reqs" :> Nulled(q, {i}))), a.st, S.reqs[q[i]])

RECURSIVE Statuses(_, _, _, _, _)
Statuses(R, S, base, q, k) ==                    \* request q[k], q[k+1], ... into slots base, base+1, ...
  IF k > Len(q) \/ base < 0 THEN R ELSE Statuses(ReqStatus(R, base, ReqRec(S, q[k])), S, base + 1, q, k + 1)

DoAll(S, a, blocking) ==
  LET q == a.reqs
      flag(v) == IF blocking THEN NoFun ELSE "flag" :> v
  IN IF Ready(S, q) # Active(q)
     THEN IF blocking THEN Fatal(S)
          ELSE [Outs(S, flag(0) @@ ("reqs" :> q)) EXCEPT !.un = IF a.sts < 0 THEN {} ELSE {a.sts + i - 1 : i \in 1..Len(q)}]
     ELSE Statuses(Outs(Release(S, {q[i] : i \in Active(q)}), flag(1) @@ ("reqs" :> Nulled(q, Active(q)))), S, a.sts, q, 1)

DoSome(S, b, a, ch, blocking) ==
  LET q == a.reqs
      D == Ready(S, q)
      pos(v) == IF b = "f" THEN v ELSE v + 1
      perm == [i \in 1..Len(ch.idx) |-> pos(ch.idx[i])]
  IN IF Active(q) = {} THEN Outs(S, ("oc" :> UNDEF) @@ ("reqs" :> q))
     ELSE IF D = {} THEN (IF blocking THEN Fatal(S) ELSE Outs(S, ("oc" :> 0) @@ ("reqs" :> q)))
     ELSE IF Len(perm) # Cardinality(D) \/ {perm[i] : i \in 1..Len(perm)} # D
     THEN [Outs(S, ("oc" :> Cardinality(D)) @@ ("reqs" :> Nulled(q, D))) EXCEPT !.ok = FALSE]
     ELSE Statuses(Outs(Release(S, {q[i] : i \in D}), ("oc" :> Cardinality(D)) @@ ("reqs" :> Nulled(q, D))),
                   S, a.sts, [i \in 1..Len(perm) |-> q[perm[i]]], 1)

DoGetCount(S, a) ==
  LET n == IF a.st \in DOMAIN S.stn THEN S.stn[a.st] ELSE NOCOUNT
      T == TypeOf(S, a.t)
  IN IF n = NOCOUNT THEN Quiet(S)
     ELSE Outs(S, "v" :> (IF n = 0 THEN 0 ELSE IF T.ne = 0 \/ n % T.ne # 0 THEN UNDEF ELSE n \div T.ne))
DoGetElements(S, a) ==
  LET n == IF a.st \in DOMAIN S.stn THEN S.stn[a.st] ELSE NOCOUNT
  IN IF n = NOCOUNT THEN Quiet(S) ELSE Outs(S, "v" :> n)

------------------------------------------------------------------------
\* Datatypes
NewType(S, h, T) == [Quiet([S EXCEPT !.types = Put(@, h, T)]) EXCEPT !.ok = FreshType(S, h)]

TypeMake(S, op, a) ==
  LET T == TypeOf(S, a.old) IN
  CASE op = "TContiguous"    -> MkContiguous(a.n, T)
    [] op = "TVector"        -> MkVector(a.n, a.bl, a.s, T)
    [] op = "THvector"       -> MkHvector(a.n, a.bl, a.s, T)
    [] op = "TCreateHvector" -> MkHvector(a.n, a.bl, a.s, T)
    [] op = "TIndexed"       -> MkIndexed(a.bls, a.ds, T)
    [] op = "TIndexedBlock"  -> MkIndexedBlock(a.bl, a.ds, T)
    [] op = "THindexed"      -> MkHindexed(a.bls, a.ds, T)
    [] op = "TDup"           -> MkDup(T)
TypeOps == {"TContiguous", "TVector", "THvector", "TCreateHvector", "TIndexed", "TIndexedBlock", "THindexed", "TDup"}

DoType(S, op, a, ch) ==
  CASE op \in TypeOps   -> NewType(S, ch.h, TypeMake(S, op, a))
    [] op = "TStruct"   -> NewType(S, ch.h, MkStruct(a.bls, a.ds, [i \in 1..Len(a.olds) |-> TypeOf(S, a.olds[i])]))
    [] op = "TSize"     -> Outs(S, "v" :> TypeOf(S, a.t).sz)
    [] op = "TExtent"   -> Outs(S, "v" :> Extent(TypeOf(S, a.t)))
    [] op = "TLb"       -> Outs(S, "v" :> Lb(TypeOf(S, a.t)))
    [] op = "TUb"       -> Outs(S, "v" :> Ub(TypeOf(S, a.t)))
    [] op = "TCommit"   -> Outs(IF a.t < 0 THEN S ELSE [S EXCEPT !.types[a.t].com = TRUE], "h" :> a.t)
    [] op = "TFree"     -> Outs([S EXCEPT !.types = Drop(@, a.t)], "h" :> NULL)

------------------------------------------------------------------------
\* Pack
DoPack(S, op, a) ==
  LET T  == TypeOf(S, a.t)
      nb == Prod(a.n, T.sz)
      over == nb > a.size - a.pos /\ nb > 0
      unc(R) == IF T.com THEN R ELSE Maybe(R)
  IN CASE op = "Pack" ->
            IF over THEN FatalMay(S, {a.out + i : i \in a.pos..(a.size - 1)})
            ELSE unc([Outs(S, "pos" :> a.pos + nb) EXCEPT
                      !.w = {<<a.out + a.pos + i, MemAt(S, a.buf + ByteAt(T, i))>> : i \in 0..(nb - 1)}])
       [] op = "Unpack" ->
            IF over THEN FatalMay(S, {a.buf + ByteAt(T, i) : i \in 0..(Min2(nb, a.size - a.pos) - 1)})
            ELSE unc([Outs(S, "pos" :> a.pos + nb) EXCEPT
                      !.w = {<<a.buf + ByteAt(T, i), MemAt(S, a.in + a.pos + i)>> : i \in 0..(nb - 1)}])
       [] op = "PackSize" -> Outs(S, ("v" :> nb) @@ ("m" :> ((a.n % 32749) * (T.sz % 32749)) % 32749))

------------------------------------------------------------------------
\* Collectives (one process: its contribution is the whole result)
Copy(S, sbuf, sn, sT, rbuf, rn, rT) ==
  IF Prod(sn, sT.ne) < Prod(rn, rT.ne) THEN Fatal(S)          \* would receive more than is sent
  ELSE LET D == Deliver(S, sbuf, sn, sT, rbuf, rn, rT)
       IN IF D.bad = "must" THEN Fatal(S)
          ELSE [Quiet(S) EXCEPT !.w = D.w, !.fatal = D.bad]

Rooted == {"Bcast", "Gather", "Gatherv", "Scatter", "Scatterv", "Reduce"}
DoColl(S, op, a) ==
  IF op \in Rooted /\ a.root = ROOT /\ op # "Reduce" THEN Quiet(S)
  ELSE IF op \in Rooted /\ a.root # 0 THEN Fatal(S)
  ELSE IF op \in {"Barrier", "Bcast"} THEN Quiet(S)
  ELSE IF op \in {"Scatter", "Scatterv"} /\ a.rbuf = INPLACE THEN Quiet(S)
  ELSE IF op \notin {"Scatter", "Scatterv"} /\ a.sbuf = INPLACE THEN Quiet(S)
  ELSE IF op \in {"Reduce", "Allreduce", "ReduceScatter", "Scan"}
  THEN Copy(S, a.sbuf, a.n, TypeOf(S, a.t), a.rbuf, a.n, TypeOf(S, a.t))
  ELSE LET sT == TypeOf(S, a.stp)  rT == TypeOf(S, a.rtp)
           sd == IF op \in {"Scatterv", "Alltoallv"} THEN a.sd * Extent(sT) ELSE IF op = "Alltoallw" THEN a.sd ELSE 0
           rd == IF op \in {"Gatherv", "Allgatherv", "Alltoallv"} THEN a.rd * Extent(rT) ELSE IF op = "Alltoallw" THEN a.rd ELSE 0
       IN Copy(S, a.sbuf + sd, a.sn, sT, a.rbuf + rd, a.rn, rT)

------------------------------------------------------------------------
\* Communicators, topologies
MakeComm(S, h, C) == [Quiet([S EXCEPT !.comms = Put(@, h, C)]) EXCEPT !.ok = Fresh(S, h)]
NoComm(S) == Outs(S, "h" :> NULL)
PadTo(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN (IF q[i] = 0 THEN 0 ELSE 1) ELSE 0]

DoComm(S, op, a, ch) ==
  CASE op = "CommDup"   -> MakeComm(S, ch.h, [NewComm EXCEPT !.nd = S.comms[a.comm].nd, !.per = S.comms[a.comm].per])  \* the grid is duplicated too
    [] op = "CommSplit" -> IF a.color = UNDEF THEN NoComm(S) ELSE MakeComm(S, ch.h, NewComm)
    [] op = "CommCreate" -> IF a.g \in {NULL, EMPTY} THEN NoComm(S) ELSE MakeComm(S, ch.h, NewComm)
    [] op = "IntercommCreate" -> IF a.lc = NULL /\ a.pc = NULL THEN NoComm(S) ELSE MakeComm(S, ch.h, NewComm)
    [] op = "IntercommMerge" -> MakeComm(S, ch.h, NewComm)
    [] op = "CartCreate" ->
         IF \E i \in 1..a.nd : a.dims[i] > 1 THEN Fatal(S)
         ELSE MakeComm(S, ch.h, [NewComm EXCEPT !.nd = a.nd, !.per = SubSeq(a.per, 1, a.nd)])
    [] op = "CommFree" ->
         LET c == S.comms[a.comm]
             gone == {k \in DOMAIN S.reqs : S.reqs[k].zomb /\ S.reqs[k].c = a.comm}
             S2 == [S EXCEPT !.comms = Drop(@, a.comm),
                             !.reqs = [k \in DOMAIN @ \ gone |-> IF ~@[k].done /\ @[k].c = a.comm THEN [@[k] EXCEPT !.c = 0] ELSE @[k]]]
         IN [Outs(S2, "h" :> NULL) EXCEPT !.out = IF Len(c.sq) + Len(c.rq) = 0 THEN <<"none">> ELSE <<"warn", Len(c.sq), Len(c.rq)>>]
    [] op = "CommSize"  -> Outs(S, "v" :> 1)
    [] op = "CommRank"  -> Outs(S, "v" :> 0)
    [] op = "CommGroup" -> [Quiet(S) EXCEPT !.ok = ch.g \notin {NULL, EMPTY}]
    [] op = "CartGet"   -> Outs(S, ("dims" :> Rep(a.max, 1)) @@ ("per" :> PadTo(S.comms[a.comm].per, a.max)) @@ ("coords" :> Rep(a.max, 0)))
    [] op = "CartCoords" -> IF a.rank # 0 THEN Fatal(S) ELSE Outs(S, "coords" :> Rep(a.max, 0))
    [] op = "DimsCreate" -> IF a.nn > 1 THEN Fatal(S) ELSE Outs(S, "dims" :> Rep(a.nd, 1))

------------------------------------------------------------------------
\* Groups: subsets of {0}
Members(g) == IF g = EMPTY THEN {} ELSE {0}
GroupIs(S, ch, M) == [Quiet(S) EXCEPT !.ok = ch.g # NULL /\ ((ch.g = EMPTY) <=> (M = {}))]
\* ranks of a (first, last, stride) triplet
RangeRanks(f, l, s) == IF s = 0 THEN {f} ELSE {f + k * s : k \in 0..(IF (l - f) \div s < 0 THEN -1 ELSE (l - f) \div s)}

DoGroup(S, op, a, ch) ==
  IF op # "GroupFree" /\ (a.g1 = NULL \/ ("g2" \in DOMAIN a /\ a.g2 = NULL)) THEN Fatal(S)
  ELSE
  CASE op = "GroupUnion"        -> GroupIs(S, ch, Members(a.g1) \cup Members(a.g2))
    [] op = "GroupIntersection" -> GroupIs(S, ch, Members(a.g1) \cap Members(a.g2))
    [] op = "GroupDifference"   -> GroupIs(S, ch, Members(a.g1) \ Members(a.g2))
    [] op = "GroupIncl" ->
         IF a.n = 0 THEN GroupIs(S, ch, {})
         ELSE IF a.n = 1 /\ a.ranks[1] \in Members(a.g1) THEN GroupIs(S, ch, {0}) ELSE Fatal(S)
    [] op = "GroupRangeIncl" ->
         IF a.n = 0 THEN GroupIs(S, ch, {})
         ELSE IF a.n = 1 /\ RangeRanks(a.ranges[1], a.ranges[2], a.ranges[3]) \subseteq Members(a.g1)
         THEN GroupIs(S, ch, RangeRanks(a.ranges[1], a.ranges[2], a.ranges[3])) ELSE Fatal(S)
    [] op = "TranslateRanks" ->
         IF \E i \in 1..a.n : a.ranks[i] \notin Members(a.g1) THEN Fatal(S)
         ELSE Outs(S, "ranks" :> [i \in 1..a.n |-> IF a.ranks[i] \in Members(a.g2) THEN 0 ELSE UNDEF])
    [] op = "GroupFree" -> Outs(S, "g" :> NULL)

------------------------------------------------------------------------
\* Life cycle and utilities
DoInit(S, b, a) ==
  IF S.ph # "pre" THEN Fatal(S)
  ELSE IF b = "f" /\ S.cfg.conly = 1 THEN Fatal(S)      \* mpif.h was configured for other sizes than the compiler's
  ELSE LET S2 == [S EXCEPT !.ph = "run", !.comms = Put(@, WORLD, NewComm)]
       IN IF a.thread = 1 THEN Outs(S2, "prov" :> a.req) ELSE Quiet(S2)

StringOk(b, lib, o) ==                 \* text, its length and its termination
  /\ o.len > 0 /\ o.len < o.mx /\ o.body = 1
  /\ IF b = "f" THEN o.blank = 1 \/ (~lib /\ o.nul = o.len) ELSE o.nul = o.len

DoUtil(S, op, b, a, ch) ==
  CASE op = "Init"        -> DoInit(S, b, a)
    [] op = "Initialized" -> Outs(S, "flag" :> (IF S.ph = "run" THEN 1 ELSE 0))
    [] op = "Finalize"    -> Quiet([S EXCEPT !.ph = "fin"])
    [] op = "Poke"        -> [Quiet(S) EXCEPT !.w = {<<a.at + i - 1, a.v[i]>> : i \in 1..Len(a.v)}]
    [] op = "Peek"        -> Outs(S, "v" :> [i \in 1..a.n |-> MemAt(S, a.at + i - 1)])
    [] op = "Address"     -> Outs(S, "v" :> a.at + ABSOLUTE)
    [] op = "GetVersion"  -> Outs(S, ("v" :> 1) @@ ("w" :> 0))
    [] op \in {"ErrorString", "ProcName"} -> [Quiet(S) EXCEPT !.ok = StringOk(b, FALSE, ch.o)]
    [] op = "LibVersion"  -> [Quiet(S) EXCEPT !.ok = StringOk(b, TRUE, ch.o)]
    [] op = "Wtime"       -> [Quiet(S) EXCEPT !.ok = ch.o.d0 = 0 /\ ch.o.lo - 2 <= ch.o.d /\ ch.o.d <= ch.o.hi + 2]
    [] op = "Conv"        -> Outs(S, ("f" :> a.h) @@ ("h" :> a.h))
    [] op \in {"OpCreate", "InfoCreate"} -> Outs(S, "h" :> 1)
    [] op \in {"OpFree", "InfoSet", "ErrhandlerSet", "Host"} -> Quiet(S)
    [] op = "InfoFree"    -> Outs(S, "h" :> NULL)
    [] op = "Consts"      -> [Quiet(S) EXCEPT !.ok = \A i \in 1..Len(ch.o.cs) : ch.o.cs[i][2] = ch.o.cs[i][3] /\ ch.o.cs[i][3] = ch.o.cs[i][4]]
    [] op = "LangSizes"   ->
         [Quiet(S) EXCEPT !.ok =
            /\ \A i \in 1..Len(ch.o.sz) :
                 LET t == ch.o.sz[i][1] T == TypeOf(S, t)
                 IN (S.cfg.conly = 1 /\ t \in -25..-16) \/ (Extent(T) = ch.o.sz[i][2] /\ T.sz = ch.o.sz[i][2])
            /\ \A i \in 1..Len(ch.o.pr) :
                 LET T == TypeOf(S, ch.o.pr[i][1]) IN T.bm[T.eo[2] + 1] = ch.o.pr[i][2] /\ Extent(T) = ch.o.pr[i][3]]
    [] op = "MemMark"     ->
         IF a.rel = 0 THEN Quiet([S EXCEPT !.marks = Put(@, a.id, <<ch.o.u, ch.o.n>>)])
         ELSE Outs(S, ("u" :> S.marks[a.rel][1]) @@ ("n" :> S.marks[a.rel][2]))
    [] op = "Cycle"       ->
         IF LiveCount(S) + 4 > S.cfg.bound THEN Fatal(S) ELSE [Outs(S, "bad" :> 0) EXCEPT !.out = IF S.cfg.hinfo = 1 THEN <<"free">> ELSE <<"none">>]
    [] op = "BulkOpen"    ->
         IF LiveCount(S) + a.n > S.cfg.bound THEN Fatal(S)
         ELSE [Outs([S EXCEPT !.bulk = Put(@, a.id, ch.o.runs)], ("bad" :> 0) @@ ("dup" :> 0)) EXCEPT
                 !.ok = RunCount(ch.o.runs) = a.n /\ \A h \in Live(S) : ~InRuns(ch.o.runs, h)
                        /\ \A k \in DOMAIN S.bulk : \A i \in 1..Len(S.bulk[k]) : \A j \in 1..Len(ch.o.runs) :
                              S.bulk[k][i][2] < ch.o.runs[j][1] \/ ch.o.runs[j][2] < S.bulk[k][i][1]]
    [] op = "BulkClose"   -> Outs([S EXCEPT !.bulk = Put(@, a.id, ch.o.left)], "bad" :> 0)

\* Large transfers, from a region of their own to another: the log holds, for every granule
\* of g bytes of the destination from address lo on, where in the source its content was (-1: unchanged).
BigColl == {"Allgather", "Allgatherv", "Gather", "Gatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv", "Alltoallw",
            "Reduce", "Allreduce", "ReduceScatter", "Scan"}
DoBigMove(S, a, ch) ==
  LET sT == TypeOf(S, a.t)  dT == TypeOf(S, a.u)  o == ch.o
      pack == a.how = "Pack"
      n  == Min2(a.n * sT.ne, a.m * dT.ne)                           \* elements that move
      nb == IF pack THEN a.m * dT.sz ELSE IF a.m * dT.ne <= a.n * sT.ne THEN a.m * dT.sz
            ELSE a.n * sT.sz                                          \* element sizes agree in these scripts
      g  == a.g
  IN IF a.how \in BigColl /\ a.n * sT.ne < a.m * dT.ne THEN Fatal(S)
     ELSE [Outs(S, ("bad" :> 0) @@ ("cnt" :> (IF a.how \in BigColl \cup {"Pack"} THEN 0 ELSE IF n = 0 THEN 0 ELSE IF n % dT.ne # 0 THEN UNDEF ELSE n \div dT.ne))
                      @@ ("el" :> (IF a.how \in BigColl THEN 0 ELSE IF pack THEN a.n * sT.sz ELSE n)) @@ ("moved" :> nb \div g)) EXCEPT
           !.ok = /\ nb % g = 0
                  /\ \A i \in 0..(nb \div g - 1) :
                       LET k == (ByteAt(dT, i * g) - o.lo) \div g + 1 IN k \in 1..Len(o.map) /\ o.map[k] = ByteAt(sT, i * g)]

------------------------------------------------------------------------
SendOps == {"Send", "Ssend", "Rsend"}
CompOps == {"Test", "Wait", "RequestFree", "Testany", "Waitany", "Testall", "Waitall", "Testsome", "Waitsome", "GetCount", "GetElements"}
DtOps == TypeOps \cup {"TStruct", "TSize", "TExtent", "TLb", "TUb", "TCommit", "TFree"}
PackOps == {"Pack", "Unpack", "PackSize"}
CollOps == {"Barrier", "Bcast", "Gather", "Gatherv", "Allgather", "Allgatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv",
            "Alltoallw", "Reduce", "Allreduce", "ReduceScatter", "Scan"}
CommOps == {"CommDup", "CommSplit", "CommCreate", "CommFree", "CommSize", "CommRank", "CommGroup", "IntercommCreate",
            "IntercommMerge", "CartCreate", "CartGet", "CartCoords", "DimsCreate"}
GroupOps == {"GroupUnion", "GroupIntersection", "GroupDifference", "GroupIncl", "GroupRangeIncl", "TranslateRanks", "GroupFree"}

Do(S, op, b, a, ch) ==
  CASE op \in SendOps      -> DoSend(S, a)
    [] op = "BigMove"      -> DoBigMove(S, a, ch)
    [] op = "Isend"        -> DoIsend(S, a, ch.h, FALSE)
    [] op = "Irsend"       -> DoIsend(S, a, ch.h, TRUE)
    [] op = "Irecv"        -> DoIrecv(S, a, ch.h)
    [] op = "Recv"         -> DoRecv(S, a)
    [] op = "Sendrecv"     -> DoSendrecv(S, a)
    [] op = "Probe"        -> DoProbe(S, a, TRUE)
    [] op = "Iprobe"       -> DoProbe(S, a, FALSE)
    [] op = "Test"         -> DoTest(S, a, FALSE)
    [] op = "Wait"         -> DoTest(S, a, TRUE)
    [] op = "RequestFree"  -> DoRequestFree(S, a)
    [] op = "Testany"      -> DoAny(S, b, a, ch, FALSE)
    [] op = "Waitany"      -> DoAny(S, b, a, ch, TRUE)
    [] op = "Testall"      -> DoAll(S, a, FALSE)
    [] op = "Waitall"      -> DoAll(S, a, TRUE)
    [] op = "Testsome"     -> DoSome(S, b, a, ch, FALSE)
    [] op = "Waitsome"     -> DoSome(S, b, a, ch, TRUE)
    [] op = "GetCount"     -> DoGetCount(S, a)
    [] op = "GetElements"  -> DoGetElements(S, a)
    [] op \in DtOps        -> DoType(S, op, a, ch)
    [] op \in PackOps      -> DoPack(S, op, a)
    [] op \in CollOps      -> DoColl(S, op, a)
    [] op \in CommOps      -> DoComm(S, op, a, ch)
    [] op \in GroupOps     -> DoGroup(S, op, a, ch)
    [] OTHER               -> DoUtil(S, op, b, a, ch)

------------------------------------------------------------------------
\* What must hold of every reachable state
NoMissedMatch(S) ==            \* a pending message and a receive that accept each other never coexist
  \A c \in DOMAIN S.comms : \A i \in 1..Len(S.comms[c].sq) : \A j \in 1..Len(S.comms[c].rq) :
     ~Accepts(S.reqs[S.comms[c].rq[j]].tag, S.reqs[S.comms[c].sq[i]].tag)
QueuesConsistent(S) ==         \* the queues hold exactly the incomplete operations, each once, oldest first
  /\ \A c \in DOMAIN S.comms :
       /\ \A q \in {S.comms[c].sq, S.comms[c].rq} : \A i \in 1..Len(q) :
            /\ q[i] \in DOMAIN S.reqs /\ ~S.reqs[q[i]].done /\ S.reqs[q[i]].c = c
            /\ \A j \in (i + 1)..Len(q) : S.reqs[q[i]].no < S.reqs[q[j]].no
       /\ \A i \in 1..Len(S.comms[c].sq) : S.reqs[S.comms[c].sq[i]].k = "s"
       /\ \A i \in 1..Len(S.comms[c].rq) : S.reqs[S.comms[c].rq[i]].k = "r"
  /\ \A k \in DOMAIN S.reqs : ~S.reqs[k].done /\ S.reqs[k].c \in DOMAIN S.comms =>
       Cardinality({i \in 1..Len(S.comms[S.reqs[k].c].sq) : S.comms[S.reqs[k].c].sq[i] = k})
       + Cardinality({i \in 1..Len(S.comms[S.reqs[k].c].rq) : S.comms[S.reqs[k].c].rq[i] = k}) = 1
HandlesDistinct(S) ==
  /\ NULL \notin DOMAIN S.comms \cup DOMAIN S.reqs \cup DOMAIN S.types
  /\ DOMAIN S.comms \cap DOMAIN S.reqs = {} /\ DOMAIN S.comms \cap DOMAIN S.types = {} /\ DOMAIN S.reqs \cap DOMAIN S.types = {}
  /\ \A k \in DOMAIN S.reqs : k < 0 => S.reqs[k].zomb /\ ~S.reqs[k].done
TypesSane(S) ==
  \A t \in DOMAIN S.types : LET T == S.types[t] IN
     ~T.big => /\ Len(T.bm) = T.sz /\ Len(T.sg) = T.ne /\ Len(T.eo) = T.ne
               /\ Extent(T) = ExtentDef(T) /\ Ub(T) - Lb(T) = Extent(T)
               /\ (~T.ol /\ ~T.ou) => (Extent(T) % T.mx = 0 /\ \A i \in 1..T.sz : Lb(T) <= T.bm[i] /\ T.bm[i] < Ub(T))
StateOk(S) == NoMissedMatch(S) /\ QueuesConsistent(S) /\ HandlesDistinct(S) /\ TypesSane(S)
\* the part of it that routine op could break
StepOk(S, op) == IF op \in TypeOps \cup {"TStruct"} THEN HandlesDistinct(S) /\ TypesSane(S)
                 ELSE IF op \in PackOps \cup CollOps \cup GroupOps \cup DtOps THEN TRUE
                 ELSE NoMissedMatch(S) /\ QueuesConsistent(S) /\ HandlesDistinct(S)
=============================================================================
