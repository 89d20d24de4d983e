----------------------------- MODULE MpiSerial -----------------------------
(***************************************************************************)
(* The specification as a transition system: a program that makes any      *)
(* sequence of calls from a configuration's repertoire (Menu), and the     *)
(* properties C01..C25 as invariants and action properties of it.          *)
(*                                                                         *)
(* The properties are stated over what a program can observe (memory, the  *)
(* outputs of calls, the order of its own calls), not over the matching    *)
(* engine of module Library; the ghost variables posts, fmap and used      *)
(* record the program's own actions for that purpose.                      *)
(***************************************************************************)
EXTENDS Library, Json

CONSTANTS MaxLevel,       \* length of the call sequences
          Emitting,       \* print every transition as a script for the implementation
          Thin,           \* ... or one in so many of them, at random
          Cfg,            \* configuration record: fr, fd, tc, bound, ...
          StartPre,       \* start before MPI_Init rather than after it
          Prefix          \* calls made before the exploration starts: <<[op, a, h, g], ...>>

VARIABLES S,              \* state of the library and of the program's memory
          last,           \* the call just made and its result
          hist,           \* the calls made so far
          posts,          \* sends and receives in program order
          fmap            \* per datatype: its typemap as the standard defines it, with markers
vars == <<S, last, hist, posts, fmap>>

NoCall == [op |-> "none", a |-> [none |-> 0], x |-> NoFun, fatal |-> "no", w |-> {}, st |-> {}, un |-> {}, h |-> 0, g |-> 0, idx |-> 0, out |-> <<"none">>]

\* the state up to bookkeeping that cannot be observed
Core(T) == [T EXCEPT !.z = 0, !.reqs = [k \in DOMAIN @ |-> [@[k] EXCEPT !.no = 0]]]
\* (with the length of the behaviour: a state reached by a longer one first must not hide it from a shorter one)
View == <<Core(S), posts, fmap, Len(hist)>>

------------------------------------------------------------------------
\* Choices of the library: fresh handles, which completed request is reported
FreshMin(h0) == SMin({h \in h0..(h0 + 20) : FreshType(S, h)})
Fresh2 == {FreshMin(1)}
Perms(D) == {q \in [1..Cardinality(D) -> D] : \A i, j \in 1..Cardinality(D) : i # j => q[i] # q[j]}
Choices(op, a) ==
  CASE op \in {"Isend", "Irsend", "Irecv", "CommDup", "CommSplit", "CommCreate", "IntercommCreate", "IntercommMerge", "CartCreate", "TStruct"} \cup TypeOps
         -> {[h |-> h, g |-> 0, idx |-> 0] : h \in Fresh2}
    [] op \in {"Testany", "Waitany"}   -> {[h |-> 0, g |-> 0, idx |-> i - 1] : i \in IF Ready(S, a.reqs) = {} THEN {1} ELSE Ready(S, a.reqs)}
    [] op \in {"Testsome", "Waitsome"} ->
         {[h |-> 0, g |-> 0, idx |-> q] : q \in IF Cardinality(Ready(S, a.reqs)) > 3 THEN {<<>>} ELSE {[i \in DOMAIN p |-> p[i] - 1] : p \in Perms(Ready(S, a.reqs))}}
    [] op \in GroupOps \cup {"CommGroup"} -> {[h |-> 0, g |-> g, idx |-> 0] : g \in {EMPTY, 2}}
    [] OTHER -> {[h |-> 0, g |-> 0, idx |-> 0]}

------------------------------------------------------------------------
\* Ghosts
Post(k, c, tag, buf, n, t, seq) == [k |-> k, c |-> c, tag |-> tag, buf |-> buf, n |-> n, t |-> t, w |-> seq]
NewPosts(op, a) ==
  CASE op \in {"Isend", "Irsend"} \cup SendOps /\ a.dest # PROCNULL -> <<Post("s", a.comm, a.tag, a.buf, a.n, a.t, op)>>
    [] op \in {"Irecv", "Recv"} /\ a.src # PROCNULL -> <<Post("r", a.comm, a.tag, a.buf, a.n, a.t, op)>>
    [] op = "Sendrecv" -> (IF a.src = PROCNULL THEN <<>> ELSE <<Post("r", a.comm, a.rtag, a.rbuf, a.rn, a.rtp, op)>>)
                          \o (IF a.dest = PROCNULL THEN <<>> ELSE <<Post("s", a.comm, a.stag, a.sbuf, a.sn, a.stp, op)>>)
    [] OTHER -> <<>>

\* the standard's typemap: <<displacement, basic type>> in order, markers included
PredefMap(t) ==
  IF t \in {-14, -15} THEN <<<<0, t>>>>
  ELSE LET T == Predef(t, Cfg.fr, Cfg.fd) IN [i \in 1..T.ne |-> <<T.bm[T.eo[i] + 1], T.sg[i]>>]
FullMap(f, t) == IF t < 0 THEN PredefMap(t) ELSE f[t]
BSize(b) == BasicSize(b, Cfg.fr, Cfg.fd)
RECURSIVE SeqMin(_, _), SeqMax(_, _)
SeqMin(q, i) == IF i = 1 THEN q[1] ELSE Min2(q[i], SeqMin(q, i - 1))
SeqMax(q, i) == IF i = 1 THEN q[1] ELSE Max2(q[i], SeqMax(q, i - 1))
Sel(m, P(_)) == LET F[i \in 0..Len(m)] == IF i = 0 THEN <<>> ELSE IF P(m[i]) THEN Append(F[i - 1], m[i]) ELSE F[i - 1] IN F[Len(m)]
IsData(e) == e[2] \notin {-14, -15}
IsLB(e) == e[2] = -14
IsUB(e) == e[2] = -15
Data(m) == Sel(m, IsData)
Disps(m) == [i \in 1..Len(m) |-> m[i][1]]
Ends(m) == [i \in 1..Len(m) |-> m[i][1] + BSize(m[i][2])]
Sizes(m) == [i \in 1..Len(m) |-> BSize(m[i][2])]
DefLb(m) == LET L == Sel(m, IsLB) D == Data(m) IN
            IF L # <<>> THEN SeqMin(Disps(L), Len(L)) ELSE IF D = <<>> THEN 0 ELSE SeqMin(Disps(D), Len(D))
Padded(n, k) == k * ((n + k - 1) \div k)
DefUb(m) == LET U == Sel(m, IsUB) D == Data(m) L == Sel(m, IsLB) IN
            IF U # <<>> THEN SeqMax(Disps(U), Len(U))
            ELSE IF D = <<>> THEN (IF L = <<>> THEN 0 ELSE 0)
            ELSE LET e == SeqMax(Ends(D), Len(D)) IN
                 IF L # <<>> THEN e ELSE DefLb(m) + Padded(e - DefLb(m), SeqMax(Sizes(D), Len(D)))
DefExt(m) == DefUb(m) - DefLb(m)
Shift(m, d) == [i \in 1..Len(m) |-> <<m[i][1] + d, m[i][2]>>]
RECURSIVE Cat(_, _)
Cat(q, i) == IF i = 0 THEN <<>> ELSE Cat(q, i - 1) \o q[i]
Copies(m, n, d, e) == LET Q == [i \in 1..n |-> Shift(m, d + (i - 1) * e)] IN Cat(Q, n)
DefMap(f, op, a) ==
  IF op = "TStruct"
  THEN LET Q == [k \in 1..Len(a.bls) |-> Copies(FullMap(f, a.olds[k]), a.bls[k], a.ds[k], DefExt(FullMap(f, a.olds[k])))] IN Cat(Q, Len(Q))
  ELSE
  LET m == FullMap(f, a.old)
      e == DefExt(m)
      V(n, bl, s) == LET Q == [k \in 1..n |-> Copies(m, bl, (k - 1) * s, e)] IN Cat(Q, n)
      I(bls, ds, u) == LET Q == [k \in 1..Len(bls) |-> Copies(m, bls[k], ds[k] * u, e)] IN Cat(Q, Len(Q))
  IN CASE op = "TDup" -> m
       [] op = "TContiguous" -> Copies(m, a.n, 0, e)
       [] op = "TVector" -> V(a.n, a.bl, a.s * e)
       [] op \in {"THvector", "TCreateHvector"} -> V(a.n, a.bl, a.s)
       [] op = "TIndexed" -> I(a.bls, a.ds, e)
       [] op = "TIndexedBlock" -> I([k \in 1..Len(a.ds) |-> a.bl], a.ds, e)
       [] op = "THindexed" -> I(a.bls, a.ds, 1)

\* handles are reused: what is remembered of a communicator or a type that has gone gets a name of its own
Gone == 1000 + Len(hist)
Retired(ps, op, a) ==
  CASE op = "CommFree" -> [i \in DOMAIN ps |-> IF ps[i].c = a.comm THEN [ps[i] EXCEPT !.c = Gone] ELSE ps[i]]
    [] op = "TFree"    -> [i \in DOMAIN ps |-> IF ps[i].t = a.t THEN [ps[i] EXCEPT !.t = Gone] ELSE ps[i]]
    [] OTHER -> ps
Keeping(f, ps, op, a) == IF op = "TFree" /\ \E i \in DOMAIN ps : ps[i].t = a.t THEN Put(f, Gone, f[a.t]) ELSE f
FmapAfter(f, op, a, h) ==
  IF op \in TypeOps \cup {"TStruct"} THEN Put(f, h, DefMap(f, op, a))
  ELSE IF op = "TFree" THEN Drop(f, a.t) ELSE f

------------------------------------------------------------------------
\* One call
Step(op, a, h, g) == [op |-> op, a |-> a, h |-> h, g |-> g]
Call(op, a) ==
  \E ch \in Choices(op, a) :
    LET R == Do(S, op, "c", a, ch)
        dead == R.fatal = "must"
    IN /\ dead \/ R.ok
       /\ S' = IF dead THEN [S EXCEPT !.ph = "dead"] ELSE Store(R.S, R.w)
       /\ last' = [op |-> op, a |-> a, x |-> R.x, fatal |-> R.fatal, w |-> R.w, st |-> R.st, un |-> R.un, h |-> ch.h, g |-> ch.g, idx |-> ch.idx, out |-> R.out]
       /\ hist' = Append(hist, Step(op, a, ch.h, ch.g))
       /\ posts' = IF dead THEN posts ELSE Retired(posts, op, a) \o NewPosts(op, a)
       /\ fmap' = IF dead THEN fmap ELSE FmapAfter(Keeping(fmap, posts, op, a), op, a, ch.h)

RECURSIVE After(_, _, _), Maps(_, _, _), Posts(_, _)
After(T, q, i) ==
  IF i > Len(q) THEN T
  ELSE LET R == Do(T, q[i].op, "c", q[i].a, [h |-> q[i].h, g |-> q[i].g, idx |-> 0]) IN After(Store(R.S, R.w), q, i + 1)
Maps(f, q, i) == IF i > Len(q) THEN f ELSE Maps(FmapAfter(f, q[i].op, q[i].a, q[i].h), q, i + 1)
Posts(q, i) == IF i > Len(q) THEN <<>> ELSE NewPosts(q[i].op, q[i].a) \o Posts(q, i + 1)

Init ==
  /\ S = LET T == InitState(Cfg) IN
         IF StartPre THEN T ELSE After([T EXCEPT !.ph = "run", !.comms = Put(NoFun, WORLD, NewComm)], Prefix, 1)
  /\ last = NoCall /\ hist = <<>> /\ posts = Posts(Prefix, 1) /\ fmap = Maps(NoFun, Prefix, 1)

Running == S.ph \in {"pre", "run"}
Bounded == Running /\ Len(hist) < MaxLevel

\* printed for every transition explored: the script of a behaviour ending in it
Printing == Emitting /\ (Thin = 1 \/ RandomElement(1..Thin) = 1)
Emit == Printing => PrintT(<<"SCRIPT", last'.fatal, ToJson(Prefix \o hist')>>)

------------------------------------------------------------------------
\* The properties.  Names carry the identifiers of properties.jsonl.

Reqs == {k \in DOMAIN S.reqs : k > 0}
Alive == S.ph \in {"run", "fin"}
Sends == {i \in 1..Len(posts) : posts[i].k = "s"}
Recvs == {i \in 1..Len(posts) : posts[i].k = "r"}
\* addresses for such messages: bytes of different values, and receive buffers that hold none of these values at first
SAddr == [i \in 1..20 |-> CHOOSE m \in 0..250 : InitByte(m, 1) = i]
RAddr == [i \in 1..20 |-> CHOOSE m \in (251 * (20 + i))..(251 * (20 + i) + 250) : InitByte(m, 1) = 0]
\* every message of the p2p configurations is one distinguishable byte: what a receive has got is visible in its buffer
Got(j) == MemAt(S, posts[j].buf) # InitByte(posts[j].buf, S.cfg.seed)
From(j) == {i \in Sends : InitByte(posts[i].buf, S.cfg.seed) = MemAt(S, posts[j].buf)}
Delivered(i) == \E j \in Recvs : Got(j) /\ i \in From(j)
Wants(r, m) == r \in {ANY, m}
Fits(i, j) == posts[i].c = posts[j].c /\ Wants(posts[j].tag, posts[i].tag)

\* C01 each message to one receive, each receive one message, in order of sending and of posting
C01_Once == \A j \in Recvs : Got(j) => Cardinality(From(j)) = 1 /\ \A i \in From(j) : Fits(i, j)
C01_NoTwice == \A j, k \in Recvs : j # k /\ Got(j) /\ Got(k) => From(j) \cap From(k) = {}
C01_SendOrder == \A j \in Recvs : Got(j) => \A i \in From(j) : \A e \in Sends : e < i /\ Fits(e, j) => Delivered(e)
C01_RecvOrder == \A j \in Recvs : Got(j) => \A i \in From(j) : \A e \in Recvs : e < j /\ Fits(i, e) => Got(e)
C01_NoneMissed == \A i \in Sends : \A j \in Recvs : Fits(i, j) /\ posts[i].c \in DOMAIN S.comms => Delivered(i) \/ Got(j)
C01 == Alive => C01_Once /\ C01_NoTwice /\ C01_SendOrder /\ C01_RecvOrder /\ C01_NoneMissed /\ NoMissedMatch(S) /\ QueuesConsistent(S)

\* C02 the bytes that change are those of the receiver's layout, and they hold the sender's, element by element
Elem(D, e, buf, k) ==      \* address and basic type of element k (from 0) of consecutive items of extent e
  LET b == D[(k % Len(D)) + 1] IN <<buf + (k \div Len(D)) * e + b[1], b[2]>>
Moved(sm, sb, sn, dm, db, dn) ==
  LET sD == Data(sm) dD == Data(dm) sE == DefExt(sm) dE == DefExt(dm)
  IN UNION {LET s == Elem(sD, sE, sb, k) d == Elem(dD, dE, db, k) IN {<<d[1] + i, MemAt(S, s[1] + i)>> : i \in 0..(BSize(d[2]) - 1)}
              : k \in 0..(Min2(sn * Len(sD), dn * Len(dD)) - 1)}
Posted(k, b) == CHOOSE p \in {posts[j] : j \in 1..Len(posts)} : p.k = k /\ p.buf = b
C02_Recv ==              \* the message was there first
  (last'.op \in {"Recv", "Irecv"} /\ S'.ph = "run" /\ last'.a.src # PROCNULL) =>
    LET m == MsgFor(S, last'.a.comm, last'.a.tag) IN
    IF m = 0 THEN last'.w = {}
    ELSE LET P == Posted("s", S.reqs[S.comms[last'.a.comm].sq[m]].buf)
         IN last'.w = Moved(FullMap(fmap, P.t), P.buf, P.n, FullMap(fmap, last'.a.t), last'.a.buf, last'.a.n)
C02_Send ==              \* the receive was there first
  (last'.op \in {"Isend", "Irsend", "Send"} /\ S'.ph = "run" /\ last'.a.dest # PROCNULL) =>
    LET r == RecvFor(S, last'.a.comm, last'.a.tag) IN
    IF r = 0 THEN last'.w = {}
    ELSE LET P == Posted("r", S.reqs[S.comms[last'.a.comm].rq[r]].buf)
         IN last'.w = Moved(FullMap(fmap, last'.a.t), last'.a.buf, last'.a.n, FullMap(fmap, P.t), P.buf, P.n)
C02_Frame == \A m \in DOMAIN S'.mem : MemAt(S', m) # MemAt(S, m) => m \in {p[1] : p \in last'.w}
C02 == [][C02_Recv /\ C02_Send /\ C02_Frame]_vars

\* C03 statuses: the tag and length of the message that arrived
C03_Step ==
  \A s \in last'.st :
    /\ s[2] \in {0, ANY, PROCNULL}
    /\ s[2] # 0 => s[3] = ANY /\ S'.stn[s[1]] = 0
    /\ s[2] = 0 => s[3] \in {posts'[i].tag : i \in {i \in 1..Len(posts') : posts'[i].k = "s"}}
    /\ s[2] = PROCNULL => last'.op \in {"Recv", "Sendrecv", "Probe", "Iprobe", "Test", "Wait", "Testany", "Waitany", "Testall", "Waitall", "Testsome", "Waitsome"}
C03_Count ==
  (last'.op = "GetCount" /\ last'.x # NoFun) =>
    LET n == S.stn[last'.a.st] D == Len(Data(FullMap(fmap, last'.a.t))) v == last'.x.v IN
      IF v = UNDEF THEN D = 0 \/ n % D # 0 ELSE v * D = n
C03 == [][C03_Step /\ C03_Count]_vars

\* C04 completion is never early, never undone, releases once
Queued(T, k) == \E c \in DOMAIN T.comms : k \in {T.comms[c].sq[i] : i \in 1..Len(T.comms[c].sq)} \cup {T.comms[c].rq[i] : i \in 1..Len(T.comms[c].rq)}
C04_Inv == \A k \in Reqs : S.reqs[k].done => ~Queued(S, k)
CallsOn(l) == IF "req" \in DOMAIN l.a THEN {l.a.req} ELSE IF "reqs" \in DOMAIN l.a THEN {l.a.reqs[i] : i \in 1..Len(l.a.reqs)} ELSE {}
C04_Step ==
  S'.ph = "run" =>
    /\ \A k \in Reqs : k \in DOMAIN S'.reqs => (S.reqs[k].done => S'.reqs[k].done)
    /\ \A k \in Reqs : k \notin DOMAIN S'.reqs => k \in CallsOn(last') /\ (S.reqs[k].done \/ last'.op = "RequestFree")
    /\ (last'.op = "Test" /\ last'.x.flag = 0) => Core(S') = Core(S) /\ last'.a.req \in Reqs /\ ~S.reqs[last'.a.req].done
    /\ (last'.op = "Test" /\ last'.x.flag = 1) => last'.a.req = NULL \/ S.reqs[last'.a.req].done
    /\ last'.op \in {"Test", "Wait"} /\ last'.a.req = NULL => Core([S' EXCEPT !.stn = NoFun]) = Core([S EXCEPT !.stn = NoFun])
    \* a freed operation goes on: it is still in its queue
    /\ (last'.op = "RequestFree" /\ ~S.reqs[last'.a.req].done) =>
         \A c \in DOMAIN S.comms : Len(S'.comms[c].sq) = Len(S.comms[c].sq) /\ Len(S'.comms[c].rq) = Len(S.comms[c].rq)
C04 == [][C04_Step]_vars

\* C05
C05_Step ==
  S'.ph = "run" /\ last'.op \in {"Testany", "Waitany", "Testall", "Waitall", "Testsome", "Waitsome"} =>
    LET q == last'.a.reqs
        gone == {k \in Reqs : k \notin DOMAIN S'.reqs}
        fin == {q[i] : i \in 1..Len(q)} \cap {k \in Reqs : S.reqs[k].done}
        act == {q[i] : i \in 1..Len(q)} \ {NULL}
        x == last'.x
        nulls == {i \in 1..Len(q) : x.reqs[i] = NULL}
    IN /\ gone \subseteq fin
       /\ nulls = {i \in 1..Len(q) : q[i] = NULL \/ q[i] \in gone}
       /\ CASE last'.op \in {"Testany", "Waitany"} ->
                 IF act = {} THEN x.idx = UNDEF /\ gone = {} /\ (last'.op = "Testany" => x.flag = 1)
                 ELSE IF fin = {} THEN last'.op = "Testany" /\ x.flag = 0 /\ gone = {} ELSE gone = {q[last'.idx + 1]}
            [] last'.op \in {"Testall", "Waitall"} ->
                 IF fin = act THEN gone = act ELSE last'.op = "Testall" /\ gone = {} /\ x.flag = 0
            [] last'.op \in {"Testsome", "Waitsome"} ->
                 IF act = {} THEN x.oc = UNDEF ELSE gone = fin /\ x.oc = Cardinality(fin)
C05 == [][C05_Step]_vars

\* calls no correct program makes
Elements(t, n) == n * Len(Data(FullMap(fmap, t)))
BadRank(l) ==
  \/ l.op \in SendOps \cup {"Isend", "Irsend", "Sendrecv"} /\ l.a.dest \notin {0, PROCNULL}
  \/ l.op \in {"Recv", "Irecv", "Probe", "Iprobe", "Sendrecv"} /\ l.a.src \notin {0, ANY, PROCNULL}
  \/ l.op \in {"Bcast", "Gather", "Gatherv", "Scatter", "Scatterv"} /\ l.a.root \notin {0, ROOT}
BadAmount(l) ==      \* more asked for than sent
  /\ l.op \in {"Gather", "Gatherv", "Allgather", "Allgatherv", "Scatter", "Scatterv", "Alltoall", "Alltoallv", "Alltoallw"}
  /\ l.a.sbuf # INPLACE /\ l.a.rbuf # INPLACE /\ ("root" \in DOMAIN l.a => l.a.root = 0)
  /\ Elements(l.a.rtp, l.a.rn) > Elements(l.a.stp, l.a.sn)
BadGroup(l) ==
  \/ l.op \in {"GroupUnion", "GroupIntersection", "GroupDifference", "TranslateRanks"} /\ NULL \in {l.a.g1, l.a.g2}
  \/ l.op \in {"GroupIncl", "GroupRangeIncl"} /\ (l.a.g1 = NULL \/ l.a.n > 1 \/ (l.op = "GroupIncl" /\ l.a.n = 1 /\ l.a.ranks[1] # 0))
  \/ l.op = "TranslateRanks" /\ \E i \in 1..l.a.n : l.a.ranks[i] # 0
BadGrid(l) == \/ l.op = "CartCreate" /\ \E i \in 1..l.a.nd : l.a.dims[i] > 1
              \/ l.op = "DimsCreate" /\ l.a.nn > 1
              \/ l.op = "CartCoords" /\ l.a.rank # 0
Erroneous(l) == BadRank(l) \/ BadAmount(l) \/ BadGroup(l) \/ BadGrid(l)

\* C06 a blocking call returns exactly when what it needs is there
BlockOk(l) ==
  CASE l.op \in SendOps -> l.a.dest = PROCNULL \/ (l.a.dest = 0 /\ \E i \in 1..Len(S.comms[l.a.comm].rq) : Wants(S.reqs[S.comms[l.a.comm].rq[i]].tag, l.a.tag))
    [] l.op \in {"Recv", "Probe"} -> l.a.src = PROCNULL \/ (l.a.src \in {0, ANY} /\ \E i \in 1..Len(S.comms[l.a.comm].sq) : Wants(l.a.tag, S.reqs[S.comms[l.a.comm].sq[i]].tag))
    [] l.op = "Wait" -> l.a.req = NULL \/ S.reqs[l.a.req].done
    [] l.op = "Waitall" -> \A i \in 1..Len(l.a.reqs) : l.a.reqs[i] = NULL \/ S.reqs[l.a.reqs[i]].done
    [] l.op \in {"Waitany", "Waitsome"} -> (\A i \in 1..Len(l.a.reqs) : l.a.reqs[i] = NULL) \/ \E i \in 1..Len(l.a.reqs) : l.a.reqs[i] # NULL /\ S.reqs[l.a.reqs[i]].done
    [] OTHER -> TRUE
Uncommitted == \E t \in DOMAIN S.types : ~S.types[t].com
C06_Step ==
  /\ last'.op \in SendOps \cup {"Recv", "Probe", "Wait", "Waitall", "Waitany", "Waitsome"} => (S'.ph = "run" => BlockOk(last')) /\ (BlockOk(last') /\ ~Uncommitted => S'.ph = "run")
  /\ last'.op \in {"Test", "Testany", "Testall", "Testsome", "Iprobe", "Isend", "Irecv"} /\ ~Erroneous(last') /\ last'.fatal # "may" => (S'.ph = "run" \/ (last'.fatal = "must" /\ Uncommitted))
  /\ (last'.op = "Sendrecv" /\ S'.ph = "run") => DOMAIN S'.reqs \subseteq DOMAIN S.reqs
C06 == [][C06_Step]_vars

\* C07 a call on one communicator leaves the traffic of the others alone
OnComm(l) == IF "comm" \in DOMAIN l.a THEN {l.a.comm} ELSE IF l.op = "RequestFree" /\ l.a.req \in Reqs THEN {S.reqs[l.a.req].c} ELSE {}
C07_Step == S'.ph = "run" => \A c \in DOMAIN S.comms \ OnComm(last') :
              /\ c \in DOMAIN S'.comms /\ S'.comms[c] = S.comms[c]
              /\ \A k \in Reqs : S.reqs[k].c = c => k \in DOMAIN S'.reqs /\ S'.reqs[k] = S.reqs[k]
C07_New == \A c \in DOMAIN S'.comms \ DOMAIN S.comms : S'.comms[c].sq = <<>> /\ S'.comms[c].rq = <<>>
C07 == [][C07_Step /\ C07_New]_vars

\* C08 what a probe reports is what the receive would get; probing changes nothing
C08_Step ==
  (last'.op \in {"Probe", "Iprobe"} /\ S'.ph = "run") =>
    /\ Core([S' EXCEPT !.stn = NoFun]) = Core([S EXCEPT !.stn = NoFun])
    /\ LET q == S.comms[last'.a.comm].sq
           M == {i \in 1..Len(q) : Wants(last'.a.tag, S.reqs[q[i]].tag)}
       IN last'.a.src # PROCNULL =>
          /\ (last'.op = "Iprobe") => last'.x.flag = (IF M = {} THEN 0 ELSE 1)
          /\ (M # {} /\ last'.a.st >= 0) =>
               LET R == Do(S, "Recv", "c", [buf |-> 900, n |-> 1000, t |-> -12, src |-> last'.a.src, tag |-> last'.a.tag, comm |-> last'.a.comm, st |-> last'.a.st], [h |-> 0])
               IN R.fatal = "no" => R.st = last'.st /\ R.S.stn[last'.a.st] = S'.stn[last'.a.st]
C08 == [][C08_Step]_vars

\* C09
Null9(l) == ("dest" \in DOMAIN l.a /\ l.a.dest = PROCNULL /\ (l.op = "Sendrecv" => l.a.src = PROCNULL)) \/ ("src" \in DOMAIN l.a /\ l.op # "Sendrecv" /\ l.a.src = PROCNULL)
C09_Step == Null9(last') => S'.ph = "run" /\ S'.mem = S.mem /\ S'.comms = S.comms
              /\ (\A k \in DOMAIN S.reqs : S'.reqs[k] = S.reqs[k]) /\ (\A k \in DOMAIN S'.reqs \ DOMAIN S.reqs : S'.reqs[k].done)
              /\ \A s \in last'.st : s[2] = PROCNULL /\ s[3] = ANY /\ S'.stn[s[1]] = 0
C09 == [][C09_Step]_vars

\* C10
C10_Inv == HandlesDistinct(S) /\ (S.ph # "pre" => WORLD \in DOMAIN S.comms) /\ LiveCount(S) <= S.cfg.bound
C10_Step == S'.ph = "run" => \A h \in Live(S) \ Live(S') : h \in CallsOn(last') \cup (IF "comm" \in DOMAIN last'.a THEN {last'.a.comm} ELSE {}) \cup (IF "t" \in DOMAIN last'.a THEN {last'.a.t} ELSE {})
C10 == [][C10_Step]_vars

\* C11, C12 against the standard's definitions
C11_Inv == \A t \in DOMAIN S.types : ~S.types[t].big => TypemapOf(S.types[t]) = Data(fmap[t])
C12_Inv == \A t \in DOMAIN S.types :
   LET T == S.types[t] m == fmap[t] IN
     /\ T.sz = SumTo(Sizes(Data(m)), Len(Data(m))) /\ T.ne = Len(Data(m))
     /\ (Data(m) # <<>>) => Lb(T) = DefLb(m) /\ Ub(T) = DefUb(m) /\ Extent(T) = DefExt(m)
     /\ (m = <<>>) => Lb(T) = 0 /\ Ub(T) = 0 /\ Extent(T) = 0 /\ T.sz = 0

\* C13 a type means the same as long as it lives, whatever is freed
C13_Step == S'.ph = "run" =>
   /\ \A t \in DOMAIN S.types \cap DOMAIN S'.types : [S'.types[t] EXCEPT !.com = TRUE] = [S.types[t] EXCEPT !.com = TRUE] /\ (S.types[t].com => S'.types[t].com)
   /\ last'.op = "TFree" => last'.x.h = NULL /\ S'.reqs = S.reqs /\ S'.comms = S.comms /\ DOMAIN S'.types = DOMAIN S.types \ {last'.a.t}
   /\ last'.op = "TDup" => S'.types[last'.h] = TypeOf(S, last'.a.old)
C13_Commit == (last'.op \in {"Recv", "Send", "Allgather"} /\ S'.ph = "run" /\ last'.w # {}) =>
   \A t \in (IF "t" \in DOMAIN last'.a THEN {last'.a.t} ELSE {last'.a.stp, last'.a.rtp}) : TypeOf(S, t).com
C13 == [][C13_Step /\ C13_Commit]_vars

\* C14
C14_Step ==
  /\ last'.op = "Pack" => (S'.ph = "run" <=> (last'.a.n * TypeOf(S, last'.a.t).sz = 0 \/ last'.a.pos + last'.a.n * TypeOf(S, last'.a.t).sz <= last'.a.size))
  /\ (last'.op = "Pack" /\ S'.ph = "run") =>
       /\ last'.x.pos - last'.a.pos = Do(S, "PackSize", "c", [n |-> last'.a.n, t |-> last'.a.t, comm |-> WORLD], [h |-> 0]).x.v
       /\ {p[1] : p \in last'.w} = {last'.a.out + i : i \in last'.a.pos..(last'.x.pos - 1)}
       \* unpacking into a copy of the layout gives the data back
       /\ LET P == Store(S, last'.w)
              U == Do(P, "Unpack", "c", [in |-> last'.a.out, size |-> last'.a.size, pos |-> last'.a.pos, buf |-> 3000, n |-> last'.a.n, t |-> last'.a.t, comm |-> WORLD], [h |-> 0])
              m == FullMap(fmap, last'.a.t)
          IN {p[1] : p \in U.w} = {p[1] + 3000 - last'.a.buf : p \in Moved(m, last'.a.buf, last'.a.n, m, last'.a.buf, last'.a.n)}
             /\ \A p \in U.w : p[2] = MemAt(S, p[1] - 3000 + last'.a.buf)
C14 == [][C14_Step]_vars

\* C15, C16
C15_Step ==
  (last'.op \in CollOps /\ S'.ph = "run") =>
    /\ S'.comms = S.comms /\ S'.reqs = S.reqs
    /\ last'.op \in {"Barrier", "Bcast"} => last'.w = {}
    /\ (last'.op \in {"Gather", "Allgather", "Scatter", "Alltoall"} /\ last'.a.sbuf # INPLACE /\ last'.a.rbuf # INPLACE /\ ("root" \in DOMAIN last'.a => last'.a.root = 0)) =>
         last'.w = Moved(FullMap(fmap, last'.a.stp), last'.a.sbuf, last'.a.sn, FullMap(fmap, last'.a.rtp), last'.a.rbuf, last'.a.rn)
    \* displacements count extents of the type on that side, or bytes
    /\ (last'.op \in {"Gatherv", "Allgatherv", "Scatterv", "Alltoallv", "Alltoallw"} /\ last'.a.sbuf # INPLACE /\ last'.a.rbuf # INPLACE /\ ("root" \in DOMAIN last'.a => last'.a.root = 0)) =>
         LET sm == FullMap(fmap, last'.a.stp) rm == FullMap(fmap, last'.a.rtp)
             so == IF "sd" \in DOMAIN last'.a THEN last'.a.sd * (IF last'.op = "Alltoallw" THEN 1 ELSE DefExt(sm)) ELSE 0
             ro == IF "rd" \in DOMAIN last'.a THEN last'.a.rd * (IF last'.op = "Alltoallw" THEN 1 ELSE DefExt(rm)) ELSE 0
         IN last'.w = Moved(sm, last'.a.sbuf + so, last'.a.sn, rm, last'.a.rbuf + ro, last'.a.rn)
    /\ (last'.op \in {"Reduce", "Allreduce", "Scan", "ReduceScatter"} /\ last'.a.sbuf # INPLACE) =>
         last'.w = Moved(FullMap(fmap, last'.a.t), last'.a.sbuf, last'.a.n, FullMap(fmap, last'.a.t), last'.a.rbuf, last'.a.n)
  \* a correct call does return, whatever is pending
C15_Live ==
  (last'.op \in CollOps /\ ~Erroneous(last') /\ S'.ph = "dead") =>
     \/ "root" \in DOMAIN last'.a /\ last'.a.root \notin {0, ROOT}
     \/ last'.op = "Reduce" /\ last'.a.root # 0
     \/ \E t \in DOMAIN S.types : ~S.types[t].com
C15 == [][C15_Step /\ C15_Live]_vars
C16 == [][(last'.op \in CollOps /\ (("sbuf" \in DOMAIN last'.a /\ last'.a.sbuf = INPLACE) \/ ("rbuf" \in DOMAIN last'.a /\ last'.a.rbuf = INPLACE)) /\ ("root" \in DOMAIN last'.a => last'.a.root \in {0, ROOT}))
            => S'.ph = "run" /\ last'.w = {} /\ S'.mem = S.mem]_vars

\* C17 set algebra on {} and {0}
SetOf(g) == IF g = EMPTY THEN {} ELSE {0}
RanksOf(l) == IF l.op = "GroupIncl" THEN {l.a.ranks[i] : i \in 1..l.a.n}
              ELSE UNION {LET f == l.a.ranges[3 * i - 2] e == l.a.ranges[3 * i - 1] s == l.a.ranges[3 * i]
                          IN {r \in -50..50 : IF s = 0 THEN r = f ELSE (r - f) % (IF s < 0 THEN -s ELSE s) = 0 /\ (IF s > 0 THEN f <= r /\ r <= e ELSE e <= r /\ r <= f)} : i \in 1..l.a.n}
C17_Step ==
  /\ (last'.op = "GroupUnion" /\ S'.ph = "run") => SetOf(last'.g) = SetOf(last'.a.g1) \cup SetOf(last'.a.g2)
  /\ (last'.op = "GroupIntersection" /\ S'.ph = "run") => SetOf(last'.g) = SetOf(last'.a.g1) \cap SetOf(last'.a.g2)
  /\ (last'.op = "GroupDifference" /\ S'.ph = "run") => SetOf(last'.g) = SetOf(last'.a.g1) \ SetOf(last'.a.g2)
  \* the ranks selected, each of them a rank of the group
  /\ (last'.op \in {"GroupIncl", "GroupRangeIncl"} /\ S'.ph = "run") => SetOf(last'.g) = RanksOf(last') /\ RanksOf(last') \subseteq SetOf(last'.a.g1)
  \* rank r of one group is the process that has the translated rank in the other
  /\ (last'.op = "TranslateRanks" /\ S'.ph = "run") =>
        \A i \in 1..last'.a.n : last'.x.ranks[i] = (IF 0 \in SetOf(last'.a.g1) \cap SetOf(last'.a.g2) THEN 0 ELSE UNDEF)
  \* only an erroneous call ends the program
  /\ (last'.op \in GroupOps /\ S'.ph = "dead") =>
        \/ NULL \in {last'.a.g1} \cup (IF "g2" \in DOMAIN last'.a THEN {last'.a.g2} ELSE {})
        \/ last'.op = "TranslateRanks" /\ ~({last'.a.ranks[i] : i \in 1..last'.a.n} \subseteq SetOf(last'.a.g1))
        \/ last'.op \in {"GroupIncl", "GroupRangeIncl"} /\ (last'.a.n > Cardinality(SetOf(last'.a.g1)) \/ ~(RanksOf(last') \subseteq SetOf(last'.a.g1)))
  /\ (last'.op \in GroupOps \ {"GroupFree"} /\ NULL \in {last'.a.g1} \cup (IF "g2" \in DOMAIN last'.a THEN {last'.a.g2} ELSE {})) => S'.ph = "dead"
  /\ last'.op \in GroupOps /\ S'.ph = "run" => Core(S') = Core(S)
C17 == [][C17_Step]_vars

\* C18
C18_Step ==
  S'.ph = "run" =>
    /\ last'.op \in {"CommDup", "IntercommMerge", "CartCreate"} => DOMAIN S'.comms = DOMAIN S.comms \cup {last'.h} /\ last'.h \notin DOMAIN S.comms
    /\ last'.op = "CommSplit" => (last'.a.color = UNDEF <=> DOMAIN S'.comms = DOMAIN S.comms)
    /\ last'.op = "CommCreate" => (last'.a.g \in {NULL, EMPTY} <=> DOMAIN S'.comms = DOMAIN S.comms)
    /\ last'.op = "IntercommCreate" => (last'.a.lc = NULL /\ last'.a.pc = NULL <=> DOMAIN S'.comms = DOMAIN S.comms)
    /\ last'.op \in {"CommSplit", "CommCreate", "IntercommCreate"} =>
         \/ DOMAIN S'.comms = DOMAIN S.comms /\ last'.x.h = NULL
         \/ DOMAIN S'.comms = DOMAIN S.comms \cup {last'.h} /\ last'.h \notin DOMAIN S.comms
    /\ last'.op = "CommSize" => last'.x.v = 1
    /\ last'.op = "CommRank" => last'.x.v = 0
    /\ last'.op \notin {"CommDup", "IntercommMerge", "CartCreate", "CommSplit", "CommCreate", "IntercommCreate", "CommFree", "Init"} => DOMAIN S'.comms = DOMAIN S.comms
    /\ last'.op = "CommFree" => DOMAIN S'.comms = DOMAIN S.comms \ {last'.a.comm} /\
         (last'.out[1] = "none" <=> (S.comms[last'.a.comm].sq = <<>> /\ S.comms[last'.a.comm].rq = <<>>))
C18 == [][C18_Step]_vars

\* C20
C20_Step ==
  /\ (last'.op = "Initialized") => (last'.x.flag = 1 <=> S.ph = "run")
  /\ (last'.op = "Init") => (S'.ph = "run" <=> S.ph = "pre")
  /\ (last'.op = "Finalize") => S'.ph = "fin"
C20 == [][C20_Step]_vars

\* C22 a fatal call has no effect, and no erroneous call returns
C22 == [][(S'.ph = "dead" => [S' EXCEPT !.ph = S.ph] = S) /\ (Erroneous(last') => S'.ph = "dead")]_vars

\* C23
\* the call that made the communicator (its last one before call k), or made what it is a duplicate of
RECURSIVE MadeBefore(_, _)
MadeBefore(c, k) ==
  LET i == SMax({i \in 1..(k - 1) : hist[i].h = c}) IN
  IF hist[i].op = "CommDup" /\ hist[i].a.comm # WORLD THEN MadeBefore(hist[i].a.comm, i) ELSE hist[i]
MadeWith(c) == MadeBefore(c, Len(hist) + 1).a
C23_Step ==
  /\ last'.op = "CartCreate" => (S'.ph = "run" <=> \A i \in 1..last'.a.nd : last'.a.dims[i] <= 1)
  /\ (last'.op = "CartGet" /\ S'.ph = "run") => /\ \A i \in 1..last'.a.max : last'.x.dims[i] = 1 /\ last'.x.coords[i] = 0
                                                /\ Len(last'.x.dims) = last'.a.max /\ Len(last'.x.per) = last'.a.max
                                                /\ \A i \in 1..Min2(last'.a.max, S.comms[last'.a.comm].nd) : last'.x.per[i] = MadeWith(last'.a.comm).per[i]
  /\ (last'.op = "CartCoords") => (S'.ph = "run" <=> last'.a.rank = 0)
  /\ (last'.op = "CartCoords" /\ S'.ph = "run") => last'.x.coords = [i \in 1..last'.a.max |-> 0]
  /\ (last'.op = "DimsCreate") => (S'.ph = "run" <=> last'.a.nn <= 1)
  /\ (last'.op = "DimsCreate" /\ S'.ph = "run") => last'.x.dims = [i \in 1..last'.a.nd |-> 1]
C23 == [][C23_Step]_vars

\* C24 only freeing a communicator with pending operations says anything
C24 == [][last'.out[1] # "none" => last'.op = "CommFree"]_vars

\* C25 when everything made has been completed or freed, the library holds nothing
Idle(T) == {k \in DOMAIN T.reqs : k > 0} = {} /\ DOMAIN T.types = {} /\ DOMAIN T.comms = {WORLD} /\ \A c \in DOMAIN T.comms : T.comms[c].sq \o T.comms[c].rq = <<>>
C25_Inv == /\ Idle(S) => LiveCount(S) = 1
           /\ \A k \in DOMAIN S.reqs : k < 0 => Queued(S, k)       \* freed: only while it is pending
=============================================================================
