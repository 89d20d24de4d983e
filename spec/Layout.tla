------------------------------ MODULE Layout ------------------------------
(***************************************************************************)
(* The algebra of datatypes: typemaps, bounds and extents.                 *)
(*                                                                         *)
(* A datatype is a record                                                  *)
(*   ne   number of basic elements      sz   number of bytes (their sum)   *)
(*   lb,ub  bounds                      ol,ou  bound set by a marker       *)
(*   nlb,nub  bounds the layout alone would give                           *)
(*   ex   extent                        mx   size of the largest element   *)
(*   com  committed                                                        *)
(*   mark "" | "lb" | "ub"              big  layout not tabulated          *)
(*   bm   displacement of each byte, in typemap order; of a big type: how  *)
(*        it was made (see BigAt)                                          *)
(*   sg   basic type of each element    eo   byte at which each starts     *)
(*                                                                         *)
(* Addresses and displacements are model integers: k*10^6 + r stands for   *)
(* the real displacement k*2^33 + r, an absolute address has 5*10^8 added  *)
(* (MPI_BOTTOM subtracts it again).  Sums and multiples by small factors   *)
(* commute with that mapping, alignments up to 64 divide both units.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxTab == 8192                       \* layouts up to this many bytes are tabulated

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

\* balanced minimum / maximum of f over i..j (i <= j)
RECURSIVE MinOver(_, _, _), MaxOver(_, _, _)
MinOver(f, i, j) == IF i = j THEN f[i] ELSE LET m == (i + j) \div 2 IN Min2(MinOver(f, i, m), MinOver(f, m + 1, j))
MaxOver(f, i, j) == IF i = j THEN f[i] ELSE LET m == (i + j) \div 2 IN Max2(MaxOver(f, i, m), MaxOver(f, m + 1, j))

\* product of counts, as far as TLC's integers go
MaxInt == 2147483646
Prod(a, b) == IF a <= 0 \/ b <= 0 THEN 0 ELSE IF a > MaxInt \div b THEN MaxInt ELSE a * b

RoundUp(n, m) == IF n % m = 0 THEN n ELSE n + (m - (n % m))

\* the extent of a layout, from its bounds, is kept in the field ex
ExtentDef(T) == IF T.ol \/ T.ou THEN T.ub - T.lb ELSE RoundUp(T.ub - T.lb, T.mx)
WithExtent(T) == [ex |-> ExtentDef(T)] @@ T
Extent(T) == T.ex
Lb(T) == T.lb
Ub(T) == T.lb + Extent(T)            \* the upper bound includes the padding

\* displacement of byte i (from 0) of a run of consecutive items of type T
RECURSIVE ByteAt(_, _), BigAt(_, _), BlockOf(_, _, _, _)
ByteAt(T, i) == (IF T.big THEN BigAt(T.bm, i % T.sz) ELSE T.bm[(i % T.sz) + 1]) + (i \div T.sz) * Extent(T)
\* the same for a big type: byte i (from 0) of one item, from the construction m of the type
BigAt(m, i) ==
  IF m.how = "strided"
  THEN LET per == m.bl * m.t.sz IN (i \div per) * m.s + ByteAt(m.t, i % per)
  ELSE LET k == BlockOf(m.o, i, 1, Len(m.bl)) IN m.d[k] + ByteAt(m.t[k], i - m.o[k])
\* the block among x..y in which byte i lies, block k starting at byte o[k]
BlockOf(o, i, x, y) == IF x = y THEN x ELSE LET h == (x + y + 1) \div 2 IN IF o[h] <= i THEN BlockOf(o, i, h, y) ELSE BlockOf(o, i, x, h - 1)
\* element e (from 0) of one item: the byte of the packed form it starts at, its basic type
RECURSIVE EoAt(_, _), SgAt(_, _), ElemBlock(_, _, _)
ElemBlock(m, e, k) == IF e < m.bl[k] * m.t[k].ne THEN <<k, e>> ELSE ElemBlock(m, e - m.bl[k] * m.t[k].ne, k + 1)
EoAt(T, e) ==
  IF ~T.big THEN T.eo[e + 1]
  ELSE LET m == T.bm IN
       IF m.how = "strided" THEN (e \div m.t.ne) * m.t.sz + EoAt(m.t, e % m.t.ne)
       ELSE LET x == ElemBlock(m, e, 1)  t == m.t[x[1]] IN m.o[x[1]] + (x[2] \div t.ne) * t.sz + EoAt(t, x[2] % t.ne)
SgAt(T, e) ==
  IF ~T.big THEN T.sg[e + 1]
  ELSE LET m == T.bm IN
       IF m.how = "strided" THEN SgAt(m.t, e % m.t.ne) ELSE LET x == ElemBlock(m, e, 1)  t == m.t[x[1]] IN SgAt(t, x[2] % t.ne)
\* bytes in the first e elements of a run of items of T
BytesIn(T, e) == IF T.ne = 0 THEN 0 ELSE (e \div T.ne) * T.sz + (IF e % T.ne = 0 THEN 0 ELSE EoAt(T, e % T.ne))
\* basic type of element i (from 0) of a run of items of T
ElemType(T, i) == SgAt(T, i % T.ne)

------------------------------------------------------------------------
\* Predefined types, numbered as in mpi.h.  fr, fd: configured Fortran sizes.
Ident(n) == [i \in 1..n |-> i - 1]

Basic(id, n) ==
  [ne |-> 1, sz |-> n, lb |-> 0, ub |-> n, ex |-> n, ol |-> FALSE, ou |-> FALSE, nlb |-> 0, nub |-> n, mx |-> n,
   com |-> TRUE, mark |-> "", big |-> FALSE, bm |-> Ident(n), sg |-> <<id>>, eo |-> <<0>>]

Pair(id, n, id2, n2, off, ext) ==
  [ne |-> 2, sz |-> n + n2, lb |-> 0, ub |-> ext, ex |-> ext, ol |-> FALSE, ou |-> FALSE, nlb |-> 0, nub |-> off + n2,
   mx |-> Max2(n, n2), com |-> TRUE, mark |-> "", big |-> FALSE,
   bm |-> [i \in 1..(n + n2) |-> IF i <= n THEN i - 1 ELSE off + (i - n) - 1],
   sg |-> <<id, id2>>, eo |-> <<0, n>>]

Marker(m) ==
  [ne |-> 0, sz |-> 0, lb |-> 0, ub |-> 0, ex |-> 0, ol |-> FALSE, ou |-> FALSE, nlb |-> 0, nub |-> 0, mx |-> 1,
   com |-> TRUE, mark |-> m, big |-> FALSE, bm |-> <<>>, sg |-> <<>>, eo |-> <<>>]

BasicSize(t, fr, fd) ==
  CASE t \in {-1, -5, -12, -13, -22, -32, -46} -> 1
    [] t \in {-2, -6, -33} -> 2
    [] t \in {-3, -7, -9, -16, -21, -34, -37, -47} -> 4
    [] t \in {-4, -8, -10, -35, -38, -40, -43, -44, -45} -> 8
    [] t \in {-11, -36, -39, -41} -> 16
    [] t = -42 -> 32
    [] t = -17 -> fr
    [] t = -18 -> fd
    [] t = -19 -> 2 * fr
    [] t = -20 -> 2 * fd

PredefNums == -47 .. -1

Predef(t, fr, fd) ==
  CASE t = -14 -> Marker("lb")
    [] t = -15 -> Marker("ub")
    [] t = -23 -> Pair(-17, fr, -17, fr, fr, 2 * fr)
    [] t = -24 -> Pair(-18, fd, -18, fd, fd, 2 * fd)
    [] t = -25 -> Pair(-16, 4, -16, 4, 4, 8)
    [] t = -26 -> Pair(-9, 4, -3, 4, 4, 8)
    [] t = -27 -> Pair(-10, 8, -3, 4, 8, 16)
    [] t = -28 -> Pair(-4, 8, -3, 4, 8, 16)
    [] t = -29 -> Pair(-3, 4, -3, 4, 4, 8)
    [] t = -30 -> Pair(-2, 2, -3, 4, 4, 8)
    [] t = -31 -> Pair(-11, 16, -3, 4, 16, 32)
    [] t = -13 -> Basic(-12, 1)                   \* packed data are bytes
    [] OTHER -> Basic(t, BasicSize(t, fr, fd))

------------------------------------------------------------------------
\* Constructors.  A derived type is n blocks; block k has bl[k] consecutive
\* copies of t[k] placed at byte displacement d[k].

SMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SMax(S) == -SMin({-x : x \in S})

\* bounds of one block; the copies lie at d, d + ext, ..., d + (bl-1)*ext
LoShift(T, bl) == Min2(0, (bl - 1) * Extent(T))
HiShift(T, bl) == Max2(0, (bl - 1) * Extent(T))

\* general form: sequences of block lengths, displacements, types; blocks x to y
RECURSIVE CatBytes(_, _, _, _, _), CatSig(_, _, _, _), CatOff(_, _, _, _, _), Starts(_, _, _)
CatBytes(bl, d, t, x, y) ==
  IF x > y THEN <<>>
  ELSE IF x < y THEN LET h == (x + y) \div 2 IN CatBytes(bl, d, t, x, h) \o CatBytes(bl, d, t, h + 1, y)
  ELSE LET T == t[x] IN IF T.sz = 0 THEN <<>> ELSE [i \in 1..(bl[x] * T.sz) |-> d[x] + ByteAt(T, i - 1)]
CatSig(bl, t, x, y) ==
  IF x > y THEN <<>>
  ELSE IF x < y THEN LET h == (x + y) \div 2 IN CatSig(bl, t, x, h) \o CatSig(bl, t, h + 1, y)
  ELSE LET T == t[x] IN IF T.ne = 0 THEN <<>> ELSE [i \in 1..(bl[x] * T.ne) |-> ElemType(T, i - 1)]
CatOff(bl, t, o, x, y) ==
  IF x > y THEN <<>>
  ELSE IF x < y THEN LET h == (x + y) \div 2 IN CatOff(bl, t, o, x, h) \o CatOff(bl, t, o, h + 1, y)
  ELSE LET T == t[x] IN IF T.ne = 0 THEN <<>>
       ELSE [i \in 1..(bl[x] * T.ne) |-> o[x] + ((i - 1) \div T.ne) * T.sz + T.eo[((i - 1) % T.ne) + 1]]
\* byte of the packed form at which each block starts
Starts(bl, t, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN <<0>>
                    ELSE LET q == Starts(bl, t, k - 1) IN Append(q, q[k - 1] + bl[k - 1] * t[k - 1].sz)

\* (TLCEval only makes TLC compute tables once)
MkStruct(bl, d0, t0) ==
  LET n    == Len(bl)
      d    == TLCEval(d0)
      t    == TLCEval(t0)
      o    == TLCEval(Starts(bl, t, n))
      K    == {k \in 1..n : bl[k] > 0}                       \* blocks that exist at all
      D    == {k \in K : t[k].mark = ""}                     \* ... holding data
      F    == {k \in D : t[k].ne > 0}
      ne   == SumTo([k \in 1..n |-> bl[k] * t[k].ne], n)
      sz   == SumTo([k \in 1..n |-> bl[k] * t[k].sz], n)
      \* a marker, also an inherited one, beats the layout
      lbs  == {d[k] : k \in {k \in K : t[k].mark = "lb"}} \cup {d[k] + t[k].lb + LoShift(t[k], bl[k]) : k \in {k \in D : t[k].ol}}
      ubs  == {d[k] : k \in {k \in K : t[k].mark = "ub"}} \cup {d[k] + t[k].ub + HiShift(t[k], bl[k]) : k \in {k \in D : t[k].ou}}
      nlb  == IF F = {} THEN 0 ELSE SMin({d[k] + t[k].nlb + LoShift(t[k], bl[k]) : k \in F})
      nub  == IF F = {} THEN 0 ELSE SMax({d[k] + t[k].nub + HiShift(t[k], bl[k]) : k \in F})
      big  == sz > MaxTab \/ \E k \in F : t[k].big
  IN WithExtent(
     [ne |-> ne, sz |-> sz, ol |-> lbs # {}, ou |-> ubs # {}, nlb |-> nlb, nub |-> nub,
      lb |-> IF lbs # {} THEN SMin(lbs) ELSE nlb, ub |-> IF ubs # {} THEN SMax(ubs) ELSE nub,
      mx |-> IF F = {} THEN 1 ELSE SMax({t[k].mx : k \in F}), com |-> FALSE, mark |-> "", big |-> big,
      bm |-> IF big THEN [how |-> "struct", bl |-> bl, d |-> d, t |-> t, o |-> o] ELSE CatBytes(bl, d, t, 1, n),
      sg |-> IF big THEN <<>> ELSE CatSig(bl, t, 1, n),
      eo |-> IF big THEN <<>> ELSE CatOff(bl, t, o, 1, n)])

\* n blocks of bl copies of T, block k (from 0) at k*stride
MkStrided(n, bl, stride, T) ==
  LET live == n > 0 /\ bl > 0
      full == live /\ T.ne > 0
      e    == Extent(T)
      L    == Min2(0, (n - 1) * stride) + LoShift(T, bl)
      H    == Max2(0, (n - 1) * stride) + HiShift(T, bl)
      per  == bl * T.sz
      pe   == bl * T.ne
      ne   == IF live THEN n * pe ELSE 0
      sz   == IF live THEN n * per ELSE 0
      big  == sz > MaxTab \/ (full /\ T.big)
      nlb  == IF full THEN T.nlb + L ELSE 0
      nub  == IF full THEN T.nub + H ELSE 0
  IN WithExtent(
     [ne |-> ne, sz |-> sz, ol |-> live /\ T.ol, ou |-> live /\ T.ou, nlb |-> nlb, nub |-> nub,
      lb |-> IF live /\ T.ol THEN T.lb + L ELSE nlb, ub |-> IF live /\ T.ou THEN T.ub + H ELSE nub,
      mx |-> IF full THEN T.mx ELSE 1, com |-> FALSE, mark |-> "", big |-> big,
      bm |-> IF big THEN [how |-> "strided", bl |-> bl, s |-> stride, t |-> T] ELSE TLCEval([i \in 1..sz |-> ((i - 1) \div per) * stride + ByteAt(T, (i - 1) % per)]),
      sg |-> IF big THEN <<>> ELSE TLCEval([i \in 1..ne |-> ElemType(T, (i - 1) % pe)]),
      eo |-> IF big THEN <<>> ELSE TLCEval([i \in 1..ne |-> ((i - 1) \div T.ne) * T.sz + T.eo[((i - 1) % T.ne) + 1]])])

Rep(n, x) == [i \in 1..n |-> x]

MkContiguous(n, T)          == MkStrided(n, 1, Extent(T), T)
MkHvector(n, bl, s, T)      == MkStrided(n, bl, s, T)
MkVector(n, bl, s, T)       == MkStrided(n, bl, s * Extent(T), T)
MkHindexed(bls, ds, T)      == MkStruct(bls, ds, Rep(Len(bls), T))
MkIndexed(bls, ds, T)       == MkStruct(bls, [k \in 1..Len(ds) |-> ds[k] * Extent(T)], Rep(Len(bls), T))
MkIndexedBlock(bl, ds, T)   == MkIndexed(Rep(Len(ds), bl), ds, T)
MkDup(T)                    == T

\* An independent, definition-level description (quadratic, for model checking):
\* the list of <<displacement, basic type>> of MkStruct's result.
RECURSIVE TypemapDef(_, _, _, _)
TypemapDef(bl, d, t, k) ==
  IF k > Len(bl) THEN <<>>
  ELSE [i \in 1..(bl[k] * t[k].ne) |->
          <<d[k] + ((i - 1) \div t[k].ne) * Extent(t[k]) + t[k].bm[t[k].eo[((i - 1) % t[k].ne) + 1] + 1], ElemType(t[k], i - 1)>>]
       \o TypemapDef(bl, d, t, k + 1)
TypemapOf(T) == [i \in 1..T.ne |-> <<T.bm[T.eo[i] + 1], T.sg[i]>>]
=============================================================================
