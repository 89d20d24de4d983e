// ---------------------------------------------------------------- life cycle
OP(Init) {
  int how = (int)c.I("thread"), req = (int)c.I("req");     // thread: 0 = Init, 1 = Init_thread
  int thr[4] = {MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE};
  int *rq = c.in({req >= 0 && req < 4 ? thr[req] : req}), *pv = c.io1();
  // the argument vector: 1: the program's name, 0: none given, 2: an empty one, 3: several
  int av_ = c.has("argv") ? atoi(c.kv["argv"].c_str()) : 1, argc_ = av_ == 2 ? 0 : av_; char nm[] = "driver", x1[] = "-x", x2[] = ""; char *av[4] = {nm, x1, x2, nullptr}; char **avp = av;
  if (argc_ < 3) av[argc_] = nullptr;
  int *ac = av_ ? &argc_ : nullptr; char ***app = av_ ? &avp : nullptr;
  if (how) {
    RUN(MPI_Init_thread, mpi_init_thread_, (ac, app, *rq, pv), (rq, pv, ie));
    long p = -9; for (int i = 0; i < 4; i++) if (thr[i] == *pv) p = i;
    c.out("prov", p);
  } else RUN(MPI_Init, mpi_init_, (ac, app), (ie));
  if (argc_ != (av_ == 2 ? 0 : av_) || (av_ && (avp != av || strcmp(nm, "driver") || strcmp(x1, "-x") || *x2))) { c.o.clear(); c.out("ret", 99L); }   // the vector is the program's
  c.finish();
}
OP(Initialized) { int *f = c.io1(); RUN(MPI_Initialized, mpi_initialized_, (f), (f, ie)); c.out("flag", c.F() ? *f : *f != 0); c.finish(); }
OP(Finalize) { RUN(MPI_Finalize, mpi_finalize_, (), (ie)); c.finish(); }
OP(Abort) { int *cm = c.in({(int)c.I("comm")}), *e = c.in({(int)c.I("code")}); RUN(MPI_Abort, mpi_abort_, (*cm, *e), (cm, e, ie)); c.finish(); }

// ---------------------------------------------------------------- the user's own actions
OP(Poke) {   // store to memory
  long at = c.I("at"); vector<long> v = c.L("v"); c.begin(); c.back();
  for (size_t i = 0; i < v.size(); i++) *((unsigned char *)toptr(at) + i) = (unsigned char)v[i];
  c.out("ret", 0L); c.finish();
}
OP(Peek) { vector<long> v; long at = c.I("at"), n = c.I("n"); for (long i = 0; i < n; i++) v.push_back(*((unsigned char *)toptr(at) + i)); c.begin(); c.back(); c.out("ret", 0L); c.out("v", js(v)); c.finish(); }
OP(Let) { string k = c.kv["x"]; vars[k] = (int)Call::val(c.kv["v"]); }       // script-level assignment
OP(MemMark) {   // memory held by the library
  c.I("id"); c.I("rel"); c.begin(); c.back(); c.out("ret", 0L);
  c.out("u", IS_ASAN ? 0L : lib_bytes); c.out("n", IS_ASAN ? 0L : lib_blocks); c.finish();
}

// ---------------------------------------------------------------- communicators
#define CM(k) (int)c.I(k)
OP(CommDup) { int *a = c.in({CM("comm")}), *h = c.io1(); RUN(MPI_Comm_dup, mpi_comm_dup_, (*a, h), (a, h, ie)); c.out("h", *h); c.setvar("h", *h); c.finish(); }
OP(CommSplit) {
  int *a = c.in({CM("comm")}); long col = c.I("color"); int *co = c.in({(int)(col == -1 ? MPI_UNDEFINED : col)}), *k = c.in({(int)c.I("key")}), *h = c.io1();
  RUN(MPI_Comm_split, mpi_comm_split_, (*a, *co, *k, h), (a, co, k, h, ie)); c.out("h", *h); c.setvar("h", *h); c.finish();
}
OP(CommCreate) { int *a = c.in({CM("comm")}), *g = c.in({cgrp((int)c.I("g"))}), *h = c.io1(); RUN(MPI_Comm_create, mpi_comm_create_, (*a, *g, h), (a, g, h, ie)); c.out("h", *h); c.setvar("h", *h); c.finish(); }
OP(CommFree) { int *a = c.io({CM("comm")}); RUN(MPI_Comm_free, mpi_comm_free_, (a), (a, ie)); c.out("h", *a); c.setvar("comm", *a); c.finish(); }
OP(CommSize) { int *a = c.in({CM("comm")}), *v = c.io1(); RUN(MPI_Comm_size, mpi_comm_size_, (*a, v), (a, v, ie)); c.out("v", *v); c.finish(); }
OP(CommRank) { int *a = c.in({CM("comm")}), *v = c.io1(); RUN(MPI_Comm_rank, mpi_comm_rank_, (*a, v), (a, v, ie)); c.out("v", *v); c.finish(); }
OP(CommGroup) { int *a = c.in({CM("comm")}), *v = c.io1(); RUN(MPI_Comm_group, mpi_comm_group_, (*a, v), (a, v, ie)); c.out("g", bgrp(*v)); c.setvar("g", (int)bgrp(*v)); c.finish(); }
OP(IntercommCreate) {
  int *l = c.in({CM("lc")}), *ll = c.in({(int)c.I("ll")}), *p = c.in({CM("pc")}), *rl = c.in({(int)c.I("rl")}), *t = c.in({(int)c.I("tag")}), *h = c.io1();
  RUN(MPI_Intercomm_create, mpi_intercomm_create_, (*l, *ll, *p, *rl, *t, h), (l, ll, p, rl, t, h, ie)); c.out("h", *h); c.setvar("h", *h); c.finish();
}
OP(IntercommMerge) { int *a = c.in({CM("comm")}), *hi = c.in({(int)c.I("high")}), *h = c.io1(); RUN(MPI_Intercomm_merge, mpi_intercomm_merge_, (*a, *hi, h), (a, hi, h, ie)); c.out("h", *h); c.setvar("h", *h); c.finish(); }
OP(CartCreate) {
  int *a = c.in({CM("comm")}), *nd = c.in({(int)c.I("nd")}), *dims = c.in(toint(c.L("dims"))), *per = c.in(toint(c.L("per"))), *re = c.in({(int)c.I("reorder")}), *h = c.io1();
  RUN(MPI_Cart_create, mpi_cart_create_, (*a, *nd, dims, per, *re, h), (a, nd, dims, per, re, h, ie)); c.out("h", *h); c.setvar("h", *h); c.finish();
}
OP(CartGet) {
  int *a = c.in({CM("comm")}); int n = (int)c.I("max"); int *mx = c.in({n});
  int *d = c.io(vector<int>(n, -7)), *p = c.io(vector<int>(n, -7)), *co = c.io(vector<int>(n, -7));
  RUN(MPI_Cart_get, mpi_cart_get_, (*a, *mx, d, p, co), (a, mx, d, p, co, ie));
  c.out("dims", js(raw(d, n))); c.out("per", js(bmap(p, n, [](int x) { return (long)(x != 0); }))); c.out("coords", js(raw(co, n))); c.finish();
}
OP(CartCoords) {
  int *a = c.in({CM("comm")}), *r = c.in({(int)c.I("rank")}); int n = (int)c.I("max"); int *mx = c.in({n}), *co = c.io(vector<int>(n, -7));
  RUN(MPI_Cart_coords, mpi_cart_coords_, (*a, *r, *mx, co), (a, r, mx, co, ie)); c.out("coords", js(raw(co, n))); c.finish();
}
OP(DimsCreate) {
  int *nn = c.in({(int)c.I("nn")}); int n = (int)c.I("nd"); int *nd = c.in({n}), *d = c.io(toint(c.L("dims")));
  RUN(MPI_Dims_create, mpi_dims_create_, (*nn, *nd, d), (nn, nd, d, ie)); c.out("dims", js(raw(d, n))); c.finish();
}

// ---------------------------------------------------------------- groups
#define GR(k) cgrp((int)c.I(k))
#define GOUT c.out("g", bgrp(*h)); c.setvar("g", (int)bgrp(*h)); c.finish()
OP(GroupIncl) { int *g = c.in({GR("g1")}), *n = c.in({(int)c.I("n")}), *r = c.in(toint(c.L("ranks"))), *h = c.io1(); RUN(MPI_Group_incl, mpi_group_incl_, (*g, *n, r, h), (g, n, r, h, ie)); GOUT; }
OP(GroupRangeIncl) { int *g = c.in({GR("g1")}), *n = c.in({(int)c.I("n")}), *r = c.in(toint(c.L("ranges"))), *h = c.io1(); RUN(MPI_Group_range_incl, mpi_group_range_incl_, (*g, *n, (int(*)[3])r, h), (g, n, r, h, ie)); GOUT; }
OP(GroupUnion) { int *g = c.in({GR("g1")}), *k = c.in({GR("g2")}), *h = c.io1(); RUN(MPI_Group_union, mpi_group_union_, (*g, *k, h), (g, k, h, ie)); GOUT; }
OP(GroupIntersection) { int *g = c.in({GR("g1")}), *k = c.in({GR("g2")}), *h = c.io1(); RUN(MPI_Group_intersection, mpi_group_intersection_, (*g, *k, h), (g, k, h, ie)); GOUT; }
OP(GroupDifference) { int *g = c.in({GR("g1")}), *k = c.in({GR("g2")}), *h = c.io1(); RUN(MPI_Group_difference, mpi_group_difference_, (*g, *k, h), (g, k, h, ie)); GOUT; }
OP(GroupFree) { int *h = c.io({GR("g")}); RUN(MPI_Group_free, mpi_group_free_, (h), (h, ie)); GOUT; }
OP(TranslateRanks) {
  int *g = c.in({GR("g1")}); int m = (int)c.I("n"); int *n = c.in({m}), *r = c.in(toint(c.L("ranks"))), *k = c.in({GR("g2")}), *o = c.io(vector<int>(m, -7));
  RUN(MPI_Group_translate_ranks, mpi_group_translate_ranks_, (*g, *n, r, *k, o), (g, n, r, k, o, ie)); c.out("ranks", js(bmap(o, m, bund))); c.finish();
}

// ---------------------------------------------------------------- datatypes
#define TY(k) ctype((int)c.I(k))
#define THOUT c.out("h", btype(*h)); c.setvar("h", (int)btype(*h)); c.finish()
static int descale(Call &c, long d) {   // displacement in units of an extent "du" (see DESIGN: address scaling)
  long du = c.has("du") ? strtol(c.kv["du"].c_str(), 0, 10) : 0;
  return du ? (int)(conv(d * du) / du) : (int)d;
}
OP(TContiguous) { int *n = c.in({(int)c.I("n")}), *t = c.in({TY("old")}), *h = c.io1(); RUN(MPI_Type_contiguous, mpi_type_contiguous_, (*n, *t, h), (n, t, h, ie)); THOUT; }
OP(TVector) {
  int *n = c.in({(int)c.I("n")}), *bl = c.in({(int)c.I("bl")}), *s = c.in({descale(c, c.I("s"))}), *t = c.in({TY("old")}), *h = c.io1();
  RUN(MPI_Type_vector, mpi_type_vector_, (*n, *bl, *s, *t, h), (n, bl, s, t, h, ie)); THOUT;
}
OP(THvector) {
  int *n = c.in({(int)c.I("n")}), *bl = c.in({(int)c.I("bl")}); long *s = c.inl({toaint(c.I("s"))}); int *t = c.in({TY("old")}), *h = c.io1();
  RUN(MPI_Type_hvector, mpi_type_hvector_, (*n, *bl, *s, *t, h), (n, bl, s, t, h, ie)); THOUT;
}
OP(TCreateHvector) {
  int *n = c.in({(int)c.I("n")}), *bl = c.in({(int)c.I("bl")}); long *s = c.inl({toaint(c.I("s"))}); int *t = c.in({TY("old")}), *h = c.io1();
  RUN(MPI_Type_create_hvector, mpi_type_create_hvector_, (*n, *bl, *s, *t, h), (n, bl, s, t, h, ie)); THOUT;
}
static vector<int> ldesc(Call &c, const vector<long> &v) { vector<int> r; for (long x : v) r.push_back(descale(c, x)); return r; }
static vector<long> lconv(const vector<long> &v) { vector<long> r; for (long x : v) r.push_back(toaint(x)); return r; }
OP(TIndexed) {
  int *n = c.in({(int)c.I("n")}), *bl = c.in(toint(c.L("bls"))), *d = c.in(ldesc(c, c.L("ds"))), *t = c.in({TY("old")}), *h = c.io1();
  RUN(MPI_Type_indexed, mpi_type_indexed_, (*n, bl, d, *t, h), (n, bl, d, t, h, ie)); THOUT;
}
OP(TIndexedBlock) {
  int *n = c.in({(int)c.I("n")}), *bl = c.in({(int)c.I("bl")}), *d = c.in(ldesc(c, c.L("ds"))), *t = c.in({TY("old")}), *h = c.io1();
  RUN(MPI_Type_create_indexed_block, mpi_type_create_indexed_block_, (*n, *bl, d, *t, h), (n, bl, d, t, h, ie)); THOUT;
}
OP(THindexed) {
  int *n = c.in({(int)c.I("n")}), *bl = c.in(toint(c.L("bls"))); long *d = c.inl(lconv(c.L("ds"))); int *t = c.in({TY("old")}), *h = c.io1();
  RUN(MPI_Type_hindexed, mpi_type_hindexed_, (*n, bl, d, *t, h), (n, bl, d, t, h, ie)); THOUT;
}
OP(TStruct) {
  int *n = c.in({(int)c.I("n")}), *bl = c.in(toint(c.L("bls"))); long *d = c.inl(lconv(c.L("ds")));
  vector<int> ts; for (long x : c.L("olds")) ts.push_back(ctype((int)x));
  int *t = c.in(ts), *h = c.io1();
  RUN(MPI_Type_struct, mpi_type_struct_, (*n, bl, d, t, h), (n, bl, d, t, h, ie)); THOUT;
}
OP(TDup) { int *t = c.in({TY("old")}), *h = c.io1(); RUN(MPI_Type_dup, mpi_type_dup_, (*t, h), (t, h, ie)); THOUT; }
OP(TSize) { int *t = c.in({TY("t")}), *v = c.io1(); RUN(MPI_Type_size, mpi_type_size_, (*t, v), (t, v, ie)); c.out("v", *v); c.finish(); }
#define AOUT(x) c.out("v", fromaint(x))
OP(TExtent) { int *t = c.in({TY("t")}); long *v = c.iol(-777); RUN(MPI_Type_extent, mpi_type_extent_, (*t, v), (t, v, ie)); AOUT(*v); c.finish(); }
OP(TLb) { int *t = c.in({TY("t")}); long *v = c.iol(-777); RUN(MPI_Type_lb, mpi_type_lb_, (*t, v), (t, v, ie)); AOUT(*v); c.finish(); }
OP(TUb) { int *t = c.in({TY("t")}); long *v = c.iol(-777); RUN(MPI_Type_ub, mpi_type_ub_, (*t, v), (t, v, ie)); AOUT(*v); c.finish(); }
OP(TCommit) { int *h = c.io({TY("t")}); RUN(MPI_Type_commit, mpi_type_commit_, (h), (h, ie)); c.out("h", btype(*h)); c.setvar("t", (int)btype(*h)); c.finish(); }
OP(TFree) { int *h = c.io({TY("t")}); RUN(MPI_Type_free, mpi_type_free_, (h), (h, ie)); c.out("h", btype(*h)); c.setvar("t", (int)btype(*h)); c.finish(); }
OP(Address) {
  long at = c.I("at"); int how = (int)c.I("how"); void *p = toptr(at); long *v = c.iol(-777);
  if (how) RUN(MPI_Get_address, mpi_get_address_, (p, v), (p, v, ie)); else RUN(MPI_Address, mpi_address_, (p, v), (p, v, ie));
  AOUT(*v); c.finish();
}

// ---------------------------------------------------------------- point to point
#define P2P(peer, conv_)                                                                         \
  long at = c.I("buf"); void *buf = toptr(at); int *n = c.in({(int)c.I("n")}), *t = c.in({TY("t")}); \
  int *pr = c.in({conv_((int)c.I(peer))}), *tg = c.in({ctag((int)c.I("tag"))}), *cm = c.in({CM("comm")})
OP(Send) { P2P("dest", csrc); RUN(MPI_Send, mpi_send_, (buf, *n, *t, *pr, *tg, *cm), (buf, n, t, pr, tg, cm, ie)); c.finish(); }
OP(Ssend) { P2P("dest", csrc); RUN(MPI_Ssend, mpi_ssend_, (buf, *n, *t, *pr, *tg, *cm), (buf, n, t, pr, tg, cm, ie)); c.finish(); }
OP(Rsend) { P2P("dest", csrc); RUN(MPI_Rsend, mpi_rsend_, (buf, *n, *t, *pr, *tg, *cm), (buf, n, t, pr, tg, cm, ie)); c.finish(); }
#define ROUT c.out("req", *rq); c.setvar("req", *rq); c.finish()
OP(Isend) { P2P("dest", csrc); int *rq = c.io1(); RUN(MPI_Isend, mpi_isend_, (buf, *n, *t, *pr, *tg, *cm, rq), (buf, n, t, pr, tg, cm, rq, ie)); ROUT; }
OP(Irsend) { P2P("dest", csrc); int *rq = c.io1(); RUN(MPI_Irsend, mpi_irsend_, (buf, *n, *t, *pr, *tg, *cm, rq), (buf, n, t, pr, tg, cm, rq, ie)); ROUT; }
OP(Irecv) { P2P("src", csrc); int *rq = c.io1(); RUN(MPI_Irecv, mpi_irecv_, (buf, *n, *t, *pr, *tg, *cm, rq), (buf, n, t, pr, tg, cm, rq, ie)); ROUT; }
OP(Recv) {
  P2P("src", csrc); void *st = c.status(c.I("st"));
  RUN(MPI_Recv, mpi_recv_, (buf, *n, *t, *pr, *tg, *cm, (MPI_Status *)st), (buf, n, t, pr, tg, cm, st, ie)); c.finish();
}
OP(Sendrecv) {
  void *sb = toptr(c.I("sbuf")); int *sn = c.in({(int)c.I("sn")}), *st_ = c.in({TY("stp")}), *d = c.in({csrc((int)c.I("dest"))}), *sg = c.in({(int)c.I("stag")});
  void *rb = toptr(c.I("rbuf")); int *rn = c.in({(int)c.I("rn")}), *rt = c.in({TY("rtp")}), *s = c.in({csrc((int)c.I("src"))}), *rg = c.in({ctag((int)c.I("rtag"))});
  int *cm = c.in({CM("comm")}); void *st = c.status(c.I("st"));
  RUN(MPI_Sendrecv, mpi_sendrecv_, (sb, *sn, *st_, *d, *sg, rb, *rn, *rt, *s, *rg, *cm, (MPI_Status *)st), (sb, sn, st_, d, sg, rb, rn, rt, s, rg, cm, st, ie)); c.finish();
}
OP(Probe) { int *s = c.in({csrc((int)c.I("src"))}), *tg = c.in({ctag((int)c.I("tag"))}), *cm = c.in({CM("comm")}); void *st = c.status(c.I("st")); RUN(MPI_Probe, mpi_probe_, (*s, *tg, *cm, (MPI_Status *)st), (s, tg, cm, st, ie)); c.finish(); }
#define FLG(f) c.out("flag", c.F() ? (long)*f : (long)(*f != 0))
OP(Iprobe) {
  int *s = c.in({csrc((int)c.I("src"))}), *tg = c.in({ctag((int)c.I("tag"))}), *cm = c.in({CM("comm")}), *f = c.io1(); void *st = c.status(c.I("st"));
  RUN(MPI_Iprobe, mpi_iprobe_, (*s, *tg, *cm, f, (MPI_Status *)st), (s, tg, cm, f, st, ie)); FLG(f); c.finish();
}
OP(Test) { int *r = c.io({(int)c.I("req")}), *f = c.io1(); void *st = c.status(c.I("st")); RUN(MPI_Test, mpi_test_, (r, f, (MPI_Status *)st), (r, f, st, ie)); FLG(f); c.out("req", *r); c.setvar("req", *r); c.finish(); }
OP(Wait) { int *r = c.io({(int)c.I("req")}); void *st = c.status(c.I("st")); RUN(MPI_Wait, mpi_wait_, (r, (MPI_Status *)st), (r, st, ie)); c.out("req", *r); c.setvar("req", *r); c.finish(); }
OP(RequestFree) { int *r = c.io({(int)c.I("req")}); RUN(MPI_Request_free, mpi_request_free_, (r), (r, ie)); c.out("req", *r); c.setvar("req", *r); c.finish(); }
#define RQS vector<int> rv = toint(c.L("reqs")); int m = (int)rv.size(); int *cnt = c.in({m}), *r = c.io(rv)
#define RQO c.out("reqs", js(raw(r, m))); setvars(c, "reqs", r); c.finish()
OP(Testany) { RQS; int *ix = c.io1(), *f = c.io1(); void *st = c.status(c.I("st")); RUN(MPI_Testany, mpi_testany_, (*cnt, r, ix, f, (MPI_Status *)st), (cnt, r, ix, f, st, ie)); FLG(f); c.out("idx", bund(*ix)); RQO; }
OP(Waitany) { RQS; int *ix = c.io1(); void *st = c.status(c.I("st")); RUN(MPI_Waitany, mpi_waitany_, (*cnt, r, ix, (MPI_Status *)st), (cnt, r, ix, st, ie)); c.out("idx", bund(*ix)); RQO; }
OP(Testall) { RQS; int *f = c.io1(); void *st = c.statuses(c.I("sts"), m); RUN(MPI_Testall, mpi_testall_, (*cnt, r, f, (MPI_Status *)st), (cnt, r, f, st, ie)); FLG(f); RQO; }
OP(Waitall) { RQS; void *st = c.statuses(c.I("sts"), m); RUN(MPI_Waitall, mpi_waitall_, (*cnt, r, (MPI_Status *)st), (cnt, r, st, ie)); RQO; }
#define SOMEOUT                                                                        \
  long k = *oc == MPI_UNDEFINED ? -1 : *oc; c.out("oc", k);                            \
  { vector<long> w; for (long i = 0; i < k && i < m; i++) w.push_back(ix[i]); c.out("idx", js(w)); } \
  for (long i = k < 0 ? 0 : k; i < m; i++) if (ix[i] != -7 && (ix[i] < 0 || ix[i] > m)) c.extra++; RQO
OP(Testsome) { RQS; int *oc = c.io1(), *ix = c.io(vector<int>(m, -7)); void *st = c.statuses(c.I("sts"), m); RUN(MPI_Testsome, mpi_testsome_, (*cnt, r, oc, ix, (MPI_Status *)st), (cnt, r, oc, ix, st, ie)); SOMEOUT; }
OP(Waitsome) { RQS; int *oc = c.io1(), *ix = c.io(vector<int>(m, -7)); void *st = c.statuses(c.I("sts"), m); RUN(MPI_Waitsome, mpi_waitsome_, (*cnt, r, oc, ix, (MPI_Status *)st), (cnt, r, oc, ix, st, ie)); SOMEOUT; }
OP(GetCount) { int s = (int)c.I("st"); int *t = c.in({TY("t")}), *v = c.io1(); RUN(MPI_Get_count, mpi_get_count_, (&st0[s], *t, v), (&st0[s], t, v, ie)); c.out("v", bund(*v)); c.finish(); }
OP(GetElements) { int s = (int)c.I("st"); int *t = c.in({TY("t")}), *v = c.io1(); RUN(MPI_Get_elements, mpi_get_elements_, (&st0[s], *t, v), (&st0[s], t, v, ie)); c.out("v", bund(*v)); c.finish(); }

// ---------------------------------------------------------------- pack
OP(Pack) {
  void *ib = toptr(c.I("buf")); int *n = c.in({(int)c.I("n")}), *t = c.in({TY("t")}); void *ob = toptr(c.I("out")); int *os = c.in({(int)c.I("size")}), *ps = c.io({(int)c.I("pos")}), *cm = c.in({CM("comm")});
  RUN(MPI_Pack, mpi_pack_, (ib, *n, *t, ob, *os, ps, *cm), (ib, n, t, ob, os, ps, cm, ie)); c.out("pos", *ps); c.finish();
}
OP(Unpack) {
  void *ib = toptr(c.I("in")); int *is = c.in({(int)c.I("size")}), *ps = c.io({(int)c.I("pos")}); void *ob = toptr(c.I("buf")); int *n = c.in({(int)c.I("n")}), *t = c.in({TY("t")}), *cm = c.in({CM("comm")});
  RUN(MPI_Unpack, mpi_unpack_, (ib, *is, ps, ob, *n, *t, *cm), (ib, is, ps, ob, n, t, cm, ie)); c.out("pos", *ps); c.finish();
}
OP(PackSize) {
  int *n = c.in({(int)c.I("n")}), *t = c.in({TY("t")}), *cm = c.in({CM("comm")}); long *v = c.iol(-777); int *vi = c.io1();
  RUN(MPI_Pack_size, mpi_pack_size_, (*n, *t, *cm, v), (n, t, cm, vi, ie)); long r = c.F() ? *vi : *v; c.out("v", r); c.out("m", r % 32749); c.finish();
}

// ---------------------------------------------------------------- collectives
static void *place(Call &c, const char *k) {     // buffer address or IN_PLACE (= -1)
  long v = c.I(k);
  if (v == -1) return c.F() ? f_inpl : MPI_IN_PLACE;
  return toptr(v);
}
#define TYL(k) ([&] { vector<int> w; for (long x : c.L(k)) w.push_back(ctype((int)x)); return w; }())
#define ROOT int *ro = c.in({croot((int)c.I("root"))})
#define COMM int *cm = c.in({CM("comm")})
#define OPH int *oh = c.in({(int)c.I("oph")})
OP(Barrier) { COMM; RUN(MPI_Barrier, mpi_barrier_, (*cm), (cm, ie)); c.finish(); }
OP(Bcast) { void *b = toptr(c.I("buf")); int *n = c.in({(int)c.I("n")}), *t = c.in({TY("t")}); ROOT; COMM; RUN(MPI_Bcast, mpi_bcast_, (b, *n, *t, *ro, *cm), (b, n, t, ro, cm, ie)); c.finish(); }
#define SND void *sb = place(c, "sbuf"); int *sn = c.in({(int)c.I("sn")}), *st = c.in({TY("stp")})
#define RCV void *rb = place(c, "rbuf"); int *rn = c.in({(int)c.I("rn")}), *rt = c.in({TY("rtp")})
OP(Gather) { SND; RCV; ROOT; COMM; RUN(MPI_Gather, mpi_gather_, (sb, *sn, *st, rb, *rn, *rt, *ro, *cm), (sb, sn, st, rb, rn, rt, ro, cm, ie)); c.finish(); }
OP(Scatter) { SND; RCV; ROOT; COMM; RUN(MPI_Scatter, mpi_scatter_, (sb, *sn, *st, rb, *rn, *rt, *ro, *cm), (sb, sn, st, rb, rn, rt, ro, cm, ie)); c.finish(); }
OP(Allgather) { SND; RCV; COMM; RUN(MPI_Allgather, mpi_allgather_, (sb, *sn, *st, rb, *rn, *rt, *cm), (sb, sn, st, rb, rn, rt, cm, ie)); c.finish(); }
OP(Alltoall) { SND; RCV; COMM; RUN(MPI_Alltoall, mpi_alltoall_, (sb, *sn, *st, rb, *rn, *rt, *cm), (sb, sn, st, rb, rn, rt, cm, ie)); c.finish(); }
#define RCVV void *rb = place(c, "rbuf"); int *rn = c.in({(int)c.I("rn")}), *rd = c.in({descale(c, c.I("rd"))}), *rt = c.in({TY("rtp")})
#define SNDV void *sb = place(c, "sbuf"); int *sn = c.in({(int)c.I("sn")}), *sd = c.in({descale(c, c.I("sd"))}), *st = c.in({TY("stp")})
#define UNUSED if (c.has("nil") && sb == MPI_IN_PLACE) sn = sd = nullptr     // arrays that mean nothing
OP(Gatherv) { SND; RCVV; ROOT; COMM; RUN(MPI_Gatherv, mpi_gatherv_, (sb, *sn, *st, rb, rn, rd, *rt, *ro, *cm), (sb, sn, st, rb, rn, rd, rt, ro, cm, ie)); c.finish(); }
OP(Allgatherv) { SND; RCVV; COMM; RUN(MPI_Allgatherv, mpi_allgatherv_, (sb, *sn, *st, rb, rn, rd, *rt, *cm), (sb, sn, st, rb, rn, rd, rt, cm, ie)); c.finish(); }
OP(Scatterv) { SNDV; RCV; ROOT; COMM; RUN(MPI_Scatterv, mpi_scatterv_, (sb, sn, sd, *st, rb, *rn, *rt, *ro, *cm), (sb, sn, sd, st, rb, rn, rt, ro, cm, ie)); c.finish(); }
OP(Alltoallv) { SNDV; RCVV; COMM; UNUSED; RUN(MPI_Alltoallv, mpi_alltoallv_, (sb, sn, sd, *st, rb, rn, rd, *rt, *cm), (sb, sn, sd, st, rb, rn, rd, rt, cm, ie)); c.finish(); }
OP(Alltoallw) {
  void *sb = place(c, "sbuf"); int *sn = c.in({(int)c.I("sn")}), *sd = c.in({(int)c.I("sd")}), *st = c.in({TY("stp")});
  void *rb = place(c, "rbuf"); int *rn = c.in({(int)c.I("rn")}), *rd = c.in({(int)c.I("rd")}), *rt = c.in({TY("rtp")}); COMM; UNUSED; if (!sn) st = nullptr;
  RUN(MPI_Alltoallw, mpi_alltoallw_, (sb, sn, sd, st, rb, rn, rd, rt, *cm), (sb, sn, sd, st, rb, rn, rd, rt, cm, ie)); c.finish();
}
#define RED void *sb = place(c, "sbuf"); void *rb = place(c, "rbuf"); int *n = c.in({(int)c.I("n")}), *t = c.in({TY("t")}); OPH
OP(Reduce) { RED; ROOT; COMM; RUN(MPI_Reduce, mpi_reduce_, (sb, rb, *n, *t, *oh, *ro, *cm), (sb, rb, n, t, oh, ro, cm, ie)); c.finish(); }
OP(Allreduce) { RED; COMM; RUN(MPI_Allreduce, mpi_allreduce_, (sb, rb, *n, *t, *oh, *cm), (sb, rb, n, t, oh, cm, ie)); c.finish(); }
OP(ReduceScatter) { RED; COMM; RUN(MPI_Reduce_scatter, mpi_reduce_scatter_, (sb, rb, n, *t, *oh, *cm), (sb, rb, n, t, oh, cm, ie)); c.finish(); }
OP(Scan) { RED; COMM; RUN(MPI_Scan, mpi_scan_, (sb, rb, *n, *t, *oh, *cm), (sb, rb, n, t, oh, cm, ie)); c.finish(); }

// ---------------------------------------------------------------- utilities
static void userop(void *, void *, int *, MPI_Datatype *) {}
OP(OpCreate) { int *cmu = c.in({(int)c.I("commute")}), *h = c.io1(); RUN(MPI_Op_create, mpi_op_create_, (userop, *cmu, h), ((void *)userop, cmu, h, ie)); c.out("h", *h != -77770077); c.setvar("h", *h); c.finish(); }
OP(OpFree) { int *h = c.io({(int)c.I("h")}); RUN(MPI_Op_free, mpi_op_free_, (h), (h, ie)); c.finish(); }
OP(InfoCreate) { int *h = c.io1(); RUN(MPI_Info_create, mpi_info_create_, (h), (h, ie)); c.out("h", *h != -77770077); c.setvar("h", *h); c.finish(); }
OP(InfoSet) { int *h = c.in({(int)c.I("h")}); char *k = c.instr("key"), *v = c.instr("value"); RUN(MPI_Info_set, mpi_info_set_, (*h, k, v), (h, k, v, ie, (size_t)3, (size_t)5)); c.finish(); }
OP(InfoFree) { int *h = c.io({(int)c.I("h")}); RUN(MPI_Info_free, mpi_info_free_, (h), (h, ie)); c.out("h", *h == MPI_INFO_NULL ? 0 : *h); c.finish(); }
OP(ErrhandlerSet) {
  long w = c.I("eh"); int *cm = c.in({CM("comm")}), *h = c.in({w ? MPI_ERRORS_RETURN : MPI_ERRORS_ARE_FATAL});
  RUN(MPI_Errhandler_set, mpi_errhandler_set_, (*cm, *h), (cm, h, ie)); c.finish();
}
// strings: nul = index of the first NUL (-1 none), fb = index of the first byte after the text
// that is not a blank, mx = declared maximum
static void strout(Call &c, char *s, int mx, int len) {
  int nul = -1; for (int i = 0; i < mx; i++) if (!s[i]) { nul = i; break; }
  int bl = 0; if (len >= 0 && len <= mx) { bl = 1; for (int i = len; i < mx; i++) if (s[i] != ' ') bl = 0; }
  int body = 1; if (len >= 0 && len <= mx) for (int i = 0; i < len; i++) if (s[i] == 0 || s[i] == 0x7f) body = 0;
  c.out("len", len); c.out("nul", nul); c.out("blank", bl); c.out("body", body); c.out("mx", mx);
  c.out("s", "\"" + esc(string(s, (size_t)(len >= 0 && len <= mx ? len : 0))) + "\"");
}
OP(ErrorString) { int *e = c.in({(int)c.I("code")}), *l = c.io1(); char *s = c.str(MPI_MAX_ERROR_STRING); RUN(MPI_Error_string, mpi_error_string_, (*e, s, l), (e, s, l, ie, (size_t)MPI_MAX_ERROR_STRING)); strout(c, s, MPI_MAX_ERROR_STRING, *l); c.finish(); }
OP(Host) { hostlen = c.I("n"); hostcut = (int)c.I("cut"); c.begin(); c.back(); c.out("ret", 0L); c.finish(); }   // the machine's name from now on
OP(ProcName) { int *l = c.io1(); char *s = c.str(MPI_MAX_PROCESSOR_NAME); RUN(MPI_Get_processor_name, mpi_get_processor_name_, (s, l), (s, l, ie, (size_t)MPI_MAX_PROCESSOR_NAME)); strout(c, s, MPI_MAX_PROCESSOR_NAME, *l); c.finish(); }
OP(LibVersion) { int *l = c.io1(); char *s = c.str(MPI_MAX_LIBRARY_VERSION_STRING); RUN(MPI_Get_library_version, mpi_get_library_version_, (s, l), (s, l, ie, (size_t)MPI_MAX_LIBRARY_VERSION_STRING)); strout(c, s, MPI_MAX_LIBRARY_VERSION_STRING, *l); c.finish(); }
OP(GetVersion) { int *v = c.io1(), *w = c.io1(); RUN(MPI_Get_Version, mpi_get_version_, (v, w), (v, w, ie)); c.out("v", *v); c.out("w", *w); c.finish(); }
OP(Wtime) {    // readings over a while, each bracketed by the system clock (milliseconds); the worst one is logged
  long ms = c.I("ms");
  if (!c.F() ? !(void *)MPI_Wtime : !(void *)mpi_wtime_) { c.begin(); c.back(); c.finish("missing"); return; }
  auto clk = [](clockid_t k) { struct timespec t; clock_gettime(k, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; };
  auto now = [&] { return clk(CLOCK_REALTIME); };
  auto wt = [&] { return c.F() ? mpi_wtime_() : MPI_Wtime(); };
  auto cl = [](double x) { return !(x > -1e6) ? -1000000000L : x > 1e6 ? 1000000000L : lround(x * 1000); };
  c.begin();
  long d = 0, lo = 0, hi = 0, d0 = 0;
  for (int tries = 0; tries < 5; tries++) {
    double r0 = now() - clk(CLOCK_MONOTONIC), a0 = now(), w0 = wt(), last = wt(), a1 = now(), worst = -1;
    d0 = last < w0 ? -1 : 0;
    int steps = ms >= 100 ? (int)(ms / 10) : 1;
    for (int k = 0; k < steps; k++) {
      usleep((useconds_t)(ms * 1000 / steps)); double b0 = now(), w1 = wt(), b1 = now();
      if (w1 < last) d0 = -1;
      last = w1;
      double x = w1 - w0, off = x < b0 - a1 ? b0 - a1 - x : x > b1 - a0 ? x - (b1 - a0) : 0;
      if (!(off <= worst)) { worst = off; d = cl(x); lo = cl(b0 - a1); hi = cl(b1 - a0); }
    }
    double r1 = now() - clk(CLOCK_MONOTONIC);
    if (fabs(r1 - r0) < 0.0005) break;       // else: the system clock was set meanwhile
  }
  c.back();
  c.out("ret", 0L); c.out("d", d); c.out("d0", d0); c.out("lo", lo); c.out("hi", hi); c.finish();
}
OP(Conv) {   // handle conversions between the languages
  int k = (int)c.I("kind"), h = (int)c.I("h"); long r = -777, s = -777;
  c.begin();
  switch (k) {
    case 0: r = MPI_Comm_c2f(h); s = MPI_Comm_f2c((MPI_Fint)r); break;
    case 1: r = MPI_Request_c2f(h); s = MPI_Request_f2c((MPI_Fint)r); break;
    case 2: r = MPI_Group_c2f(cgrp(h)); s = bgrp(MPI_Group_f2c((MPI_Fint)r)); r = bgrp((int)r); break;
    case 3: r = MPI_Op_c2f(h); s = MPI_Op_f2c((MPI_Fint)r); break;
  }
  c.back(); c.out("ret", 0L); c.out("f", r); c.out("h", s); c.finish();
}

// constants: C value, value in mpif.h, value in module mpi
OP(Consts) {
  std::map<string, long> cv;
#define K(n) cv[#n] = (long)n;
#include "consts.inc"
#undef K
  string l = "["; int n = vfshim_nconst_(); long cnt = 0;
  for (int i = 1; i <= n; i++) {
    int a = 0, m = 0; char nm[64]; vfshim_const_(&i, &a, &m, nm); nm[63] = 0;
    string s; for (int j = 0; j < 63 && nm[j] != ' ' && nm[j]; j++) s += nm[j];
    if (!cv.count(s)) continue;
    if (cnt++) l += ","; l += "[\"" + s + "\"," + std::to_string(cv[s]) + "," + std::to_string(a) + "," + std::to_string(m) + "]";
  }
  l += "]"; c.begin(); c.back(); c.out("ret", 0L); c.out("cs", l); c.finish();
}
// language sizes of predefined types: [canon, size of the language type] from the compilers,
// pair types: [canon, offset of the second member, sizeof the struct]
OP(LangSizes) {
  vector<vector<long>> v, p;
#define S(n, ty) v.push_back({n, (long)sizeof(ty)});
  S(-1, char) S(-46, signed char) S(-47, wchar_t) S(-2, short) S(-3, int) S(-4, long) S(-5, unsigned char) S(-6, unsigned short)
  S(-7, unsigned) S(-8, unsigned long) S(-9, float) S(-10, double) S(-11, long double) S(-12, char) S(-43, long long)
  S(-44, unsigned long long) S(-45, MPI_Offset)
#undef S
  for (int k = 16; k <= 42; k++) { int canon = -k; int z = vfshim_fsize_(&canon); if (z > 0) v.push_back({canon, z}); }
#define P(n, A) { struct X { A a; int b; }; p.push_back({n, (long)offsetof(X, b), (long)sizeof(X)}); }
  P(-26, float) P(-27, double) P(-28, long) P(-29, int) P(-30, short) P(-31, long double)
#undef P
  c.begin(); c.back(); c.out("ret", 0L); c.out("sz", jp(v)); c.out("pr", jp(p)); c.finish();
}

// ---------------------------------------------------------------- bulk operations
struct Bulk { string kind; vector<int> h; std::set<long> gone; bool wrong = false; };
static std::map<long, Bulk> bulks;
static vector<vector<long>> runs(vector<int> h) {
  std::sort(h.begin(), h.end()); vector<vector<long>> r;
  for (int x : h) if (!r.empty() && r.back()[1] + 1 == x) r.back()[1] = x; else r.push_back({x, x});
  return r;
}
static unsigned rngs; static unsigned rng() { rngs = rngs * 1664525u + 1013904223u; return rngs >> 8; }
// open n objects.  kind: pn (PROC_NULL receives), rq (receives, tag 1000+i), sq (sends, tag 1000+i), ty (duplicates of int), cm (communicators)
static void bulk_open(Call &c, const string &kind, vector<int> &h, long n, int comm, long &bad) {
  char *buf = (char *)toptr(20000); int one = 1, i4 = MPI_INT, zero = 0, pn = MPI_PROC_NULL, ie = 0;
  for (long i = 0; i < n; i++) {
    int x = -77, tg = 1000 + (int)i;
    if (kind == "pn") { if (c.F()) mpi_irecv_(buf, &one, &i4, &pn, &tg, &comm, &x, &ie); else MPI_Irecv(buf, 1, MPI_INT, MPI_PROC_NULL, tg, comm, &x); }
    else if (kind == "rq") { if (c.F()) mpi_irecv_(buf + 4 * (i % 64), &one, &i4, &zero, &tg, &comm, &x, &ie); else MPI_Irecv(buf + 4 * (i % 64), 1, MPI_INT, 0, tg, comm, &x); }
    else if (kind == "sq") { if (c.F()) mpi_isend_(buf + 1024 + 4 * (i % 64), &one, &i4, &zero, &tg, &comm, &x, &ie); else MPI_Isend(buf + 1024 + 4 * (i % 64), 1, MPI_INT, 0, tg, comm, &x); }
    else if (kind == "ty") { int k = 1 + (int)(i % 5); if (c.F()) mpi_type_contiguous_(&k, &i4, &x, &ie); else MPI_Type_contiguous(k, MPI_INT, &x); }
    else if (kind == "cm") { if (c.F()) mpi_comm_dup_(&comm, &x, &ie); else MPI_Comm_dup(comm, &x); }
    if (x == 0) bad++;
    h.push_back(x);
  }
}
OP(BulkOpen) {
  long id = c.I("id"), n = c.I("n"); string kind = c.kv["kind"]; c.arg("kind", "\"" + kind + "\""); int comm = CM("comm");
  Bulk b; b.kind = kind; long bad = 0; b.h.reserve(n);
  c.begin(); bulk_open(c, kind, b.h, n, comm, bad); c.back();
  vector<int> s = b.h; std::sort(s.begin(), s.end()); long dup = 0; for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) dup++;
  c.out("ret", 0L); c.out("bad", bad); c.out("dup", dup);
  b.wrong = bad || dup; c.out("runs", b.wrong ? string("[]") : jp(runs(b.h)));      // rejected anyway; the list could be huge
  bulks[id] = b; c.finish();
}
// release objects from..from+n-1 (in opening order) in order fwd / rev / shuffled; bad counts every release that did not
// behave as the object should (status, identity, null handle)
OP(BulkClose) {
  long id = c.I("id"), order = c.I("order"); Bulk &b = bulks[id]; long from = c.I("from"), n = c.I("n"); int comm = CM("comm");
  vector<long> ix; for (long i = from; i < from + n && i < (long)b.h.size(); i++) ix.push_back(i);
  if (order == 1) std::reverse(ix.begin(), ix.end());
  if (order == 2) { rngs = (unsigned)seed + 77u; for (size_t i = ix.size(); i > 1; i--) std::swap(ix[i - 1], ix[rng() % i]); }
  vector<int> gone; long bad = 0; char *buf = (char *)toptr(20000 + 4096); int one = 1, i4 = MPI_INT, zero = 0, ie = 0;
  c.begin();
  for (long i : ix) {
    int x = b.h[i], fl = -7, tg = 1000 + (int)i; MPI_Status st; memset(&st, 0x33, sizeof st);
    gone.push_back(x);
    if (b.kind == "pn") {
      if (c.F()) mpi_wait_(&x, &st, &ie); else MPI_Wait(&x, &st);
      if (st.MPI_SOURCE != MPI_PROC_NULL || st.MPI_TAG != MPI_ANY_TAG) bad++;
    } else if (b.kind == "rq") {
      MPI_Test(&x, &fl, &st); if (fl || x != b.h[i]) bad++;
      if (c.F()) mpi_send_(buf, &one, &i4, &zero, &tg, &comm, &ie); else MPI_Send(buf, 1, MPI_INT, 0, tg, comm);
      if (c.F()) mpi_wait_(&x, &st, &ie); else MPI_Wait(&x, &st);
      if (st.MPI_SOURCE != 0 || st.MPI_TAG != tg) bad++;
    } else if (b.kind == "sq") {
      MPI_Test(&x, &fl, &st); if (fl || x != b.h[i]) bad++;
      if (c.F()) mpi_recv_(buf + 64, &one, &i4, &zero, &tg, &comm, &st, &ie); else MPI_Recv(buf + 64, 1, MPI_INT, 0, tg, comm, &st);
      if (st.MPI_SOURCE != 0 || st.MPI_TAG != tg) bad++;
      MPI_Test(&x, &fl, MPI_STATUS_IGNORE); if (!fl) bad++;
    } else if (b.kind == "ty") {
      int z = -1; MPI_Type_size(x, &z); if (z != 4 * (1 + (int)(i % 5))) bad++;
      if (c.F()) mpi_type_free_(&x, &ie); else MPI_Type_free(&x);
    } else if (b.kind == "cm") {
      MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, x, &fl, &st); if (fl) bad++;
      if (c.F()) mpi_comm_free_(&x, &ie); else MPI_Comm_free(&x);
    }
    if (x != 0) bad++;
  }
  vector<int> left; { std::set<long> g(ix.begin(), ix.end()); for (long i = 0; i < (long)b.h.size(); i++) if (!b.gone.count(i) && !g.count(i)) left.push_back(b.h[i]); for (long i : ix) b.gone.insert(i); }
  c.back(); c.out("ret", 0L); c.out("bad", bad); b.wrong |= bad != 0;
  c.out("runs", b.wrong ? string("[]") : jp(runs(gone))); c.out("left", b.wrong ? string("[]") : jp(runs(left)));
  // the transfers of rq/sq land in scratch memory that the specification does not follow
  for (int w = 0; w <= KMAX - KMIN; w++) memcpy(win[w], shadow[w], WIN);
  c.finish();
}
// One large transfer between two regions of its own, made three times with the source filled so that every byte of the
// destination tells the offset of the source byte it came from.
static const long BIGR = 48L << 20, BIGBASE = 16L << 20;
static unsigned char *bigs, *bigd;
OP(BigMove) {
  string how = c.kv["how"]; c.arg("how", "\"" + how + "\"");
  int n = (int)c.I("n"), m = (int)c.I("m"), t = TY("t"), u = TY("u"), cm = CM("comm"), g = (int)c.I("g");
  if (!bigs) {
    bigs = (unsigned char *)mmap(0, BIGR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    bigd = (unsigned char *)mmap(0, BIGR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  // the part of the regions a transfer can touch, given by the script: [lo, hi) around the base
  long lo = c.has("lo") ? strtol(c.kv["lo"].c_str(), 0, 10) : 0, hi = strtol(c.kv["hi"].c_str(), 0, 10);
  lo -= 4096; lo -= (lo % g + g) % g; hi += 4096; hi -= hi % g;
  if (BIGBASE + lo < 0 || BIGBASE + hi > BIGR) { fprintf(stderr, "BigMove range\n"); _exit(98); }
  unsigned char *S = bigs + BIGBASE, *D = bigd + BIGBASE;
  vector<long> from((size_t)(hi - lo), 0); vector<char> ch((size_t)(hi - lo), 0);
  long cnt = 0, el = 0, bad = 0; MPI_Status st;
  int zero = 0, one = 7, ie = 0, F = c.F(), c0 = 0, e0 = 0, any = MPI_ANY_TAG, asrc = MPI_ANY_SOURCE, oh = MPI_SUM, rq[2] = {0, 0}, two = 2;
  c.begin();
  for (int pass = 0; pass < 3; pass++) {
    long p = pass == 0 ? 1 : pass == 1 ? 250 : 62500;
    for (long x = lo; x < hi; x++) S[x] = (unsigned char)(((x - lo) / p) % 250);
    memset(D + lo, 251, (size_t)(hi - lo));
    memset(&st, 0, sizeof st); c0 = e0 = 0; bool p2p = false;
    if (how == "Isend") {
      if (F) { mpi_isend_(S, &n, &t, &zero, &one, &cm, rq, &ie); mpi_recv_(D, &m, &u, &asrc, &any, &cm, &st, &ie); mpi_wait_(rq, MPI_STATUS_IGNORE, &ie); }
      else { MPI_Isend(S, n, t, 0, 7, cm, rq); MPI_Recv(D, m, u, MPI_ANY_SOURCE, MPI_ANY_TAG, cm, &st); MPI_Wait(rq, MPI_STATUS_IGNORE); }
      p2p = true;
    } else if (how == "Irecv") {
      if (F) { mpi_irecv_(D, &m, &u, &zero, &any, &cm, rq, &ie); mpi_send_(S, &n, &t, &zero, &one, &cm, &ie); mpi_wait_(rq, &st, &ie); }
      else { MPI_Irecv(D, m, u, 0, MPI_ANY_TAG, cm, rq); MPI_Send(S, n, t, 0, 7, cm); MPI_Wait(rq, &st); }
      p2p = true;
    } else if (how == "Both") {
      MPI_Status ss[2]; memset(ss, 0, sizeof ss);
      if (F) { mpi_irecv_(D, &m, &u, &zero, &one, &cm, rq, &ie); mpi_isend_(S, &n, &t, &zero, &one, &cm, rq + 1, &ie); mpi_waitall_(&two, rq, ss, &ie); }
      else { MPI_Irecv(D, m, u, 0, 7, cm, rq); MPI_Isend(S, n, t, 0, 7, cm, rq + 1); MPI_Waitall(2, rq, ss); }
      st = ss[0]; p2p = true;
    } else if (how == "Probe") {
      if (F) { mpi_isend_(S, &n, &t, &zero, &one, &cm, rq, &ie); mpi_probe_(&asrc, &any, &cm, &st, &ie); }
      else { MPI_Isend(S, n, t, 0, 7, cm, rq); MPI_Probe(MPI_ANY_SOURCE, MPI_ANY_TAG, cm, &st); }
      int k = 0; MPI_Get_count(&st, t, &k); if (k != n) { int z = 0; MPI_Type_size(t, &z); if (z) bad++; }
      MPI_Recv(D, m, u, 0, 7, cm, &st); MPI_Wait(rq, MPI_STATUS_IGNORE); p2p = true;
    } else if (how == "Sendrecv") {
      if (F) mpi_sendrecv_(S, &n, &t, &zero, &one, D, &m, &u, &zero, &any, &cm, &st, &ie);
      else MPI_Sendrecv(S, n, t, 0, 7, D, m, u, 0, MPI_ANY_TAG, cm, &st);
      p2p = true;
    } else if (how == "Pack") {
      int sz = 0; MPI_Type_size(t, &sz); long nb = (long)sz * n; vector<unsigned char> q((size_t)nb + 64, 252); int pos = 0, lim = (int)nb; long ps = -1; int psi = -1;
      if (F) { mpi_pack_size_(&n, &t, &cm, &psi, &ie); ps = psi; } else MPI_Pack_size(n, t, cm, &ps);
      if (F) mpi_pack_(S, &n, &t, q.data(), &lim, &pos, &cm, &ie); else MPI_Pack(S, n, t, q.data(), lim, &pos, cm);
      if (pos != nb || ps != nb) bad++;
      for (int i = 0; i < 64; i++) if (q[(size_t)nb + i] != 252) bad++;
      pos = 0;
      if (F) mpi_unpack_(q.data(), &lim, &pos, D, &m, &u, &cm, &ie); else MPI_Unpack(q.data(), lim, &pos, D, m, u, cm);
      int zu = 0; MPI_Type_size(u, &zu); if (pos != (long)zu * m) bad++;
      el = ps;
    }
#define BIGC(CN, FN, CA, FA) else if (how == #CN) { if (F) FN FA; else MPI_##CN CA; }
    BIGC(Allgather, mpi_allgather_, (S, n, t, D, m, u, cm), (S, &n, &t, D, &m, &u, &cm, &ie))
    BIGC(Allgatherv, mpi_allgatherv_, (S, n, t, D, &m, &zero, u, cm), (S, &n, &t, D, &m, &zero, &u, &cm, &ie))
    BIGC(Gather, mpi_gather_, (S, n, t, D, m, u, 0, cm), (S, &n, &t, D, &m, &u, &zero, &cm, &ie))
    BIGC(Gatherv, mpi_gatherv_, (S, n, t, D, &m, &zero, u, 0, cm), (S, &n, &t, D, &m, &zero, &u, &zero, &cm, &ie))
    BIGC(Scatter, mpi_scatter_, (S, n, t, D, m, u, 0, cm), (S, &n, &t, D, &m, &u, &zero, &cm, &ie))
    BIGC(Scatterv, mpi_scatterv_, (S, &n, &zero, t, D, m, u, 0, cm), (S, &n, &zero, &t, D, &m, &u, &zero, &cm, &ie))
    BIGC(Alltoall, mpi_alltoall_, (S, n, t, D, m, u, cm), (S, &n, &t, D, &m, &u, &cm, &ie))
    BIGC(Alltoallv, mpi_alltoallv_, (S, &n, &zero, t, D, &m, &zero, u, cm), (S, &n, &zero, &t, D, &m, &zero, &u, &cm, &ie))
    BIGC(Alltoallw, mpi_alltoallw_, (S, &n, &zero, &t, D, &m, &zero, &u, cm), (S, &n, &zero, &t, D, &m, &zero, &u, &cm, &ie))
    BIGC(Reduce, mpi_reduce_, (S, D, n, t, oh, 0, cm), (S, D, &n, &t, &oh, &zero, &cm, &ie))
    BIGC(Allreduce, mpi_allreduce_, (S, D, n, t, oh, cm), (S, D, &n, &t, &oh, &cm, &ie))
    else if (how == "ReduceScatter") { if (F) mpi_reduce_scatter_(S, D, &n, &t, &oh, &cm, &ie); else MPI_Reduce_scatter(S, D, &n, t, oh, cm); }
    BIGC(Scan, mpi_scan_, (S, D, n, t, oh, cm), (S, D, &n, &t, &oh, &cm, &ie))
    if (p2p) {
      if (F) { mpi_get_count_(&st, &u, &c0, &ie); mpi_get_elements_(&st, &u, &e0, &ie); } else { MPI_Get_count(&st, u, &c0); MPI_Get_elements(&st, u, &e0); }
      if (st.MPI_TAG != 7 || st.MPI_SOURCE != 0 || rq[0] || rq[1]) bad++;
      if (pass && (bund(c0) != cnt || bund(e0) != el)) bad++;
      cnt = bund(c0); el = bund(e0);
    }
    for (long x = lo; x < hi; x++) {
      size_t i = (size_t)(x - lo); bool c1 = D[x] != 251;
      if (pass && c1 != (ch[i] != 0)) bad++;
      if (c1) { ch[i] = 1; from[i] += D[x] * p; }
      if (S[x] != (unsigned char)(((x - lo) / p) % 250)) bad++;
    }
  }
  c.back();
  // granules of g bytes; the report starts at the first changed one
  vector<long> map; long moved = 0, first = -1, last = -1, off = ((lo % g) + g) % g ? g - ((lo % g) + g) % g : 0;
  for (long i = off; i + g <= hi - lo; i += g) {
    long k = 0; for (int j = 0; j < g; j++) k += ch[(size_t)(i + j)];
    if (k && k != g) bad++;
    for (int j = 1; k && j < g; j++) if (from[(size_t)(i + j)] != from[(size_t)i] + j) { bad++; break; }
    if (k) { moved++; if (first < 0) first = i; last = i; }
  }
  if (first >= 0 && !bad) for (long i = first; i <= last; i += g) map.push_back(ch[(size_t)i] ? from[(size_t)i] + lo : -2000000000L);
  c.out("ret", (long)(ie != MPI_SUCCESS && F)); c.out("bad", bad > 1000 ? 1000 : bad); c.out("cnt", cnt); c.out("el", el); c.out("moved", moved);
  c.out("lo", first >= 0 ? first + lo : 0L); c.out("map", js(map)); c.finish();
}
// n times: create, use and release
OP(Cycle) {
  string kind = c.kv["kind"]; c.arg("kind", "\"" + kind + "\""); long n = c.I("n"); int comm = CM("comm"); long bad = 0;
  char *buf = (char *)toptr(20000); MPI_Status st;
  c.begin();
  for (long i = 0; i < n; i++) {
    int x = 0, y = 0, fl = 0; int tg = (int)(i % 7);
    if (kind == "pn") { MPI_Isend(buf, 1, MPI_INT, MPI_PROC_NULL, tg, comm, &x); MPI_Wait(&x, MPI_STATUS_IGNORE); }
    else if (kind == "sr") { MPI_Isend(buf, 1, MPI_INT, 0, tg, comm, &x); MPI_Recv(buf + 64, 1, MPI_INT, 0, tg, comm, &st); MPI_Wait(&x, MPI_STATUS_IGNORE); }
    else if (kind == "rs") { MPI_Irecv(buf + 64, 1, MPI_INT, 0, MPI_ANY_TAG, comm, &x); MPI_Send(buf, 1, MPI_INT, 0, tg, comm); MPI_Test(&x, &fl, &st); if (!fl || st.MPI_TAG != tg) bad++; }
    else if (kind == "rf") { MPI_Irecv(buf + 64, 1, MPI_INT, 0, tg, comm, &x); MPI_Request_free(&x); MPI_Send(buf, 1, MPI_INT, 0, tg, comm); }
    else if (kind == "sf") { MPI_Isend(buf, 1, MPI_INT, 0, tg, comm, &x); MPI_Request_free(&x); MPI_Recv(buf + 64, 1, MPI_INT, 0, MPI_ANY_TAG, comm, MPI_STATUS_IGNORE); }
    else if (kind == "cf") { MPI_Irecv(buf + 64, 1, MPI_INT, 0, tg, comm, &x); MPI_Send(buf, 1, MPI_INT, 0, tg, comm); MPI_Request_free(&x); }
    else if (kind == "ty") { int t; MPI_Type_vector(3, 1, 2, MPI_INT, &t); MPI_Type_dup(t, &y); MPI_Type_commit(&t); MPI_Type_free(&t); MPI_Type_free(&y); x = t; }
    else if (kind == "cm") { MPI_Comm_dup(comm, &x); MPI_Comm_free(&x); }
    else if (kind == "ct") { int d[2] = {1, 1}, p[2] = {0, 1}; MPI_Cart_create(comm, 2, d, p, 0, &x); MPI_Comm_free(&x); }
    else if (kind == "pr") { MPI_Isend(buf, 1, MPI_INT, 0, tg, comm, &x); MPI_Probe(0, tg, comm, &st); MPI_Iprobe(0, tg, comm, &fl, &st); MPI_Sendrecv(buf, 1, MPI_INT, MPI_PROC_NULL, 1, buf + 64, 1, MPI_INT, 0, tg, comm, &st); MPI_Waitall(1, &x, MPI_STATUSES_IGNORE); }
    else if (kind == "an") { int r[3]; MPI_Irecv(buf + 64, 1, MPI_INT, 0, tg, comm, &r[0]); r[1] = MPI_REQUEST_NULL; MPI_Isend(buf, 1, MPI_INT, 0, tg, comm, &r[2]); int k, ixs[3]; MPI_Waitany(3, r, &k, &st); MPI_Testsome(3, r, &k, ixs, MPI_STATUSES_IGNORE); x = r[0]; y = r[2]; }
    else if (kind == "sp") { MPI_Comm_split(comm, 0, 0, &x); MPI_Intercomm_create(x, 0, comm, 0, 1, &y); int z = 0; MPI_Intercomm_merge(y, 0, &z); MPI_Comm_free(&z); MPI_Comm_free(&y); MPI_Comm_free(&x); }
    if (x || y) bad++;
  }
  c.back(); c.out("ret", 0L); c.out("bad", bad);
  for (int w = 0; w <= KMAX - KMIN; w++) memcpy(win[w], shadow[w], WIN);
  c.finish();
}
