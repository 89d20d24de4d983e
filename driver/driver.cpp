// Conformance driver: executes scripts of MPI calls against the real library and
// records one JSON event per call (arguments, results, every observable effect).
// The recorded traces are judged by the TLA+ specification (spec/Trace.tla); this
// program contains no expectation about what a call should do.
//
//   driver SCRIPT LOG SEED [key=value ...]
//
// Every scenario ("@ name" line starts one) runs in a forked child.  Arguments are
// written to shared memory before the call is made and results after it, so that the
// parent can complete the record of a call that never returned.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <cctype>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <stddef.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <errno.h>
#include <sys/wait.h>

extern "C" {
#include "mpi.h"
extern int MPI_Get_Version(int *, int *);
}
#include "symbols.inc"      // weak declarations, C and Fortran

extern "C" {
  // fortran shim (real Fortran code, includes mpif.h / uses module mpi)
  void vfshim_addresses_(void **ignore, void **ignores, void **inplace);
  int vfshim_nconst_(void);
  void vfshim_const_(int *i, int *inc, int *mod, char *name);
  int vfshim_fsize_(int *canon);
}

using std::string;
using std::vector;

// ------------------------------------------------------------------ instrumented heap
#if defined(__SANITIZE_ADDRESS__)
#define IS_ASAN 1
#else
#define IS_ASAN 0
#endif

static long lib_bytes = 0, lib_blocks = 0;
static std::unordered_map<void *, size_t> *lib_table = nullptr;
static bool lib_track = false;

#if !IS_ASAN
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static void lib_add(void *p, size_t n) {
  if (p && lib_track) { (*lib_table)[p] = n; lib_bytes += (long)n; lib_blocks++; }
}
static void lib_del(void *p) {
  if (!p || !lib_track) return;
  auto it = lib_table->find(p);
  if (it != lib_table->end()) {
    lib_bytes -= (long)it->second; lib_blocks--;
    memset(p, 0x5a, it->second);            // make use after free visible
    lib_table->erase(it);
  }
}
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (p && lib_track && n <= (1u << 26)) memset(p, 0xa5, n);  // make uninitialised reads visible
  lib_add(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); lib_add(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) {
  void *p = __wrap_malloc(n);
  if (p && q) {
    size_t old = n;
    if (lib_table) { auto it = lib_table->find(q); if (it != lib_table->end()) old = it->second; }
    memcpy(p, q, old < n ? old : n);
    lib_del(q); __real_free(q);
  }
  return p;
}
void __wrap_free(void *p) { lib_del(p); __real_free(p); }
}
#endif

// ------------------------------------------------------------------ simulated host name
// of hostlen characters (< 0: the real one); where it does not fit, it is cut without a
// terminating NUL (as POSIX allows) or refused (as glibc does)
static long hostlen = -1;
static int hostcut = 0;
extern "C" int gethostname(char *name, size_t len) noexcept {
  struct utsname u; string h;
  if (hostlen < 0) { uname(&u); h = u.nodename; } else for (long i = 0; i < hostlen; i++) h += (char)('a' + i % 26);
  size_t n = h.size() + 1;
  memcpy(name, h.c_str(), n < len ? n : len);
  if (n <= len || hostcut) return 0;
  errno = ENAMETOOLONG; return -1;
}

// ------------------------------------------------------------------ simulated memory
// model address  m = k*10^6 + r   <->   real address  base + k*2^33 + r
static const long MUNIT = 1000000L, RUNIT = 1L << 33;
static const long MABS = 500 * MUNIT;
static const int KMIN = -3, KMAX = 6, WIN = 32768;
static const long UNMAPPABLE = -2000000001L;
static char *base = nullptr;
static unsigned char *win[KMAX - KMIN + 1], *shadow[KMAX - KMIN + 1], *pristine[KMAX - KMIN + 1];
static int seed = 1;

static int initbyte(int k, int r) { return (int)((r * 167L + (r / 251) * 59L + (k + 7) * 31L + seed) % 251); }

static long floordiv(long a, long b) { long q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static long conv(long m) { long k = floordiv(m + MUNIT / 2, MUNIT); return k * RUNIT + (m - k * MUNIT); }
static long unconv(long v) {
  long k = floordiv(v + RUNIT / 2, RUNIT), r = v - k * RUNIT;
  if (r <= -MUNIT / 2 || r >= MUNIT / 2 || k < -400 || k > 400) return UNMAPPABLE;
  return k * MUNIT + r;
}
static long toaint(long m) {                 // model -> MPI_Aint
  if (m >= 400 * MUNIT) return (long)base + conv(m - MABS);
  if (m <= -400 * MUNIT) return -(long)base + conv(m + MABS);
  return conv(m);
}
static long fromaint(long v) {
  if (labs(v - (long)base) < (1L << 42)) { long u = unconv(v - (long)base); return u == UNMAPPABLE ? u : u + MABS; }
  if (labs(v + (long)base) < (1L << 42)) { long u = unconv(v + (long)base); return u == UNMAPPABLE ? u : u - MABS; }
  return unconv(v);
}
static void *toptr(long m) {
  if (m == -MABS) return MPI_BOTTOM;
  return (void *)(base + conv(m));
}

// ------------------------------------------------------------------ shared record
struct Shared {
  volatile long len;          // bytes of complete + partial text
  volatile long complete;     // bytes of complete events
  volatile long obase, ebase; // output sizes at the start of the pending call
  volatile int incall;
  volatile long nev;
};
static Shared *sh;
static char *logbuf;
static const long LOGMAX = 64L << 20;
static int fdout, fderr;      // memfds behind the child's stdout and stderr

static void put(const string &s) {
  if (sh->len + (long)s.size() >= LOGMAX) _exit(97);
  memcpy(logbuf + sh->len, s.data(), s.size());
  sh->len += (long)s.size();
}
static long fsize(int fd) { struct stat b; fstat(fd, &b); return b.st_size; }
static string readfrom(int fd, long from) {
  string s; long n = fsize(fd) - from;
  if (n <= 0) return s;
  s.resize(n); ssize_t g = pread(fd, &s[0], n, from); s.resize(g > 0 ? g : 0);
  return s;
}
static string js(const vector<long> &v) {
  string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += std::to_string(v[i]); } return s + "]";
}
static string jp(const vector<vector<long>> &v) {
  string s = "["; for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += js(v[i]); } return s + "]";
}
static string esc(const string &t) {
  string s; for (unsigned char c : t) if (c == '"' || c == '\\') { s += '\\'; s += c; } else if (c < 32 || c > 126) s += '?'; else s += c;
  return s;
}
static bool inscratch_changed(vector<vector<long>> &chg) {
  bool many = false;
  for (int w = 0; w <= KMAX - KMIN; w++) {
    if (!memcmp(win[w], shadow[w], WIN)) continue;
    for (int i = 0; i < WIN; i++)
      if (win[w][i] != shadow[w][i]) {
        if (chg.size() < 4000) chg.push_back({(w + KMIN) * MUNIT + i, win[w][i]}); else many = true;
        shadow[w][i] = win[w][i];
      }
  }
  return many;
}
// words of the output: numbers on lines mentioning send / receive operations
static void pendingnums(const string &t, vector<long> &ws, vector<long> &wr) {
  size_t p = 0;
  while (p < t.size()) {
    size_t q = t.find('\n', p); if (q == string::npos) q = t.size();
    string l = t.substr(p, q - p); p = q + 1;
    string low; for (char c : l) low += (char)tolower(c);
    vector<long> n;
    for (size_t i = 0; i < l.size();) if (isdigit(l[i]) && n.size() < 20) { size_t j = i; long v = 0; while (j < l.size() && isdigit(l[j])) { if (v < 100000000) v = v * 10 + (l[j] - '0'); j++; } n.push_back(v); i = j; } else i++;
    if (low.find("send") != string::npos) for (long v : n) ws.push_back(v);
    if (low.find("rec") != string::npos) for (long v : n) wr.push_back(v);
  }
}

// ------------------------------------------------------------------ statuses
static const int NST = 96, STG = 4;
static MPI_Status stmem[NST + 2 * STG], stshadow[NST + 2 * STG];
static MPI_Status *st0 = stmem + STG;

// ------------------------------------------------------------------ constants
struct TypeName { int canon; int actual; const char *name; };
static vector<TypeName> tnames;
static std::map<int, int> c2a, a2c;
static void *f_ign, *f_igns, *f_inpl;

// Fortran's MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE, MPI_IN_PLACE are variables nobody may write to
static char sentinel[2 * sizeof(MPI_Status) + sizeof(int)];
static void sentinelcopy(char *to) { memcpy(to, f_ign, sizeof(MPI_Status)); memcpy(to + sizeof(MPI_Status), f_igns, sizeof(MPI_Status)); memcpy(to + 2 * sizeof(MPI_Status), f_inpl, sizeof(int)); }
static long sentinels() {
  char now[sizeof sentinel]; sentinelcopy(now);
  if (!memcmp(now, sentinel, sizeof now)) return 0;
  memcpy(sentinel, now, sizeof now); return 1;
}

static void init_types() {
#define T(c, n) tnames.push_back({c, n, #n})
  T(-1, MPI_CHAR); T(-46, MPI_SIGNED_CHAR); T(-47, MPI_WCHAR); T(-2, MPI_SHORT); T(-3, MPI_INT); T(-4, MPI_LONG);
  T(-5, MPI_UNSIGNED_CHAR); T(-6, MPI_UNSIGNED_SHORT); T(-7, MPI_UNSIGNED); T(-8, MPI_UNSIGNED_LONG);
  T(-9, MPI_FLOAT); T(-10, MPI_DOUBLE); T(-11, MPI_LONG_DOUBLE); T(-12, MPI_BYTE); T(-13, MPI_PACKED);
  T(-14, MPI_LB); T(-15, MPI_UB); T(-16, MPI_INTEGER); T(-17, MPI_REAL); T(-18, MPI_DOUBLE_PRECISION);
  T(-19, MPI_COMPLEX); T(-20, MPI_DOUBLE_COMPLEX); T(-21, MPI_LOGICAL); T(-22, MPI_CHARACTER);
  T(-23, MPI_2REAL); T(-24, MPI_2DOUBLE_PRECISION); T(-25, MPI_2INTEGER); T(-26, MPI_FLOAT_INT);
  T(-27, MPI_DOUBLE_INT); T(-28, MPI_LONG_INT); T(-29, MPI_2INT); T(-30, MPI_SHORT_INT); T(-31, MPI_LONG_DOUBLE_INT);
  T(-32, MPI_INTEGER1); T(-33, MPI_INTEGER2); T(-34, MPI_INTEGER4); T(-35, MPI_INTEGER8); T(-36, MPI_INTEGER16);
  T(-37, MPI_REAL4); T(-38, MPI_REAL8); T(-39, MPI_REAL16); T(-40, MPI_COMPLEX8); T(-41, MPI_COMPLEX16);
  T(-42, MPI_COMPLEX32); T(-43, MPI_LONG_LONG_INT); T(-44, MPI_UNSIGNED_LONG_LONG); T(-45, MPI_OFFSET);
#undef T
  for (auto &t : tnames) { c2a[t.canon] = t.actual; a2c[t.actual] = t.canon; }
}
static int ctype(int c) { if (c > 0) return c; if (c == 0) return MPI_DATATYPE_NULL; auto it = c2a.find(c); return it == c2a.end() ? c : it->second; }
static long btype(int a) { if (a == MPI_DATATYPE_NULL) return 0; auto it = a2c.find(a); return it == a2c.end() ? (long)a : (long)it->second; }
static int ctag(int t) { return t == -1 ? MPI_ANY_TAG : t; }
static long btag(int t) { return t == MPI_ANY_TAG ? -1 : t; }
static int csrc(int t) { return t == -1 ? MPI_ANY_SOURCE : t == -2 ? MPI_PROC_NULL : t; }
static long bsrc(int t) { return t == MPI_PROC_NULL ? -2 : t == MPI_ANY_SOURCE ? -1 : t; }
static int croot(int t) { return t == -3 ? MPI_ROOT : t == -2 ? MPI_PROC_NULL : t; }
static long bund(int t) { return t == MPI_UNDEFINED ? -1 : t; }
static int cgrp(int g) { return g == -1 ? MPI_GROUP_EMPTY : g == 0 ? MPI_GROUP_NULL : g; }
static long bgrp(int g) { return g == MPI_GROUP_EMPTY ? -1 : g == MPI_GROUP_NULL ? 0 : g; }

// ------------------------------------------------------------------ one call
typedef std::map<string, string> KV;
static std::map<string, int> vars;

template <class X> struct Buf { X *p; size_t n; vector<X> orig; bool input; char *raw; size_t rawn; };

struct Call {
  string op; char b; KV kv;
  string a, o;                       // JSON members
  vector<Buf<int>> ib; vector<Buf<long>> lb; vector<Buf<char>> cb;
  vector<int> slots;                 // designated status slots
  bool missing = false;
  int extra = 0;             // outputs past the documented ones
  bool F() const { return b == 'f'; }

  // ---- script access
  bool has(const string &k) { return kv.count(k) > 0; }
  static long val(const string &t) {
    if (t.empty()) return 0;
    if (t[0] == '$') { auto it = vars.find(t); return it == vars.end() ? 0 : it->second; }
    return strtol(t.c_str(), 0, 10);
  }
  static vector<string> split(const string &s) {
    vector<string> r; if (s.empty() || s == "[]") return r;
    size_t p = 0; while (true) { size_t q = s.find(',', p); r.push_back(s.substr(p, q == string::npos ? q : q - p)); if (q == string::npos) break; p = q + 1; }
    return r;
  }
  void arg(const string &k, const string &json) { if (!a.empty()) a += ","; a += "\"" + k + "\":" + json; }
  void out(const string &k, const string &json) { if (!o.empty()) o += ","; o += "\"" + k + "\":" + json; }
  void out(const string &k, long v) { out(k, std::to_string(v)); }
  long I(const string &k, long dflt = 0) { long v = has(k) ? val(kv[k]) : dflt; arg(k, std::to_string(v)); return v; }
  vector<long> L(const string &k) { vector<long> v; for (auto &t : split(kv[k])) v.push_back(val(t)); arg(k, js(v)); return v; }
  // ---- guarded storage
  template <class X> X *mk(vector<Buf<X>> &pool, const vector<X> &v, bool input) {
    const size_t G = 64;
    size_t n = v.size(), bytes = n * sizeof(X);
    if (n == 0 && has("nil")) return nullptr;       // arrays of no elements as null pointers
    Buf<X> b; b.n = n; b.orig = v; b.input = input;
#if IS_ASAN
    b.rawn = bytes; b.raw = (char *)malloc(bytes ? bytes : 1); b.p = (X *)b.raw;   // exact size
#else
    b.rawn = bytes + 2 * G; b.raw = new char[b.rawn]; memset(b.raw, 0xC7, b.rawn); b.p = (X *)(b.raw + G);
#endif
    if (bytes) memcpy((void *)b.p, v.data(), bytes);
    pool.push_back(b);
    return b.p;
  }
  int *in(const vector<int> &v) { return mk(ib, v, true); }
  long *inl(const vector<long> &v) { return mk(lb, v, true); }
  int *io(const vector<int> &v) { return mk(ib, v, false); }
  int *io1(int v = -77770077) { return mk(ib, vector<int>{v}, false); }
  long *iol(long v) { return mk(lb, vector<long>{v}, false); }
  char *str(size_t n) { return mk(cb, vector<char>(n, '\x7f'), false); }
  char *instr(const string &s) { vector<char> v(s.begin(), s.end()); v.push_back(0); return mk(cb, v, true); }
  template <class X> long chk(vector<Buf<X>> &pool) {
    long bad = 0;
    for (auto &b : pool) {
#if !IS_ASAN
      const size_t G = 64;
      for (size_t i = 0; i < G; i++) if ((unsigned char)b.raw[i] != 0xC7 || (unsigned char)b.raw[b.rawn - 1 - i] != 0xC7) { bad++; break; }
#endif
      if (b.input && b.n && memcmp(b.p, b.orig.data(), b.n * sizeof(X))) bad++;
    }
    return bad;
  }
  template <class X> void rel(vector<Buf<X>> &pool) {
    for (auto &b : pool) {
#if IS_ASAN
      free(b.raw);
#else
      delete[] b.raw;
#endif
    }
    pool.clear();
  }
  // ---- life cycle
  void *status(long slot) {
    if (slot < 0) return F() ? f_ign : (void *)MPI_STATUS_IGNORE;
    slots.push_back((int)slot); return &st0[slot];
  }
  void *statuses(long slot, size_t n) {
    if (slot < 0) return F() ? f_igns : (void *)MPI_STATUSES_IGNORE;
    for (size_t i = 0; i < n; i++) slots.push_back((int)(slot + (long)i));
    return &st0[slot];
  }
  static __attribute__((noinline)) void scrub() { volatile char b[12288]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)0xa5; }   // stale stack too
  void begin() {
    put("{\"op\":\"" + op + "\",\"b\":\"" + b + "\",\"a\":{" + a + "},");
    sh->obase = fsize(fdout); sh->ebase = fsize(fderr);
    sh->incall = 1;
    scrub();
    lib_track = true;
  }
  void back() { lib_track = false; sh->incall = 0; }
  void finish(const char *end = "ok") {
    fflush(stdout); fflush(stderr);
    long ob = fsize(fdout) - sh->obase, eb = fsize(fderr) - sh->ebase;
    vector<long> ws, wr; if (eb > 0) pendingnums(readfrom(fderr, sh->ebase), ws, wr);
    vector<vector<long>> chg, st; bool many = inscratch_changed(chg);
    long stray = (many ? 1 : 0) + extra; vector<long> stch;
    std::set<int> des(slots.begin(), slots.end());
    for (int i = 0; i < NST + 2 * STG; i++) {
      bool ch = memcmp(&stmem[i], &stshadow[i], sizeof(MPI_Status)) != 0;
      int s = i - STG; bool d = des.count(s) > 0;
      if (d) st.push_back({s, bsrc(st0[s].MPI_SOURCE), btag(st0[s].MPI_TAG)});
      if (ch && d) stch.push_back(s);
      if (ch && !d) stray++;
      if (ch) stshadow[i] = stmem[i];
    }
    stray += chk(ib) + chk(lb) + chk(cb) + sentinels();
    put("\"o\":{" + o + "},\"end\":\"" + end + "\",\"chg\":" + jp(chg) + ",\"st\":" + jp(st) + ",\"stch\":" + js(stch) +
        ",\"stray\":" + std::to_string(stray) + ",\"ob\":" + std::to_string(ob) + ",\"eb\":" + std::to_string(eb) +
        ",\"ws\":" + js(ws) + ",\"wr\":" + js(wr) + "}\n");
    sh->complete = sh->len; sh->nev++;
    rel(ib); rel(lb); rel(cb);
  }
  void setvar(const string &k, int v) { const string &t = kv[k]; if (!t.empty() && t[0] == '$') vars[t] = v; }
};

// call either binding; "missing" when the symbol does not exist
#define NOARG
#define RUN(CFN, FFN, CARGS, FARGS)                                                     \
  do {                                                                                  \
    if (!c.F()) {                                                                       \
      if (!(void *)CFN) { c.begin(); c.back(); c.finish("missing"); return; }           \
      c.begin(); int rc_ = CFN CARGS; c.back(); c.out("ret", rc_ == MPI_SUCCESS ? 0 : 1); \
    } else {                                                                            \
      if (!(void *)FFN) { c.begin(); c.back(); c.finish("missing"); return; }           \
      int *ie = c.io1(-7799); c.begin(); FFN FARGS; c.back();                           \
      c.out("ret", *ie == MPI_SUCCESS ? 0 : 1);                                         \
    }                                                                                   \
  } while (0)

static vector<int> toint(const vector<long> &v) { vector<int> r; for (long x : v) r.push_back((int)x); return r; }
static vector<long> bmap(int *p, size_t n, std::function<long(int)> f) { vector<long> r; for (size_t i = 0; i < n; i++) r.push_back(f(p[i])); return r; }
static vector<long> raw(int *p, size_t n) { return bmap(p, n, [](int x) { return (long)x; }); }
static void setvars(Call &c, const string &k, int *p) { auto t = Call::split(c.kv[k]); for (size_t i = 0; i < t.size(); i++) if (t[i][0] == '$') vars[t[i]] = p[i]; }

typedef void (*Fn)(Call &);
static std::map<string, Fn> table;
struct Reg { Reg(const char *n, Fn f) { table[n] = f; } };
#define OP(name) static void op_##name(Call &c); static Reg reg_##name(#name, op_##name); static void op_##name(Call &c)

#include "ops.inc"

// ------------------------------------------------------------------ scenarios
static vector<std::pair<string, vector<string>>> load(const char *f) {
  vector<std::pair<string, vector<string>>> r; FILE *fp = fopen(f, "r"); if (!fp) { perror(f); exit(2); }
  char *line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, fp)) > 0) {
    while (n && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
    if (!n || line[0] == '#') continue;
    if (line[0] == '@') r.push_back({string(line + 2), {}}); else if (!r.empty()) r.back().second.push_back(line);
  }
  fclose(fp); return r;
}
static KV conf;

static void child(const std::pair<string, vector<string>> &sc) {
  dup2(fdout, 1); dup2(fderr, 2);
  struct rlimit rl = {15, 18}; setrlimit(RLIMIT_CPU, &rl);
  struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
  memset(stmem, 0xC7, sizeof stmem); memcpy(stshadow, stmem, sizeof stmem);
  for (auto &l : sc.second) {
    Call c; c.b = 'c';
    size_t p = 0; bool first = true;
    while (p < l.size()) {
      size_t q = l.find(' ', p); if (q == string::npos) q = l.size();
      string t = l.substr(p, q - p); p = q + 1; if (t.empty()) continue;
      if (first) { first = false; size_t d = t.find(':'); if (d != string::npos) { c.b = t[d + 1]; t = t.substr(0, d); } c.op = t; continue; }
      size_t e = t.find('='); if (e != string::npos) c.kv[t.substr(0, e)] = t.substr(e + 1);
    }
    auto it = table.find(c.op);
    if (it == table.end()) { fprintf(stderr, "driver: unknown op %s\n", c.op.c_str()); _exit(98); }
    it->second(c);
  }
  _exit(0);
}

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
  seed = atoi(argv[3]) % 251; if (seed < 0) seed += 251;
  for (int i = 4; i < argc; i++) { string t = argv[i]; size_t e = t.find('='); conf[t.substr(0, e)] = t.substr(e + 1); }
  init_types();
  vfshim_addresses_(&f_ign, &f_igns, &f_inpl);
  sentinelcopy(sentinel);
  lib_table = new std::unordered_map<void *, size_t>();
  // reserve  KMIN-1 .. KMAX+1  units of address space, nothing accessible but the windows
  size_t span = (size_t)(KMAX - KMIN + 3) * RUNIT;
  char *res = (char *)mmap(0, span, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (res == MAP_FAILED) { perror("mmap"); return 2; }
  base = res + (1 - KMIN) * RUNIT;
  for (int k = KMIN; k <= KMAX; k++) {
    int w = k - KMIN;
    win[w] = (unsigned char *)mmap(base + k * RUNIT, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    shadow[w] = (unsigned char *)mmap(0, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (win[w] == MAP_FAILED || shadow[w] == MAP_FAILED) { perror("mmap window"); return 2; }
    pristine[w] = new unsigned char[WIN];
    for (int i = 0; i < WIN; i++) pristine[w][i] = (unsigned char)initbyte(k, i);
  }
  sh = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  logbuf = (char *)mmap(0, LOGMAX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  fdout = memfd_create("out", 0); fderr = memfd_create("err", 0);
  fcntl(fdout, F_SETFL, O_APPEND); fcntl(fderr, F_SETFL, O_APPEND);
  auto scen = load(argv[1]);
  FILE *lg = fopen(argv[2], "w"); if (!lg) { perror(argv[2]); return 2; }
  double limit = conf.count("timeout") ? atof(conf["timeout"].c_str()) : 20.0;
  long maxhang = conf.count("maxhang") ? atol(conf["maxhang"].c_str()) : 3, hangs = 0;
  signal(SIGCHLD, [](int) {});
  for (size_t s = 0; s < scen.size() && hangs < maxhang; s++) {
    for (int w = 0; w <= KMAX - KMIN; w++) { memcpy(win[w], pristine[w], WIN); memcpy(shadow[w], pristine[w], WIN); }
    if (ftruncate(fdout, 0) || ftruncate(fderr, 0)) return 2;
    sh->len = sh->complete = 0; sh->incall = 0; sh->nev = 0; sh->obase = sh->ebase = 0;
    fprintf(lg, "{\"op\":\"Start\",\"b\":\"c\",\"a\":{\"name\":\"%s\",\"seed\":%d,\"fr\":%s,\"fd\":%s,\"hinfo\":%s,\"tc\":%s,\"conly\":%s,\"bound\":%d},\"o\":{\"ret\":0},\"end\":\"ok\",\"chg\":[],\"st\":[],\"stch\":[],\"stray\":0,\"ob\":0,\"eb\":0,\"ws\":[],\"wr\":[]}\n",
            esc(scen[s].first).c_str(), seed, conf.count("fr") ? conf["fr"].c_str() : "4", conf.count("fd") ? conf["fd"].c_str() : "8",
            conf.count("hinfo") ? conf["hinfo"].c_str() : "0", conf.count("tc") ? conf["tc"].c_str() : "0", conf.count("conly") ? conf["conly"].c_str() : "0", 262143);
    fflush(lg);
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 2; }
    if (p == 0) { fclose(lg); child(scen[s]); }
    int stt = 0; bool hang = false;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    useconds_t nap = 50;
    while (true) {
      pid_t q = waitpid(p, &stt, WNOHANG);
      if (q == p) break;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      double el = (double)(t1.tv_sec - t0.tv_sec) + 1e-9 * (double)(t1.tv_nsec - t0.tv_nsec);
      if (el > limit) { hang = true; kill(p, SIGKILL); waitpid(p, &stt, 0); break; }
      usleep(nap); if (nap < 2000) nap += nap / 2;
    }
    if (WIFSIGNALED(stt) && (WTERMSIG(stt) == SIGXCPU)) hang = true;
    if (hang) hangs++;
    fwrite(logbuf, 1, sh->complete, lg);
    if (sh->len > sh->complete || hang || !WIFEXITED(stt) || WEXITSTATUS(stt) != 0) {
      if (!hang && !sh->incall && WIFEXITED(stt) && (WEXITSTATUS(stt) == 97 || WEXITSTATUS(stt) == 98)) {
        fprintf(stderr, "driver: scenario %s failed internally (%d): %s\n", scen[s].first.c_str(), WEXITSTATUS(stt), readfrom(fderr, 0).c_str()); return 2;
      }
      if (sh->len <= sh->complete) {           // died outside any call
        fprintf(lg, "{\"op\":\"Died\",\"b\":\"c\",\"a\":{},");
      } else fwrite(logbuf + sh->complete, 1, sh->len - sh->complete, lg);
      vector<vector<long>> chg; bool many = inscratch_changed(chg);
      string end; long code = 0;
      string et = readfrom(fderr, sh->ebase), ot = readfrom(fdout, sh->obase);
      if (hang) end = "hang";
      else if (WIFSIGNALED(stt)) { code = WTERMSIG(stt); end = code == SIGABRT ? "abort" : "crash"; }
      else { code = WEXITSTATUS(stt); end = "exit"; }
      if (IS_ASAN && et.find("AddressSanitizer") != string::npos && et.find("==ABORTING") != string::npos) end = "crash";
      vector<long> none;
      string txt = esc((et + ot).substr(0, 160));
      fprintf(lg, "\"o\":{\"code\":%ld,\"msg\":\"%s\"},\"end\":\"%s\",\"chg\":%s,\"st\":[],\"stch\":[],\"stray\":%d,\"ob\":%ld,\"eb\":%ld,\"ws\":[],\"wr\":[]}\n",
              code, txt.c_str(), end.c_str(), jp(chg).c_str(), many ? 1 : 0, (long)ot.size(), (long)et.size());
    }
    fflush(lg);
  }
  fclose(lg);
  return 0;
}
