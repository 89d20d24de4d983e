"""Scenario generators: programs of MPI calls for the conformance driver.

Nothing here judges the library.  The generators keep a small model of their own only to
stay within defined behaviour (no overlapping buffers, blocking calls mostly satisfiable)
and to aim at interesting situations; what a call must do is decided by the TLA+
specification alone.
"""
import random

ABS = 500000000
UNIT = 1000000
MAXTAB = 8192
KMIN, KMAX, WIN = -3, 6, 32768
INPLACE, PNULL, ANY, ROOT = -1, -2, -1, -3


# ---------------------------------------------------------------- layouts (generation only)
class Ty:
    __slots__ = ('ne', 'sz', 'lb', 'ub', 'ol', 'ou', 'nlb', 'nub', 'mx', 'com', 'mark', 'big', 'bm', 'sg', 'eo', 'var', 'kind', 'live', 'ovl')

    def __init__(self, **k):
        self.var = None
        self.kind = None
        self.live = True
        self.ovl = None
        for a, b in k.items():
            setattr(self, a, b)

    def ext(self):
        if self.ol or self.ou:
            return self.ub - self.lb
        d = self.ub - self.lb
        return d if d % self.mx == 0 else d + self.mx - d % self.mx

    def at(self, i):
        return self.bm[i % self.sz] + (i // self.sz) * self.ext()

    def overlaps(self):
        if self.ovl is None:
            self.ovl = len(set(self.bm)) != len(self.bm)
        return self.ovl


def basic(t, n):
    return Ty(ne=1, sz=n, lb=0, ub=n, ol=False, ou=False, nlb=0, nub=n, mx=n, com=True, mark='', big=False,
              bm=list(range(n)), sg=[t], eo=[0], var=str(t))


def pair(t, n, n2, off, ext, a, b):
    T = basic(t, n)
    T.ne, T.sz, T.ub, T.nub, T.mx = 2, n + n2, ext, off + n2, max(n, n2)
    T.bm = list(range(n)) + [off + i for i in range(n2)]
    T.sg, T.eo = [a, b], [0, n]
    return T


BOTTOM = -500 * 10 ** 6         # MPI_BOTTOM: addresses count from the windows' base

SIZES = {-1: 1, -5: 1, -12: 1, -13: 1, -22: 1, -32: 1, -46: 1, -2: 2, -6: 2, -33: 2, -3: 4, -7: 4, -9: 4, -16: 4, -21: 4, -34: 4,
         -37: 4, -47: 4, -4: 8, -8: 8, -10: 8, -35: 8, -38: 8, -40: 8, -43: 8, -44: 8, -45: 8, -11: 16, -36: 16, -39: 16, -41: 16, -42: 32}
PAIRS = [-23, -24, -25, -26, -27, -28, -29, -30, -31]
SINGLES = [t for t in range(-47, 0) if t not in PAIRS and t not in (-14, -15)]


def predef(t, cfg):
    fr, fd = cfg['fr'], cfg['fd']
    f = {-17: fr, -18: fd, -19: 2 * fr, -20: 2 * fd}
    if t in f:
        return basic(t, f[t])
    if t == -14 or t == -15:
        return Ty(ne=0, sz=0, lb=0, ub=0, ol=False, ou=False, nlb=0, nub=0, mx=1, com=True, mark='lb' if t == -14 else 'ub',
                  big=False, bm=[], sg=[], eo=[], var=str(t))
    p = {-23: (fr, fr, fr, 2 * fr, -17, -17), -24: (fd, fd, fd, 2 * fd, -18, -18), -25: (4, 4, 4, 8, -16, -16), -26: (4, 4, 4, 8, -9, -3),
         -27: (8, 4, 8, 16, -10, -3), -28: (8, 4, 8, 16, -4, -3), -29: (4, 4, 4, 8, -3, -3), -30: (2, 4, 4, 8, -2, -3), -31: (16, 4, 16, 32, -11, -3)}
    if t in p:
        return pair(t, *p[t])
    return basic(t, SIZES[t])


def struct(bl, d, t):
    K = [k for k in range(len(bl)) if bl[k] > 0]
    D = [k for k in K if t[k].mark == '']
    F = [k for k in D if t[k].ne > 0]
    lo = lambda k: min(0, (bl[k] - 1) * t[k].ext())
    hi = lambda k: max(0, (bl[k] - 1) * t[k].ext())
    lbs = [d[k] for k in K if t[k].mark == 'lb'] + [d[k] + t[k].lb + lo(k) for k in D if t[k].ol]
    ubs = [d[k] for k in K if t[k].mark == 'ub'] + [d[k] + t[k].ub + hi(k) for k in D if t[k].ou]
    nlb = min([d[k] + t[k].nlb + lo(k) for k in F]) if F else 0
    nub = max([d[k] + t[k].nub + hi(k) for k in F]) if F else 0
    sz = sum(b * x.sz for b, x in zip(bl, t))
    ne = sum(b * x.ne for b, x in zip(bl, t))
    big = sz > MAXTAB or any(t[k].big for k in F)
    bm, sg, eo = [], [], []
    if not big:
        for k in range(len(bl)):
            for i in range(bl[k] * t[k].ne):
                eo.append(len(bm) + (i // t[k].ne) * t[k].sz + t[k].eo[i % t[k].ne])
                sg.append(t[k].sg[i % t[k].ne])
            bm += [d[k] + t[k].at(i) for i in range(bl[k] * t[k].sz)]
    return Ty(ne=ne, sz=sz, lb=min(lbs) if lbs else nlb, ub=max(ubs) if ubs else nub, ol=bool(lbs), ou=bool(ubs), nlb=nlb, nub=nub,
              mx=max([t[k].mx for k in F]) if F else 1, com=False, mark='', big=big, bm=bm, sg=sg, eo=eo)


def strided(n, bl, s, T):
    if n * bl * T.sz > MAXTAB or T.big or n > 64:
        live = n > 0 and bl > 0
        full = live and T.ne > 0
        L = min(0, (n - 1) * s) + min(0, (bl - 1) * T.ext())
        H = max(0, (n - 1) * s) + max(0, (bl - 1) * T.ext())
        nlb, nub = (T.nlb + L, T.nub + H) if full else (0, 0)
        return Ty(ne=n * bl * T.ne, sz=n * bl * T.sz, lb=T.lb + L if live and T.ol else nlb, ub=T.ub + H if live and T.ou else nub,
                  ol=live and T.ol, ou=live and T.ou, nlb=nlb, nub=nub, mx=T.mx if full else 1, com=False, mark='', big=True, bm=[], sg=[], eo=[])
    return struct([bl] * n, [k * s for k in range(n)], [T] * n)


# ---------------------------------------------------------------- scenario under construction
class Op:
    __slots__ = ('k', 'tag', 'var', 'bytes', 'done', 'comm', 'maybe', 'T', 'n')

    def __init__(self, k, tag, var, bs, comm, T=None, n=0):
        self.k, self.tag, self.var, self.bytes, self.comm = k, tag, var, bs, comm
        self.done = False
        self.maybe = False
        self.T, self.n = T, n


class Comm:
    def __init__(self, kind):
        self.kind = kind
        self.sq, self.rq = [], []


CONLY = {'Poke', 'Peek', 'Let', 'MemMark', 'Conv', 'Consts', 'LangSizes', 'Cycle', 'Host'}


class Sc:
    def __init__(self, rng, cfg, f=0.3, tags=(0, 1, 2, 7)):
        self.rng, self.cfg, self.f = rng, cfg, 0 if cfg.get('conly') else f
        self.L = []
        self.comms = {}
        self.reqs = {}          # var -> Op or None (null)
        self.pool = {}          # kind -> [Ty]
        self.busy_w, self.busy_r = set(), set()
        self.nv = 0
        self.old = []
        self.tags = list(tags)
        self.slot = rng.randrange(90)
        self.allbytes = []

    # ---- text
    def op(self, name, b=None, **kv):
        if b is None:
            b = 'f' if self.rng.random() < self.f else 'c'
        if name in CONLY or BOTTOM in kv.values():
            b = 'c'
        if name in ('TIndexed', 'TIndexedBlock', 'THindexed', 'TStruct'):
            kv['n'] = len(kv['ds'])
        if self.rng.random() < .3 and (any(isinstance(v, (list, tuple)) and not v for v in kv.values()) or kv.get('n') == 0 or kv.get('nd') == 0 or kv.get('max') == 0 or name in ('Alltoallv', 'Alltoallw')):
            kv['nil'] = 1
        t = name + (':f' if b == 'f' else '')
        for k, v in kv.items():
            if isinstance(v, (list, tuple)):
                v = ','.join(str(x) for x in v) if len(v) else '[]'
            t += ' %s=%s' % (k, v)
        self.L.append(t)

    def var(self, p):
        self.nv += 1
        return '$%s%d' % (p, self.nv)

    def st(self, ignore=0.15):
        r = self.rng
        if r.random() < ignore:
            return -1
        self.slot = (self.slot + r.choice([1, 1, 1, 2, 5])) % 90
        return self.slot

    def sts(self, n):
        r = self.rng
        if r.random() < 0.15:
            return -1
        return r.randrange(0, 96 - n)

    # ---- memory
    def place(self, T, n, write):
        """base address for n items of T, clear of busy memory; None if impossible"""
        r = self.rng
        if T.big:
            return None
        offs = [T.at(i) for i in range(n * T.sz)]
        if not offs:
            return r.randrange(KMIN, KMAX) * UNIT + r.randrange(0, WIN), set()
        if write and len(set(offs)) != len(offs):
            return None
        if offs[0] > -BOTTOM // 2:           # displacements are addresses
            bs = {BOTTOM + o for o in offs}
            if bs & self.busy_w or (write and bs & self.busy_r) or any(not 0 <= x - (x + UNIT // 2) // UNIT * UNIT < WIN or not KMIN <= (x + UNIT // 2) // UNIT <= KMAX for x in bs):
                return None
            return BOTTOM, bs
        ks = [(o + UNIT // 2) // UNIT for o in offs]
        rs = [o - k * UNIT for o, k in zip(offs, ks)]
        lo, hi, kl, kh = min(rs), max(rs), min(ks), max(ks)
        if hi - lo >= WIN - 64 or kh - kl > KMAX - KMIN:
            return None
        for _ in range(60):
            if self.old and _ < 3 and r.random() < .35:      # an address used before
                m = r.choice(self.old)
                bs = {m + o for o in offs}
                if not (bs & self.busy_w or (write and bs & self.busy_r)) and all(KMIN <= (x + UNIT // 2) // UNIT <= KMAX and 0 <= x - (x + UNIT // 2) // UNIT * UNIT < WIN for x in (m + min(offs), m + max(offs), m + offs[0])) \
                        and all(0 <= x - (x + UNIT // 2) // UNIT * UNIT < WIN for x in bs):
                    return m, bs
                continue
            k = 0 if r.random() < 0.6 and KMIN - kl <= 0 <= KMAX - kh else r.randint(KMIN - kl, KMAX - kh)
            c = r.randint(-lo, WIN - 1 - hi)
            if r.random() < 0.7:
                c2 = c - c % 16
                if c2 >= -lo:
                    c = c2
            m = k * UNIT + c
            bs = {m + o for o in offs}
            if bs & self.busy_w or (write and bs & self.busy_r):
                continue
            self.old = (self.old + [m])[-6:]
            return m, bs
        return None

    # ---- types
    def bas(self, t):
        T = predef(t, self.cfg)
        T.kind = (t,)
        return T

    def created(self, T, kind):
        T.kind = kind
        T.live = True
        self.pool.setdefault(kind, []).append(T)
        return T

    def query(self, T, p=1.0):
        for q in ('TSize', 'TExtent', 'TLb', 'TUb'):
            if self.rng.random() < p:
                self.op(q, t=T.var)

    def commit(self, T):
        if not T.com:
            self.op('TCommit', t=T.var)
            T.com = True

    def free(self, T):
        self.op('TFree', t=T.var)
        T.live = False

    def ctor(self, kind, olds, which=None, **kw):
        """one random constructor over the types olds; returns the new type"""
        for _ in range(50):
            N = self.ctor1(kind, olds, which=which, **kw)
            ok = all(-60 * UNIT < x < 60 * UNIT and abs((x + UNIT // 2) % UNIT - UNIT // 2) < 200000 for x in (N.lb, N.lb + N.ext(), N.nlb, N.nub, N.ext()))
            if ok:
                return self.created(N, kind)
            self.L.pop()
            kw['huge'] = 0
            if _ > 10:
                which = which and 'TDup'
                olds = [self.base((kind[0],))] if len(kind) == 1 else olds

    def ctor1(self, kind, olds, huge=0.1, markers=0.15, zero=0.15, tidy=0.7, which=None):
        r = self.rng
        T = r.choice(olds)
        v = self.var('t')
        which = which or r.choice(['TContiguous', 'TVector', 'THvector', 'TCreateHvector', 'TIndexed', 'TIndexedBlock', 'THindexed', 'TStruct', 'TStruct', 'TDup'])
        small = lambda: 0 if r.random() < zero else r.choice([1, 1, 2, 2, 3, 4, 5] if r.random() < .9 else [6, 7, 8, 9])
        e = T.ext()
        du = 0
        if which == 'TDup':
            N = Ty(**{a: getattr(T, a) for a in ('ne', 'sz', 'lb', 'ub', 'ol', 'ou', 'nlb', 'nub', 'mx', 'com', 'mark', 'big', 'bm', 'sg', 'eo')})
            self.op(which, old=T.var, h=v)
        elif which == 'TContiguous':
            n = small()
            N = strided(n, 1, e, T)
            self.op(which, n=n, old=T.var, h=v)
        elif which == 'TVector':
            n, bl = small(), small()
            s = r.choice([-3, -1, 0, 1, 2, 3, 5, bl, bl + 1, -bl, -bl - 1])
            kw = {}
            if tidy > r.random():
                s = r.choice([1, -1]) * (bl + r.choice([0, 1, 3]))
            if r.random() < huge and e in (8, 16, 32, 64):
                s = r.choice([1, -1, 1, 2 if e > 8 else 1]) * UNIT // e + r.choice([0, 0, 1, 3])
                kw = {'du': e}
            N = strided(n, bl, s * e, T)
            self.op(which, n=n, bl=bl, s=s, old=T.var, h=v, **kw)
        elif which in ('THvector', 'TCreateHvector'):
            n, bl = small(), small()
            s = r.choice([0, 1, 4, 8, -8, 16, 24, 40, e * bl, e * (bl + 1), -e * (bl + 2), e * bl + 3])
            if tidy > r.random():
                s = r.choice([1, -1]) * (abs(e) * max(bl, 1) + r.choice([0, 4, 8, 3]))
            if .25 > r.random() and not T.big:           # blocks that touch each other, by some measure
                s = r.choice([1, 1, -1]) * r.choice([bl, bl, 1]) * r.choice([T.sz, (T.nub - T.nlb) if T.ne else 0, T.sz, e, T.nub if T.ne else 0])
            if r.random() < huge:
                s = r.choice([1, -1, 2]) * UNIT + r.choice([0, 8, -8, 100, 5])
            N = strided(n, bl, s, T)
            self.op(which, n=n, bl=bl, s=s, old=T.var, h=v)
        elif which in ('TIndexed', 'TIndexedBlock', 'THindexed'):
            nb = 0 if r.random() < zero / 2 else r.choice([1, 2, 2, 3, 4])
            bls = [small() for _ in range(nb)]
            if which == 'TIndexedBlock':
                bls = [small()] * nb
            unit = 1 if which != 'THindexed' else max(abs(e), 1)
            ds, cur = [], r.randint(-4, 4) * unit
            for b in bls:
                ds.append(cur)
                cur += (b + r.choice([0, 0, 1, 2])) * unit
                if which == 'THindexed' and r.random() < 0.3:
                    cur += r.choice([1, 4, 8])
            if r.random() < 0.4:
                z = list(range(nb))
                r.shuffle(z)
                if which == 'TIndexedBlock':
                    ds = [ds[i] for i in z]
                else:
                    ds, bls = [ds[i] for i in z], [bls[i] for i in z]
            elif r.random() > tidy:
                ds = [r.randint(-6, 10) * unit for _ in bls]
            kw = {}
            if which == 'THindexed':
                if r.random() < huge and nb:
                    i = r.randrange(nb)
                    ds[i] += r.choice([1, -1, 2]) * UNIT
                N = struct(bls, ds, [T] * nb)
                self.op(which, bls=bls, ds=ds, old=T.var, h=v)
            else:
                if r.random() < huge and nb and e in (8, 16, 32, 64):
                    i = r.randrange(nb)
                    ds[i] += r.choice([1, -1]) * UNIT // e
                    kw = {'du': e}
                N = struct(bls, [d * e for d in ds], [T] * nb)
                if which == 'TIndexed':
                    self.op(which, bls=bls, ds=ds, old=T.var, h=v, **kw)
                else:
                    self.op(which, bl=bls[0] if bls else small(), ds=ds, old=T.var, h=v, **kw)
        else:
            nb = r.choice([1, 2, 2, 3, 4])
            ts = [r.choice(olds) for _ in range(nb)]
            bls = [small() for _ in range(nb)]
            ds, cur = [], r.choice([0, 0, 0, 4, 8, -16, -8])
            for b, t in zip(bls, ts):
                lo = min([t.at(i) for i in range(b * t.sz)], default=0) if not t.big else 0
                hi = max([t.at(i) for i in range(b * t.sz)], default=0) if not t.big else 0
                d = cur - lo
                if r.random() < 0.5:
                    d += -d % 8
                ds.append(d)
                cur = d + hi + 1 + r.choice([0, 0, 1, 4, 8])
                if r.random() < huge:
                    cur += UNIT
            if r.random() > tidy:
                ds = [r.randint(-10, 20) * 4 for _ in bls]
            if r.random() < 0.4:
                z = list(range(nb))
                r.shuffle(z)
                ts, bls, ds = [ts[i] for i in z], [bls[i] for i in z], [ds[i] for i in z]
            if r.random() < markers and any(b and t.ne for b, t in zip(bls, ts)):
                bare = struct(bls, ds, ts)
                for mk in r.choice([[-14], [-15], [-14, -15], [-15, -14], [-14, -14], [-15, -15]]):
                    i = r.randrange(len(ts) + 1)
                    ts.insert(i, predef(mk, self.cfg))
                    bls.insert(i, 1)
                    if r.random() < .3:        # a marker where the layout ends anyway
                        ds.insert(i, bare.nlb if mk == -14 else bare.nub)
                        continue
                    ds.insert(i, r.choice([-40, -12, -3, 0, 0, 5, 8, 24, 64, 100]) + (min(ds) if r.random() < .3 else 0) + (max(ds) if r.random() < .3 else 0))
            N = struct(bls, ds, ts)
            self.op(which, bls=bls, ds=ds, olds=[t.var for t in ts], h=v)
        N.var = v
        return N

    def twins(self, kind, n=2):
        """types with as many elements and the same bounds, differing only inside"""
        r = self.rng
        E = self.bas(kind[0]) if len(kind) == 1 else self.base(kind)
        L, k = r.choice([4, 6, 9]), r.choice([2, 3, 4])
        out = []
        marked = r.random() < .5
        e = max(abs(E.ext()), E.sz)
        dense = r.random() < .4          # no gaps at all, the elements in some order
        if dense:
            k, marked = r.choice([2, 3, 4, 4, 5, 6, 8]), r.random() < .15
            L = k - 1
        for i in range(n):
            ds = [0] + sorted(r.sample(range(1, L), k - 2)) + [L] if k > 1 else [0]
            x = r.random()
            if dense and x < .5:
                z = ds[1:-1]
                r.shuffle(z)
                ds[1:-1] = z
            elif x < (.75 if dense else .4):
                r.shuffle(ds)
            v = self.var('t')
            if marked:
                bls, d2, ts = [1] * k + [1, 1], [e * d for d in ds] + [-8, e * (L + 3)], [E] * k + [predef(-14, self.cfg), predef(-15, self.cfg)]
                N = struct(bls, d2, ts)
                self.op('TStruct', bls=bls, ds=d2, olds=[t.var for t in ts], h=v)
            elif r.random() < .5:
                N = struct([1] * k, [d * E.ext() for d in ds], [E] * k)
                self.op('TIndexedBlock', bl=1, ds=ds, old=E.var, h=v)
            else:
                N = struct([1] * k, [d * E.ext() for d in ds], [E] * k)
                self.op('THindexed', bls=[1] * k, ds=[d * E.ext() for d in ds], old=E.var, h=v)
            N.var = v
            out.append(self.created(N, kind))
        return out

    def hollow(self, kind):
        """a type without data whose extent comes from two markers"""
        r = self.rng
        E = self.bas(r.choice(kind))
        lo = r.choice([0, 0, -8, 16])
        parts = [(1, lo, predef(-14, self.cfg)), (1, lo + r.choice([4, 16, 40]), predef(-15, self.cfg))] + [(0, r.choice([0, 8, -64]), E)] * r.choice([0, 1, 1, 2])
        r.shuffle(parts)
        bls, ds, ts = ([p[i] for p in parts] for i in range(3))
        v = self.var('t')
        N = struct(bls, ds, ts)
        self.op('TStruct', bls=bls, ds=ds, olds=[t.var for t in ts], h=v)
        N.var = v
        return self.created(N, kind)

    def far(self, E):
        """types with bounds far beyond any memory: only asked about"""
        r = self.rng
        T = E
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice([1, -1]) * r.choice([40, 70, 100, 127, 128, 129, 130])
            s, n, v = k * UNIT + r.choice([0, 0, 8, -8, 24]), r.choice([1, 2, 2, 3]), self.var('t')
            if T is not E:
                n, s = 2, r.choice([1, -1]) * 128 * UNIT
            which = r.choice(['THvector', 'TCreateHvector', 'THindexed', 'TStruct'])
            if which in ('THindexed', 'TStruct'):
                ds = [0, s] if r.random() < .5 else [s, 8]
                N = struct([1, 1], ds, [T, T])
                if which == 'THindexed':
                    self.op(which, bls=[1, 1], ds=ds, old=T.var, h=v)
                else:
                    self.op(which, bls=[1, 1], ds=ds, olds=[T.var, T.var], h=v)
            else:
                N = strided(n, 1, s, T)
                self.op(which, n=n, bl=1, s=s, old=T.var, h=v)
            N.var = v
            T = N
            self.query(T)
        if r.random() < .5:
            v = self.var('t')
            self.op('TDup', old=T.var, h=v)
            for q in ('TExtent', 'TLb', 'TUb'):
                self.op(q, t=v)

    def absolute(self, kind, E):
        """a type of addresses, for MPI_BOTTOM"""
        r = self.rng
        parts, got = [], set()
        if not E.sz or E.big or E.overlaps():
            return None
        for _ in range(r.choice([1, 1, 2, 3])):
            b = r.choice([1, 1, 2, 3])
            a = self.place(E, b, True)
            if a and a[0] != BOTTOM and not a[1] & got and len(a[1]) < 600:
                got |= a[1]
                parts.append((b, a[0] - BOTTOM))
        if not parts:
            return None
        bls, ds = [p[0] for p in parts], [p[1] for p in parts]
        if r.random() < .5:
            for d in ds:
                self.op('Address', at=d + BOTTOM, how=r.randint(0, 1))
        v = self.var('t')
        N = struct(bls, ds, [E] * len(bls))
        if r.random() < .5:
            self.op('THindexed', bls=bls, ds=ds, old=E.var, h=v)
        else:
            self.op('TStruct', bls=bls, ds=ds, olds=[E.var] * len(bls), h=v)
        N.var = v
        if r.random() < .3:
            self.query(N)
        return self.created(N, kind)

    def base(self, kind, hetero_markers=0.2):
        """smallest type of a kind"""
        if len(kind) == 1:
            return self.bas(kind[0])
        r = self.rng
        ts = [self.bas(k) for k in kind]
        order = list(range(len(kind)))
        if r.random() < 0.5:
            r.shuffle(order)
        ds, cur = [0] * len(kind), r.choice([0, 0, 8, -8, 3])
        for i in order:
            if r.random() < 0.7:
                cur += -cur % max(ts[i].mx, 1)
            ds[i] = cur
            cur += ts[i].sz + r.choice([0, 0, 1, 4, 8])
        bls = [1] * len(kind)
        if r.random() < hetero_markers:
            mk = r.choice([-14, -15])
            ts.append(predef(mk, self.cfg))
            bls.append(1)
            ds.append(r.choice([-16, -4, 0, cur, cur + 8]))
        v = self.var('t')
        N = struct(bls, ds, ts)
        self.op('TStruct', bls=bls, ds=ds, olds=[t.var for t in ts], h=v)
        N.var = v
        return self.created(N, kind)

    def mktypes(self, kind, n, depth=2, q=0.0, **kw):
        """n usable types of a kind, committed"""
        r = self.rng
        out = [self.base(kind)]
        mid = list(out)
        for _ in range(n):
            for _try in range(8):
                T = None
                cur = [r.choice(out + mid)]
                for _ in range(r.randint(1, depth)):
                    T = self.ctor(kind, cur if r.random() < .7 else cur + [r.choice(out)], **kw)
                    if q:
                        self.query(T, q)
                    if T.big or T.sz > 1500:
                        break
                    cur = [T]
                if T is not None and not T.big and T.sz <= 1500 and (T.sz > 0 or r.random() < .2) and self.place(T, 1, False):
                    break
                T = None
            if T:
                out.append(T)
        if n and r.random() < .2:
            out += self.twins(kind, r.choice([2, 2, 3]))
        if n and r.random() < .15:
            out.append(self.hollow(kind))
        if n and r.random() < .2:
            T = self.absolute(kind, r.choice(out))
            if T:
                out.append(T)
        for T in out:
            self.commit(T)
        return out

    # ---- requests and the queues
    def accepts(self, rt, mt):
        return rt == ANY or rt == mt

    def recv_for(self, c, tag):
        for o in self.comms[c].rq:
            if self.accepts(o.tag, tag):
                return o
        return None

    def msg_for(self, c, tag):
        for o in self.comms[c].sq:
            if self.accepts(tag, o.tag):
                return o
        return None

    def rebusy(self):
        self.busy_w, self.busy_r = set(), set()
        for c in self.comms.values():
            for o in c.rq:
                self.busy_w |= o.bytes
            for o in c.sq:
                self.busy_r |= o.bytes
        for o in self.orphans:
            (self.busy_w if o.k == 'r' else self.busy_r).update(o.bytes)

    orphans = ()

    def post(self, o):
        c = self.comms[o.comm]
        if o.k == 's':
            m = self.recv_for(o.comm, o.tag)
            if m:
                c.rq.remove(m)
                m.done = o.done = True
            elif o.var is not None:
                c.sq.append(o)
        else:
            m = self.msg_for(o.comm, o.tag)
            if m:
                c.sq.remove(m)
                m.done = o.done = True
            elif o.var is not None:
                c.rq.append(o)
        self.rebusy()
        return m

    def buf(self, c, write):
        """type, count and address for a transfer on communicator c"""
        r = self.rng
        ts = [T for T in self.pool.get(self.comms[c].kind, []) if T.live and T.com and not T.big and not (write and T.overlaps())]
        if len(self.comms[c].kind) == 1:
            ts = ts + [self.bas(self.comms[c].kind[0])]
        for _ in range(12):
            T = r.choice(ts)
            n = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 7])
            if r.random() < .05:
                n = r.choice([16, 33, 64, 127, 128, 129, 255, 256, 257, 300])
            if n * T.sz > 1300:
                n = 1
            p = self.place(T, n, write)
            if p:
                return T, n, p[0], p[1]
        T = ts[-1]
        for n in (1, 0):
            p = self.place(T, n, write)
            if p:
                return T, n, p[0], p[1]
        return None

    def tag(self, anyp=0.0):
        r = self.rng
        return ANY if r.random() < anyp else r.choice(self.tags)

    def nullvars(self):
        return [v for v, o in self.reqs.items() if o is None]

    def doneops(self):
        return [o for o in self.reqs.values() if o is not None and o.done]

    def pendops(self):
        return [o for o in self.reqs.values() if o is not None and not o.done]

    def finish_var(self, v):
        self.reqs[v] = None

    def counts(self, st, T=None, p=0.4):
        r = self.rng
        if st < 0:
            return
        if r.random() < p:
            self.op('GetCount', st=st, t=(T.var if T is not None and T.live and T.ne > 0 and r.random() < .7 else r.choice([-3, -12, -10, -29, -27, -1])))
        if r.random() < p / 2:
            self.op('GetElements', st=st, t=(T.var if T is not None and T.live and T.ne > 0 else -3))

    # single actions -------------------------------------------------
    def a_isend(self, c, name='Isend', tag=None):
        b = self.buf(c, False)
        if not b:
            return
        T, n, m, bs = b
        t = self.tag() if tag is None else tag
        if name == 'Irsend' and not self.recv_for(c, t):
            return
        v = self.var('r')
        o = Op('s', t, v, bs, c, T, n)
        self.op(name, buf=m, n=n, t=T.var, dest=0, tag=t, comm=c, req=v)
        self.reqs[v] = o
        self.post(o)

    def a_irecv(self, c, tag=None):
        b = self.buf(c, True)
        if not b:
            return
        T, n, m, bs = b
        t = self.tag(0.3) if tag is None else tag
        v = self.var('r')
        o = Op('r', t, v, bs, c, T, n)
        self.op('Irecv', buf=m, n=n, t=T.var, src=self.rng.choice([0, 0, -1]), tag=t, comm=c, req=v)
        self.reqs[v] = o
        self.post(o)

    def a_send(self, c, name):
        b = self.buf(c, False)
        if not b:
            return
        T, n, m, bs = b
        q = self.comms[c].rq
        if not q:
            return
        t = self.tag()
        if not self.recv_for(c, t):
            t = self.rng.choice(q).tag
            if t == ANY:
                t = self.tag()
        self.op(name, buf=m, n=n, t=T.var, dest=0, tag=t, comm=c)
        self.post(Op('s', t, None, bs, c))

    def a_recv(self, c):
        q = self.comms[c].sq
        b = self.buf(c, True)
        if not q or not b:
            return
        T, n, m, bs = b
        t = self.tag(0.4)
        if not self.msg_for(c, t):
            t = self.rng.choice(q).tag
        s = self.st()
        self.op('Recv', buf=m, n=n, t=T.var, src=self.rng.choice([0, -1]), tag=t, comm=c, st=s)
        self.post(Op('r', t, None, bs, c))
        self.counts(s, T)

    def a_sendrecv(self, c):
        r = self.rng
        w = self.buf(c, True)
        if not w:
            return
        T2, n2, m2, b2 = w
        keep = self.busy_w
        self.busy_w = self.busy_w | b2
        b = self.buf(c, False)
        self.busy_w = keep
        if not b:
            return
        T, n, m, b1 = b
        st, rt = self.tag(), self.tag(0.3)
        dest, src = r.choice([0, 0, 0, 0, PNULL]), r.choice([0, 0, 0, -1, PNULL])
        if dest == PNULL and src == PNULL and r.random() < .6:
            dest = 0
        # would it complete?
        C = self.comms[c]
        if src == PNULL:
            if dest == 0 and not self.recv_for(c, st):
                return
        else:
            m_ = self.msg_for(c, rt)
            if dest == PNULL:
                if not m_:
                    return
            elif m_:
                if not self.recv_for(c, st):
                    return
            else:
                rr = self.recv_for(c, st)
                if rr is not None or not self.accepts(rt, st):
                    return
        s = self.st()
        self.op('Sendrecv', sbuf=m, sn=n, stp=T.var, dest=dest, stag=st, rbuf=m2, rn=n2, rtp=T2.var, src=src, rtag=rt, comm=c, st=s)
        ro = Op('r', rt, 'x', b2, c)
        if src != PNULL:
            self.post(ro)
        if dest != PNULL:
            self.post(Op('s', st, 'x', b1, c))
        self.counts(s, T2)

    def a_probe(self, c, name):
        r = self.rng
        t = self.tag(0.4)
        src = r.choice([0, -1])
        if name == 'Probe':
            q = self.comms[c].sq
            if not q:
                return
            if not self.msg_for(c, t):
                t = r.choice(q).tag
        s = self.st()
        self.op(name, src=src, tag=t, comm=c, st=s)
        o = self.msg_for(c, t)
        if o and s >= 0:
            self.counts(s, o.T)

    def a_test(self, blocking):
        r = self.rng
        cand = [o.var for o in self.doneops()]
        if not blocking:
            cand += [o.var for o in self.pendops()]
        if r.random() < .12 or not cand:
            nv = self.nullvars()
            cand = nv if nv else ['0']
        v = r.choice(cand)
        s = self.st()
        self.op('Wait' if blocking else 'Test', req=v, st=s)
        o = self.reqs.get(v)
        if o is not None and o.done:
            self.counts(s, o.T if o.k == 'r' else None)
            self.finish_var(v)

    def a_reqfree(self):
        r = self.rng
        cand = [o for o in self.reqs.values() if o is not None and not o.maybe]
        if not cand:
            return
        o = r.choice(cand)
        self.op('RequestFree', req=o.var)
        self.reqs[o.var] = None

    def arr(self, need, maxn=6):
        """a request array; need: 'any' no constraint, 'one' at least one ready or all null, 'all' all ready"""
        r = self.rng
        done, pend = [o.var for o in self.doneops()], [o.var for o in self.pendops()]
        n = r.randint(1, maxn)
        if r.random() < .05:
            n = min(30, len(done) + len(pend) + 2)
        vs = list(done) + ([] if need == 'all' else list(pend))
        r.shuffle(vs)
        if need == 'one' and done and r.random() < .9:
            d = r.choice(done)
            vs = [d] + [v for v in vs if v != d]
        if need == 'one' and not done:
            vs = []
        vs = vs[:n]
        nulls = self.nullvars()
        for _ in range(r.choice([0, 0, 1, 2])):
            vs.append(r.choice(nulls) if nulls and r.random() < .6 else '0')
        seen, out = set(), []
        for v in vs:
            if v != '0' and v in seen:
                continue
            seen.add(v)
            out.append(v)
        r.shuffle(out)
        if r.random() < .06:
            out = [v for v in out if v == '0' or self.reqs.get(v) is None]
        return out

    def a_any(self, blocking):
        q = self.arr('one' if blocking else 'any')
        s = self.st()
        self.op('Waitany' if blocking else 'Testany', reqs=q, st=s)
        ready = [v for v in q if self.reqs.get(v) is not None and self.reqs[v].done]
        sure = [v for v in ready if not self.reqs[v].maybe]
        if len(ready) == 1 and len(sure) == 1:
            self.finish_var(ready[0])
        else:
            for v in ready:
                self.reqs[v].maybe = True
        self.counts(s, None, .3)

    def a_all(self, blocking):
        q = self.arr('all' if blocking or self.rng.random() < .5 else 'any')
        s = self.sts(len(q))
        self.op('Waitall' if blocking else 'Testall', reqs=q, sts=s)
        if all(self.reqs.get(v) is None or self.reqs[v].done for v in q):
            for i, v in enumerate(q):
                o = self.reqs.get(v)
                if o is not None and s >= 0 and not o.maybe:
                    self.counts(s + i, o.T if o.k == 'r' else None, .2)
                if v != '0':
                    self.finish_var(v)

    def a_some(self, blocking):
        q = self.arr('one' if blocking else 'any')
        if blocking:
            # a maybe-null array might have no ready member although something is pending
            ready = [v for v in q if self.reqs.get(v) is not None and self.reqs[v].done]
            pend = [v for v in q if self.reqs.get(v) is not None and not self.reqs[v].done]
            if pend and not [v for v in ready if not self.reqs[v].maybe]:
                return
        s = self.sts(len(q))
        self.op('Waitsome' if blocking else 'Testsome', reqs=q, sts=s)
        for v in q:
            o = self.reqs.get(v)
            if o is not None and o.done:
                self.finish_var(v)
        if s >= 0 and q and self.rng.random() < .3:
            self.op('GetCount', st=s, t=-3)

    def a_null(self, c):
        r = self.rng
        b = self.buf(c, True)
        if not b:
            return
        T, n, m, bs = b
        w = r.choice(['Isend', 'Irecv', 'Irsend', 'Send', 'Ssend', 'Rsend', 'Recv', 'Probe', 'Iprobe', 'Sendrecv'])
        t = self.tag()
        s = self.st()
        if w in ('Isend', 'Irsend', 'Irecv'):
            v = self.var('r')
            o = Op('s' if w != 'Irecv' else 'r', t, v, set(), c, T, n)
            o.done = True
            kw = {'src': PNULL} if w == 'Irecv' else {'dest': PNULL}
            self.op(w, buf=m, n=n, t=T.var, tag=t if w != 'Irecv' else self.tag(.3), comm=c, req=v, **kw)
            self.reqs[v] = o
        elif w in ('Send', 'Ssend', 'Rsend'):
            self.op(w, buf=m, n=n, t=T.var, dest=PNULL, tag=t, comm=c)
        elif w == 'Recv':
            self.op(w, buf=m, n=n, t=T.var, src=PNULL, tag=self.tag(.3), comm=c, st=s)
            self.counts(s, T)
        elif w == 'Sendrecv':
            self.op(w, sbuf=m, sn=n, stp=T.var, dest=PNULL, stag=t, rbuf=m, rn=n, rtp=T.var, src=PNULL, rtag=self.tag(.3), comm=c, st=s)
            self.counts(s, T)
        else:
            self.op(w, src=PNULL, tag=self.tag(.3), comm=c, st=s)
            self.counts(s, T)

    def a_poke(self):
        r = self.rng
        m = r.randrange(0, WIN - 64)
        v = [r.randrange(256) for _ in range(r.choice([1, 4, 16, 40]))]
        bs = set(range(m, m + len(v)))
        if bs & (self.busy_w | self.busy_r):
            return
        self.op('Poke', at=m, v=v)

    def a_newcomm(self, kind=None):
        r = self.rng
        v = self.var('c')
        c = r.choice(list(self.comms))
        w = r.choice(['CommDup', 'CommDup', 'CommSplit', 'CommCreate', 'CartCreate', 'IntercommCreate', 'IntercommMerge'])
        if w == 'CommDup':
            self.op(w, comm=c, h=v)
        elif w == 'CommSplit':
            self.op(w, comm=c, color=r.choice([0, 0, 1, 2, 5, 255, 32766, 2147483647]), key=r.choice([0, 1, 3, -1, -2, 32766, -32766, 2147483647, -2147483648]), h=v)
        elif w == 'CommCreate':
            g = self.var('g')
            self.op('CommGroup', comm=c, g=g)
            self.op(w, comm=c, g=g, h=v)
            if r.random() < .5:
                self.op('GroupFree', g=g)
        elif w == 'CartCreate':
            nd = r.choice([0, 1, 2, 3, 5])
            self.op(w, comm=c, nd=nd, dims=[1] * nd, per=[r.randint(0, 1) for _ in range(nd)], reorder=r.choice([0, 0, 1, 1, 1, -1, 2, 3, 5]), h=v)
        elif w == 'IntercommCreate':
            self.op(w, lc=c, ll=0, pc=r.choice(list(self.comms)), rl=0, tag=r.choice(self.tags), h=v)
        else:
            self.op(w, comm=c, high=r.randint(0, 1), h=v)
        self.comms[v] = Comm(kind or self.comms[c].kind)
        return v

    def a_freecomm(self, clean=False):
        r = self.rng
        cand = [c for c in self.comms if c != '1' and not (clean and (self.comms[c].sq or self.comms[c].rq))]
        if not cand:
            return
        c = r.choice(cand)
        self.op('CommFree', comm=c)
        # requests still pending on it stay pending for ever
        self.orphans = list(self.orphans) + self.comms[c].sq + self.comms[c].rq
        del self.comms[c]
        self.rebusy()

    def a_freetype(self):
        r = self.rng
        cand = [T for k in self.pool for T in self.pool[k] if T.live]
        # every kind keeps a type to work with
        cand = [T for T in cand if len(T.kind) == 1 or sum(1 for X in self.pool[T.kind] if X.live and X.com and not X.overlaps() and X.sz) > 1]
        if cand:
            self.free(r.choice(cand))

    # endings -------------------------------------------------------
    def drain(self):
        r = self.rng
        for c in list(self.comms):
            C = self.comms[c]
            guard = 0
            while (C.sq or C.rq) and guard < 200:
                guard += 1
                if C.sq:
                    t = C.sq[0].tag if r.random() < .6 else r.choice(C.sq).tag
                    b = self.buf(c, True)
                    if not b:
                        break
                    T, n, m, bs = b
                    s = self.st()
                    self.op('Recv', buf=m, n=n, t=T.var, src=0, tag=t, comm=c, st=s)
                    self.post(Op('r', t, None, bs, c))
                    self.counts(s, T, .2)
                else:
                    t = C.rq[0].tag
                    if t == ANY:
                        t = self.tag()
                    b = self.buf(c, False)
                    if not b:
                        break
                    T, n, m, bs = b
                    self.op(r.choice(['Send', 'Ssend', 'Rsend']), buf=m, n=n, t=T.var, dest=0, tag=t, comm=c)
                    self.post(Op('s', t, None, bs, c))
        q = [v for v, o in self.reqs.items() if o is not None and o.done]
        r.shuffle(q)
        if q:
            k = r.randint(0, len(q))
            for v in q[:k]:
                s = self.st()
                self.op('Wait', req=v, st=s)
            if q[k:k + 40]:
                self.op('Waitall', reqs=q[k:k + 40], sts=self.sts(len(q[k:k + 40])))
            for v in q[k + 40:]:
                self.op('Wait', req=v, st=-1)

    def finalize(self):
        self.op('Finalize')
        self.op('Initialized')

    def init(self, kind=(-3,)):
        r = self.rng
        th = r.choice([0, 0, 0, 1])
        self.op('Init', thread=th, req=r.randrange(4) if th else 0, argv=r.choice([1, 1, 0, 2, 3]))
        self.comms['1'] = Comm(kind)

    def pad(self, p=0.3):
        """occupy handles so that later ones are unusual"""
        r = self.rng
        if r.random() < p:
            n = r.choice([1, 3, 60, 120, 126, 127, 128, 250, 254, 255, 256, 500, 510, 511, 512, 513, 1020, 1024, 1030, 2045])
            self.op('BulkOpen', id=9, kind=r.choice(['ty', 'pn', 'cm']), n=n, comm=1, b='c')
            if r.random() < .6:
                a = r.randrange(n)
                self.op('BulkClose', id=9, order=r.randrange(3), **{'from': a}, n=r.randint(1, n - a), comm=1, b='c')
        if r.random() < .3:
            self.dirty()

    def dirty(self):
        """objects released in unusual states, whose handles (and memory) the next ones get"""
        r = self.rng
        for _ in range(r.choice([1, 1, 2])):
            c = self.var('c')
            w = r.random()
            if w < .4:
                nd = r.choice([1, 2, 3, 7])
                self.op('CartCreate', comm=1, nd=nd, dims=[1] * nd, per=[r.randint(0, 1) for _ in range(nd)], reorder=r.choice([0, 1, -1, 3]), h=c)
                if w < .15:
                    d = c
                    c = self.var('c')
                    self.op('CommDup', comm=d, h=c)
                    self.op('CommFree', comm=d)
            else:
                self.op('CommDup', comm=1, h=c)
            vs = []
            send = r.random() < .5
            for i in range(r.choice([0, 1, 1, 2, 3, 5, 8])):
                v = self.var('q')
                if send:
                    self.op('Isend', buf=24000 + 64 * i, n=r.choice([0, 1, 2, 5]), t=-3, dest=0, tag=r.choice([0, 1, 9]), comm=c, req=v)
                else:
                    self.op('Irecv', buf=26000 + 64 * i, n=r.choice([0, 1, 2, 5]), t=-3, src=r.choice([0, -1]), tag=r.choice([-1, 0, 1, 9]), comm=c, req=v)
                vs.append(v)
            r.shuffle(vs)
            for v in vs:
                self.op('RequestFree', req=v)
            if r.random() < .3:
                t = self.var('t')
                self.op('TContiguous', n=r.choice([0, 1, 3, 17]), old=-3, h=t)
                self.op('TFree', t=t)
            self.op('CommFree', comm=c)

    def fatal(self, which=None):
        """one call that cannot succeed; the scenario ends"""
        r = self.rng
        c = r.choice(list(self.comms))
        kinds = ['Send', 'Ssend', 'Rsend', 'Recv', 'Probe', 'Irsend', 'Sendrecv', 'Wait', 'Waitany', 'Waitall', 'Waitsome', 'rank', 'rank', 'root']
        for _ in range(20):
            w = which or r.choice(kinds)
            b, d = self.buf(c, False), self.buf(c, True)
            if not b or not d:
                continue
            T, n, m, bs = b
            T2, n2, m2, b2 = d
            t = self.tag()
            if w in ('Send', 'Ssend', 'Rsend', 'Irsend'):
                if self.recv_for(c, t):
                    if self.recv_for(c, 99):
                        continue
                    t = 99
                kw = {'req': self.var('r')} if w == 'Irsend' else {}
                self.op(w, buf=m, n=n, t=T.var, dest=0, tag=t, comm=c, **kw)
                return True
            if w in ('Recv', 'Probe'):
                t = r.choice([t, 98, ANY])
                if self.msg_for(c, t):
                    t = 98
                    if self.msg_for(c, t):
                        continue
                if w == 'Recv':
                    self.op(w, buf=m2, n=n2, t=T2.var, src=r.choice([0, -1]), tag=t, comm=c, st=self.st())
                else:
                    self.op(w, src=r.choice([0, -1]), tag=t, comm=c, st=self.st())
                return True
            if w == 'Sendrecv':
                if bs & b2:
                    continue
                rt = self.tag(.3)
                mm, rr = self.msg_for(c, rt), self.recv_for(c, t)
                if mm and rr:
                    continue
                if not mm and not rr and self.accepts(rt, t):
                    continue
                if r.random() < .2 and not mm:
                    self.op(w, sbuf=m, sn=n, stp=T.var, dest=PNULL, stag=t, rbuf=m2, rn=n2, rtp=T2.var, src=0, rtag=rt, comm=c, st=self.st())
                else:
                    self.op(w, sbuf=m, sn=n, stp=T.var, dest=0, stag=t, rbuf=m2, rn=n2, rtp=T2.var, src=0, rtag=rt, comm=c, st=self.st())
                return True
            if w in ('Wait', 'Waitany', 'Waitall', 'Waitsome'):
                p = self.pendops()
                if not p:
                    if which:
                        self.a_irecv(c, 97)
                        which = None
                    continue
                if w == 'Wait':
                    self.op(w, req=r.choice(p).var, st=self.st())
                else:
                    q = [o.var for o in r.sample(p, r.randint(1, min(4, len(p))))]
                    if w == 'Waitall':
                        q += [o.var for o in self.doneops()[:r.randint(0, 3)]]
                    q += ['0'] * r.choice([0, 0, 1, 2])
                    r.shuffle(q)
                    if w == 'Waitany':
                        self.op(w, reqs=q, st=self.st())
                    else:
                        self.op(w, reqs=q, sts=self.sts(len(q)))
                return True
            if w == 'rank':
                bad = r.choice([1, 2, 5, 100000, -4, -17, -77])
                k = r.choice(['Send', 'Ssend', 'Rsend', 'Isend', 'Irsend', 'Recv', 'Irecv', 'Probe', 'Iprobe', 'Sendrecv', 'Sendrecv'])
                if k in ('Send', 'Ssend', 'Rsend'):
                    self.op(k, buf=m, n=n, t=T.var, dest=r.choice([bad, -1]), tag=t, comm=c)
                elif k in ('Isend', 'Irsend'):
                    self.op(k, buf=m, n=n, t=T.var, dest=r.choice([bad, -1]), tag=t, comm=c, req=self.var('r'))
                elif k == 'Recv':
                    self.op(k, buf=m2, n=n2, t=T2.var, src=bad, tag=self.tag(.3), comm=c, st=self.st())
                elif k == 'Irecv':
                    self.op(k, buf=m2, n=n2, t=T2.var, src=bad, tag=self.tag(.3), comm=c, req=self.var('r'))
                elif k == 'Sendrecv':
                    if bs & b2:
                        continue
                    a, z = r.choice([(bad, 0), (0, bad), (bad, bad), (-2, bad), (bad, -2)])
                    self.op(k, sbuf=m, sn=n, stp=T.var, dest=a, stag=t, rbuf=m2, rn=n2, rtp=T2.var, src=z, rtag=self.tag(.3), comm=c, st=self.st())
                else:
                    self.op(k, src=bad, tag=self.tag(.3), comm=c, st=self.st())
                return True
            if w == 'root':
                self.coll(c, bad='root')
                return True
        return False

    # ---- collectives
    COLL = ['Bcast', 'Gather', 'Gatherv', 'Allgather', 'Allgatherv', 'Scatter', 'Scatterv', 'Alltoall', 'Alltoallv', 'Alltoallw',
            'Reduce', 'Allreduce', 'ReduceScatter', 'Scan', 'Barrier']
    ROOTED = {'Bcast', 'Gather', 'Gatherv', 'Scatter', 'Scatterv', 'Reduce'}

    def coll(self, c, which=None, inplace=0.2, bad=None, root=None):
        """one collective; bad: 'root' illegal root, 'count' receives more than is sent"""
        r = self.rng
        w = which or r.choice(self.COLL)
        if bad == 'root' and w not in self.ROOTED:
            w = r.choice(sorted(self.ROOTED))
        if bad == 'count' and w in ('Bcast', 'Barrier', 'Reduce', 'Allreduce', 'ReduceScatter', 'Scan'):
            w = 'Allgather'
        if root is None:
            root = ROOT if w != 'Reduce' and r.random() < .07 else 0
        if bad == 'root':
            root = r.choice([1, 2, 7, -1, -7, 100])
        for _ in range(20):
            d = self.buf(c, True)
            if not d:
                continue
            T2, n2, m2, b2 = d
            keep = self.busy_w
            self.busy_w = self.busy_w | b2
            s = self.buf(c, False)
            self.busy_w = keep
            if not s:
                continue
            T, n, m, b1 = s
            break
        else:
            return False
        kw = {'comm': c}
        if w in self.ROOTED:
            kw['root'] = root
        if w == 'Barrier':
            self.op(w, **kw)
            return True
        if w == 'Bcast':
            self.op(w, buf=m2, n=n2, t=T2.var, **kw)
            return True
        ip = r.random() < inplace and not bad
        if w in ('Reduce', 'Allreduce', 'ReduceScatter', 'Scan'):
            for _ in range(20):
                p = self.place(T2, n2, False)
                if p and not (p[1] & b2):
                    break
            else:
                return False
            self.op(w, sbuf=INPLACE if ip else p[0], rbuf=m2, n=n2, t=T2.var, oph=r.choice([0, 1, 2, 3, 5, 8, 10]), **kw)
            return True
        if bad == 'count':
            if T2.ne == 0:
                return False
            while n * T.ne >= n2 * T2.ne:
                n, n2 = n // 2, n2 + 1
            p2 = self.place(T2, n2, True)
            if not p2:
                return False
            m2 = p2[0]
        elif n * T.ne < n2 * T2.ne:
            # receive at most what is sent
            if T2.ne:
                n2 = (n * T.ne) // T2.ne
        k = {}
        sd, rd = 0, 0
        e1, e2 = T.ext(), T2.ext()
        if w in ('Scatterv', 'Alltoallv'):
            sd = r.choice([0, 1, 2, 5, -1, -3])
            k['sd'] = sd
            if r.random() < .12 and e1 in (8, 16, 32, 64):
                sd += r.choice([1, -1]) * UNIT // e1
                k.update(sd=sd, du=e1)
            m -= sd * e1
        if w in ('Gatherv', 'Allgatherv', 'Alltoallv'):
            rd = r.choice([0, 1, 2, 5, -1, -3])
            if 'du' not in k and r.random() < .12 and e2 in (8, 16, 32, 64):
                if not (w == 'Alltoallv'):
                    rd += r.choice([1, -1]) * UNIT // e2
                    k['du'] = e2
            k['rd'] = rd
            m2 -= rd * e2
        if w == 'Alltoallw':
            k['sd'], k['rd'] = r.choice([0, 4, 8, -8, 3, 100]), r.choice([0, 4, 8, -8, 3, 100])
            m -= k['sd']
            m2 -= k['rd']
        for a in (m, m2):       # keep the buffer argument itself inside a window
            kk = (a + UNIT // 2) // UNIT
            if not KMIN - 1 <= kk <= KMAX + 1:
                return False
        if ip:
            if w in ('Scatter', 'Scatterv'):
                m2 = INPLACE
            else:
                m = INPLACE
            if r.random() < .5:       # count and type that go with it mean nothing
                cnt, typ = r.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100]), r.choice(['0', '0', '-3', '-12', '-27', T.var])
                if w in ('Scatter', 'Scatterv'):
                    n2, T2 = cnt, basic(int(typ), 1) if typ[0] != '$' else T
                else:
                    n, T = cnt, basic(int(typ), 1) if typ[0] != '$' else T
        if m == INPLACE and not ip or m2 == INPLACE and not ip:
            return False
        self.op(w, sbuf=m, sn=n, stp=T.var, rbuf=m2, rn=n2, rtp=T2.var, **k, **kw)
        return True

    def text(self, name):
        return '@ %s\n%s\n' % (name, '\n'.join(self.L))


# ---------------------------------------------------------------- families
KINDS = [(-3,), (-1,), (-10,), (-2,), (-9,), (-4,), (-12,), (-3, -10), (-1, -3), (-10, -1, -2), (-16,), (-17,), (-18,), (-29,), (-27,), (-11,), (-38, -34)]


def kind_of(r, rich=0.5):
    return r.choice(KINDS) if r.random() < rich else r.choice([(-3,), (-1,), (-10,)])


W_P2P = dict(isend=10, irecv=10, irsend=2, send=5, recv=6, sendrecv=3, probe=2, iprobe=4, test=7, wait=5, reqfree=2, testany=2, waitany=2,
             testall=2, waitall=2, testsome=2, waitsome=2, null=2, poke=1, newcomm=1, freecomm=1, freetype=1, coll=0.5)


def fam_p2p(r, cfg, w=None, f=0.3, steps=(12, 45), ncomms=(1, 3), ntypes=(0, 2), rich=0.5, fatal=0.25, pad=0.1, tags=None, depth=2, end=None):
    s = Sc(r, cfg, f=f, tags=tags or r.choice([(0, 1), (0, 1, 2, 7), (0, 5, 32767), (3,), (0, 1, 2147483647), (10, 11, 12, 13, 14, 15), (0, 1, 65536, 256)]))
    W = dict(W_P2P)
    W.update(w or {})
    k0 = kind_of(r, rich)
    s.init(k0)
    s.pad(pad)
    s.mktypes(k0, r.randint(*ntypes), depth) if len(k0) > 1 or ntypes[1] else None
    for _ in range(r.randint(*ncomms) - 1):
        k = k0 if r.random() < .6 else kind_of(r, rich)
        if k not in s.pool and (len(k) > 1 or r.random() < .5):
            s.mktypes(k, r.randint(*ntypes), depth)
        s.a_newcomm(k)
    names, ws = zip(*W.items())
    for _ in range(r.randint(*steps)):
        a = r.choices(names, ws)[0]
        c = r.choice(list(s.comms))
        if len([o for o in s.pendops()]) > 25:
            a = r.choice(['recv', 'send'])
        if a == 'isend':
            s.a_isend(c)
        elif a == 'irecv':
            s.a_irecv(c)
        elif a == 'irsend':
            s.a_isend(c, 'Irsend')
        elif a == 'send':
            s.a_send(c, r.choice(['Send', 'Ssend', 'Rsend']))
        elif a == 'recv':
            s.a_recv(c)
        elif a == 'sendrecv':
            s.a_sendrecv(c)
        elif a in ('probe', 'iprobe'):
            s.a_probe(c, a.capitalize())
        elif a in ('test', 'wait'):
            s.a_test(a == 'wait')
        elif a == 'reqfree':
            s.a_reqfree()
        elif a in ('testany', 'waitany'):
            s.a_any(a == 'waitany')
        elif a in ('testall', 'waitall'):
            s.a_all(a == 'waitall')
        elif a in ('testsome', 'waitsome'):
            s.a_some(a == 'waitsome')
        elif a == 'null':
            s.a_null(c)
        elif a == 'poke':
            s.a_poke()
        elif a == 'newcomm':
            if len(s.comms) < 6:
                s.a_newcomm()
        elif a == 'freecomm':
            s.a_freecomm(clean=r.random() < .7)
        elif a == 'freetype':
            s.a_freetype()
        elif a == 'coll':
            s.coll(c)
    x = r.random()
    if x < fatal:
        s.fatal(end)
    elif x < fatal + .5:
        s.drain()
        if r.random() < .5:
            while len(s.comms) > 1:
                s.a_freecomm()
        s.finalize()
    else:
        s.finalize()
    return s


def fam_types(r, cfg, f=0.3, huge=0.15, markers=0.3, zero=0.15, n=(3, 8), move=True, lifetime=0.2, q=0.9, tidy=0.7):
    """constructors, bounds queries, and movement of the described bytes by every kind of call"""
    s = Sc(r, cfg, f=f)
    k = kind_of(r, .7)
    s.init(k)
    s.pad(.1)
    ts = [s.base(k)]
    if len(k) == 1 and r.random() < .3:
        ts.append(s.bas(k[0]))
    for _ in range(r.randint(*n)):
        T = s.ctor(k, [r.choice(ts), r.choice(ts), ts[-1]], huge=huge, markers=markers, zero=zero, tidy=tidy)
        s.query(T, q)
        if r.random() < (.6 if T.ol or T.ou else .1):
            D = s.ctor(k, [T], which='TDup')
            s.query(D, q)
            T = r.choice([T, D])
        if not T.big and T.sz <= 1500:
            ts.append(T)
        if r.random() < lifetime and len(ts) > 2:
            X = ts[r.randrange(1, len(ts) - 1)]
            if X.live and X.var.startswith('$'):
                if len(k) == 1 or X is not ts[0]:
                    s.free(X)
                    ts.remove(X)
                    s.query(ts[-1], q)
    if r.random() < .2:
        s.far(s.bas(r.choice(k)))
    if move:
        if r.random() < .2:
            ts += s.twins(k, 2)
        for T in ts:
            if not T.com and T.live:
                s.commit(T)
        names = ['isend', 'irecv', 'recv', 'send', 'pack', 'pack', 'coll', 'coll', 'sendrecv', 'freetype', 'wait']
        s.tags = [0, 1]
        for _ in range(r.randint(4, 14)):
            a = r.choice(names)
            if a == 'isend':
                s.a_isend('1')
            elif a == 'irecv':
                s.a_irecv('1')
            elif a == 'recv':
                s.a_recv('1')
            elif a == 'send':
                s.a_send('1', 'Send')
            elif a == 'pack':
                do_pack(s, '1')
            elif a == 'coll':
                s.coll('1', inplace=.05)
            elif a == 'sendrecv':
                s.a_sendrecv('1')
            elif a == 'freetype':
                s.a_freetype()
            elif a == 'wait':
                s.a_test(True)
        s.drain()
    s.finalize()
    return s


def do_pack(s, c, over=0.0):
    """pack and unpack, the packed bytes travelling as they are"""
    r = s.rng
    b = s.buf(c, False)
    if not b:
        return
    T, n, m, bs = b
    nb = n * T.sz
    size = nb + r.choice([0, 0, 0, 1, 7, 32])
    pos = r.choice([0, 0, size - nb, r.randint(0, size - nb)])
    byte = basic(-12, 1)
    o = s.place(byte, max(size, 1), True)
    if not o or o[1] & bs:
        return
    if r.random() < .6:
        s.op('PackSize', n=n, t=T.var, comm=c)
    if r.random() < over and nb > 0:
        k = r.randint(1, nb)
        s.op('Pack', buf=m, n=n, t=T.var, out=o[0], size=pos + nb - k, pos=pos, comm=c)
        return True
    s.op('Pack', buf=m, n=n, t=T.var, out=o[0], size=size, pos=pos, comm=c)
    keep = s.busy_w, s.busy_r
    s.busy_r = s.busy_r | o[1]
    # unpack with any type of the kind describing as many bytes or fewer
    ts = [X for X in s.pool.get(T.kind, []) if X.live and X.com and not X.big and not X.overlaps() and X.sz] + ([s.bas(T.kind[0])] if len(T.kind) == 1 else [])
    p = pos
    for _ in range(r.choice([1, 1, 2, 3])):
        if not ts:
            break
        X = r.choice(ts)
        k = (pos + nb - p) // X.sz
        k = k if r.random() < .5 else r.randint(0, k)
        if r.random() < over:
            k = (pos + nb - p) // X.sz + 1
            d = s.place(X, k, True)
            if d:
                s.op('Unpack', **{'in': o[0]}, size=pos + nb, pos=p, buf=d[0], n=k, t=X.var, comm=c)
                return True
        d = s.place(X, k, True)
        if d:
            s.op('Unpack', **{'in': o[0]}, size=r.choice([size, size, pos + nb]), pos=p, buf=d[0], n=k, t=X.var, comm=c)
            p += k * X.sz
    s.busy_w, s.busy_r = keep


def fam_pack(r, cfg, f=0.3, over=0.15):
    s = Sc(r, cfg, f=f)
    k = kind_of(r, .7)
    s.init(k)
    s.mktypes(k, r.randint(1, 3), 2, markers=.25)
    c = '1'
    if r.random() < .3:
        c = s.a_newcomm()
    for _ in range(r.randint(2, 8)):
        if r.random() < .15:
            s.a_isend(c)
            s.a_irecv(c)
        if do_pack(s, c, over):
            return s
    # several types appended to one buffer, then taken apart in order
    ts = [T for T in s.pool.get(k, []) if T.live and T.com and not T.big and not T.overlaps()] + ([s.bas(k[0])] if len(k) == 1 else [])
    parts = []
    tot = 0
    for _ in range(r.randint(2, 5)):
        T = r.choice(ts)
        n = r.choice([0, 1, 1, 2, 3])
        if tot + n * T.sz > 2000:
            continue
        parts.append((T, n))
        tot += n * T.sz
    o = s.place(basic(-12, 1), tot + 20, True)
    if o:
        s.busy_r = s.busy_r | o[1]
        pos = r.choice([0, 0, 3, 8])
        p0 = pos
        for T, n in parts:
            a = s.place(T, n, False)
            if not a or a[1] & o[1]:
                n = 0
                a = (0, set())
            s.op('Pack', buf=a[0], n=n, t=T.var, out=o[0], size=p0 + tot, pos=pos, comm=c)
            pos += n * T.sz
        end = pos
        pos = p0
        for T, n in parts:
            if pos + n * T.sz > end:
                break
            a = s.place(T, n, True)
            if not a:
                break
            s.op('Unpack', **{'in': o[0]}, size=end, pos=pos, buf=a[0], n=n, t=T.var, comm=c)
            pos += n * T.sz
        if r.random() < .5:     # travel as MPI_PACKED
            s.rebusy()
            s.busy_r = s.busy_r | o[1]
            d = s.place(basic(-13, 1), tot + 20, True)
            if d:
                cc = s.a_newcomm((-13,))
                v = s.var('r')
                s.op('Irecv', buf=d[0], n=tot + 20, t=-13, src=0, tag=4, comm=cc, req=v)
                s.op('Send', buf=o[0], n=max(end, 0), t=-13, dest=0, tag=4, comm=cc)
                st = s.st(0)
                s.op('Wait', req=v, st=st)
                s.op('GetCount', st=st, t=-13)
        s.rebusy()
    s.finalize()
    return s


def fam_coll(r, cfg, f=0.3, inplace=0.2, fatal=0.15, which=None):
    s = Sc(r, cfg, f=f)
    k = kind_of(r, .6)
    s.init(k)
    s.mktypes(k, r.randint(1, 3), 2)
    if r.random() < .5:
        s.a_newcomm()
    if r.random() < .4:
        for _ in range(3):
            c = r.choice(list(s.comms))
            s.a_isend(c)
            s.a_irecv(c)
    for _ in range(r.randint(5, 16)):
        c = r.choice(list(s.comms))
        x = r.random()
        if x < .75:
            s.coll(c, which=which, inplace=inplace)
        elif x < .8:
            h = s.var('o')
            s.op('OpCreate', commute=r.randint(0, 1), h=h)
            b = s.buf(c, True)
            if b:
                T2, n2, m2, b2 = b
                p = s.place(T2, n2, False)
                if p and not p[1] & b2:
                    s.op(r.choice(['Allreduce', 'Scan']), sbuf=p[0], rbuf=m2, n=n2, t=T2.var, oph=h, comm=c)
            s.op('OpFree', h=h)
        elif x < .85:
            s.a_isend(c)
        elif x < .9:
            s.a_irecv(c)
        elif x < .95:
            s.a_recv(c)
        else:
            s.a_test(False)
    if r.random() < fatal:
        s.coll(r.choice(list(s.comms)), bad=r.choice(['root', 'count', 'count']))
        return s
    s.drain()
    s.finalize()
    return s


def fam_groups(r, cfg, f=0.3, fatal=0.3):
    s = Sc(r, cfg, f=f)
    s.init()
    live = {}                    # var -> 'full' / 'empty'
    comms = ['1']
    def full():
        return [v for v in live if live[v] == 'full']
    def some():
        return r.choice(list(live) + ['-1']) if r.random() < .85 else '-1'
    def val(v):
        return 'empty' if v == '-1' else live[v]
    for _ in range(r.randint(6, 22)):
        x = r.choice(['cg', 'cg', 'union', 'inter', 'diff', 'incl', 'range', 'trans', 'free', 'ccreate', 'cdup', 'cfree', 'conv'])
        g = s.var('g')
        if x == 'cg' or not live:
            s.op('CommGroup', comm=r.choice(comms), g=g)
            live[g] = 'full'
        elif x in ('union', 'inter', 'diff'):
            a, b = some(), some()
            s.op({'union': 'GroupUnion', 'inter': 'GroupIntersection', 'diff': 'GroupDifference'}[x], g1=a, g2=b, g=g)
            fa, fb = val(a) == 'full', val(b) == 'full'
            live[g] = 'full' if (fa or fb if x == 'union' else fa and fb if x == 'inter' else fa and not fb) else 'empty'
        elif x == 'incl':
            fs = full()
            if fs and r.random() < .7:
                s.op('GroupIncl', g1=r.choice(fs), n=1, ranks=[0], g=g)
                live[g] = 'full'
            else:
                s.op('GroupIncl', g1=some(), n=0, ranks=[], g=g)
                live[g] = 'empty'
        elif x == 'range':
            fs = full()
            if fs and r.random() < .7:
                s.op('GroupRangeIncl', g1=r.choice(fs), n=1, ranges=r.choice([[0, 0, r.choice([1, 1, 2, -1, 7, 1000, -100, 2147483647])], [0, 0, 1], [0, 1, 2], [0, 5, 100], [0, -1, -3], [0, 254, 255]]), g=g)
                live[g] = 'full'
            else:
                s.op('GroupRangeIncl', g1=some(), n=0, ranges=[], g=g)
                live[g] = 'empty'
        elif x == 'trans':
            fs = full()
            if fs:
                n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 40])
                s.op('TranslateRanks', g1=r.choice(fs), n=n, ranks=[0] * n, g2=some())
            else:
                s.op('TranslateRanks', g1='-1', n=0, ranks=[], g2=some())
        elif x == 'free':
            v = r.choice(list(live))
            s.op('GroupFree', g=v)
            del live[v]
        elif x == 'ccreate':
            v = some()
            c = s.var('c')
            s.op('CommCreate', comm=r.choice(comms), g=v, h=c)
            if val(v) == 'full':
                comms.append(c)
                s.comms[c] = Comm((-3,))
                s.op('CommSize', comm=c)
                s.op('CommRank', comm=c)
        elif x == 'cdup':
            c = s.var('c')
            s.op('CommDup', comm=r.choice(comms), h=c)
            comms.append(c)
        elif x == 'cfree' and len(comms) > 1:
            c = comms.pop(r.randrange(1, len(comms)))
            s.op('CommFree', comm=c)
        elif x == 'conv':
            s.op('Conv', kind=2, h=some())
    if r.random() < fatal:
        fs = full() or ['-1']
        g = s.var('g')
        w = r.choice(['nul', 'incl1', 'inclr', 'inclneg', 'range1', 'rangen', 'trans', 'inclempty', 'nul2', 'rangetwo', 'inclmany'])
        if w == 'nul':
            o = r.choice(['GroupUnion', 'GroupIntersection', 'GroupDifference'])
            a, b = r.choice([('0', some()), (some(), '0'), ('0', '0')])
            s.op(o, g1=a, g2=b, g=g)
        elif w == 'nul2':
            o = r.choice(['GroupIncl', 'GroupRangeIncl', 'TranslateRanks'])
            if o == 'GroupIncl':
                s.op(o, g1='0', n=1, ranks=[0], g=g)
            elif o == 'GroupRangeIncl':
                s.op(o, g1='0', n=1, ranges=[0, 0, 1], g=g)
            else:
                a, b = r.choice([('0', fs[0]), (fs[0], '0')])
                s.op(o, g1=a, n=1, ranks=[0], g2=b)
        elif fs == ['-1']:
            pass
        elif w == 'incl1':
            s.op('GroupIncl', g1=r.choice(fs), n=1, ranks=[r.choice([1, 2, -1, 100, 256, 65536, 2147483647])], g=g)
        elif w == 'inclr':
            s.op('GroupIncl', g1=r.choice(fs), n=2, ranks=[0, r.choice([0, 1])], g=g)
        elif w == 'inclmany':
            n = r.choice([2, 3, 8, 256])
            s.op('GroupIncl', g1=r.choice(fs), n=n, ranks=r.choice([list(range(n)), [0] * n]), g=g)
        elif w == 'inclneg':
            s.op('GroupIncl', g1=r.choice(fs), n=1, ranks=[-5], g=g)
        elif w == 'range1':
            s.op('GroupRangeIncl', g1=r.choice(fs), n=1, ranges=r.choice([[0, 1, 1], [1, 1, 1], [0, 3, 1], [1, 0, -1], [2, 2, 1], [0, 5, 5], [0, -4, -2], [0, 7, 3]]), g=g)
        elif w == 'rangetwo':
            s.op('GroupRangeIncl', g1=r.choice(fs), n=2, ranges=[0, 0, 1, 0, 0, 1], g=g)
        elif w == 'trans':
            n = r.choice([1, 2, 2, 3, 8, 33])
            rk = [0] * n
            rk[r.choice([0, n - 1, r.randrange(n)])] = r.choice([1, 3, -1, -5, 255, 65536, 2147483647])
            s.op('TranslateRanks', g1=r.choice(fs), n=n, ranks=rk, g2=some())
        return s
    s.finalize()
    return s


def fam_comms(r, cfg, f=0.3, fatal=0.2):
    """constructors from every kind of communicator, queries, traffic, frees with pending operations"""
    s = Sc(r, cfg, f=f)
    k = kind_of(r, .3)
    s.init(k)
    if len(k) > 1:
        s.mktypes(k, 1)
    s.pad(.2)
    if r.random() < .3:
        s.op('IntercommCreate', lc=0, ll=0, pc=0, rl=0, tag=1, h=s.var('c'))
    for _ in range(r.randint(8, 30)):
        x = r.random()
        c = r.choice(list(s.comms))
        if x < .22 and len(s.comms) < 9:
            v = s.a_newcomm()
            s.op('CommSize', comm=v)
            s.op('CommRank', comm=v)
        elif x < .27:
            s.op('CommSplit', comm=c, color=-1, key=r.choice([0, 0, 1, 2, 3, -1, 5, 7, 2147483647]), h=s.var('c'))
        elif x < .32:
            s.op('CommCreate', comm=c, g=r.choice([-1, 0]), h=s.var('c'))
        elif x < .36:
            s.op('IntercommCreate', lc=0, ll=0, pc=0, rl=0, tag=r.choice(s.tags), h=s.var('c'))
        elif x < .46:
            s.a_freecomm()
        elif x < .6:
            s.a_isend(c)
        elif x < .72:
            s.a_irecv(c)
        elif x < .78:
            s.a_recv(c)
        elif x < .84:
            s.a_probe(c, 'Iprobe')
        elif x < .88:
            s.a_test(False)
        elif x < .92:
            s.coll(c)
        elif x < .95:
            s.op('Conv', kind=0, h=c)
        else:
            s.op(r.choice(['CommSize', 'CommRank']), comm=c)
    if r.random() < fatal:
        s.fatal()
        return s
    if r.random() < .6:
        s.drain()
    while len(s.comms) > 1:
        s.a_freecomm()
    s.finalize()
    return s


def fam_cart(r, cfg, f=0.3, fatal=0.3):
    s = Sc(r, cfg, f=f)
    s.init()
    if r.random() < .3:
        s.dirty()
    carts = []
    for _ in range(r.randint(3, 12)):
        x = r.random()
        if x < .35 or not carts:
            nd = r.choice([0, 1, 2, 3, 4, 7, 16, 40])
            v = s.var('c')
            s.op('CartCreate', comm=r.choice(list(s.comms)), nd=nd, dims=[1] * nd, per=[r.choice([0, 1]) for _ in range(nd)], reorder=r.choice([0, 0, 1, 1, 1, -1, 2, 3, 5]), h=v)
            s.comms[v] = Comm((-3,))
            carts.append((v, nd))
        elif x < .55:
            v, nd = r.choice(carts)
            s.op('CartGet', comm=v, max=r.choice([nd, nd, nd, max(nd - 1, 0), 0, nd]))
        elif x < .7:
            v, nd = r.choice(carts)
            s.op('CartCoords', comm=v, rank=0, max=r.choice([nd, nd, nd, max(nd - 1, 0)]))
        elif x < .82:
            nd = r.choice([0, 1, 2, 3, 6, 20])
            s.op('DimsCreate', nn=1, nd=nd, dims=[r.choice([0, 0, 1]) for _ in range(nd)])
        elif x < .88:
            s.a_isend(r.choice(carts)[0])
            s.a_irecv(r.choice(carts)[0])
        elif x < .93 and len(carts) > 1:
            v, nd = carts.pop(r.randrange(len(carts)))
            if v in s.comms:
                s.op('CommFree', comm=v)
                s.orphans = list(s.orphans) + s.comms[v].sq + s.comms[v].rq
                del s.comms[v]
                s.rebusy()
        elif x < .97:
            c, nd = r.choice(carts)             # a duplicate has the grid too
            v = s.var('c')
            s.op('CommDup', comm=c, h=v)
            s.comms[v] = Comm((-3,))
            carts.append((v, nd))
            if r.random() < .5:
                s.op('CartGet', comm=v, max=nd)
        else:
            v, nd = r.choice(carts)
            s.op('CommSize', comm=v)
            s.op('CommRank', comm=v)
    if r.random() < fatal:
        w = r.choice(['grid', 'grid', 'coords', 'dims', 'coords'])
        v, nd = r.choice(carts)
        if w == 'grid':
            n = r.choice([1, 2, 3, 5])
            dims = [1] * n
            dims[r.randrange(n)] = r.choice([2, 3, 100])
            s.op('CartCreate', comm=1, nd=n, dims=dims, per=[0] * n, reorder=0, h=s.var('c'))
        elif w == 'coords':
            s.op('CartCoords', comm=v, rank=r.choice([1, 2, -1, 17]), max=nd)
        else:
            s.op('DimsCreate', nn=r.choice([2, 3, 8]), nd=2, dims=[0, 0])
        return s
    s.finalize()
    return s


def fam_life(r, cfg, f=0.5):
    s = Sc(r, cfg, f=f)
    if r.random() < .7:
        s.op('Initialized')
    s.init()
    if r.random() < .7:
        s.op('Initialized')
    for _ in range(r.randint(0, 8)):
        x = r.random()
        if x < .3:
            s.a_isend('1')
        elif x < .6:
            s.a_irecv('1')
        elif x < .7:
            s.a_newcomm()
        elif x < .8:
            s.coll('1')
        elif x < .9:
            s.a_test(False)
        else:
            s.op('Initialized')
    if r.random() < .15:
        s.op('BulkOpen', id=1, kind=r.choice(['ty', 'pn', 'cm']), n=r.choice([100, 300, 505, 520, 1100, 2000]), comm=1)
    x = r.random()
    if x < .3:
        th = r.choice([0, 1])
        s.op('Init', thread=th, req=r.randrange(4) if th else 0, argv=r.choice([1, 0, 2, 3]))
    elif x < .6:
        s.op('Abort', comm=r.choice(list(s.comms)), code=r.choice([0, 1, 2, 7, 42, 77, 255, 128, 200]))
    else:
        if r.random() < .3:
            s.drain()
        s.op('Finalize')
        s.op('Initialized')
    return s


def fam_predef(r, cfg, f=0.3, types=None):
    """predefined types: size, bounds, data of that type through every path"""
    s = Sc(r, cfg, f=f, tags=(0, 1))
    s.init()
    if types is None:
        types = r.sample(range(-47, 0), 6)
    if r.random() < .15:
        s.op('LangSizes')
    for t in types:
        T = s.bas(t)
        for q in ('TSize', 'TExtent', 'TLb', 'TUb'):
            s.op(q, t=t)
        if T.mark:
            continue
        c = s.a_newcomm((t,))
        s.comms[c].kind = (t,)
        for _ in range(r.randint(2, 5)):
            a = r.choice(['sr', 'sr', 'rs', 'pack', 'coll', 'dup', 'struct', 'wait'])
            if a == 'sr':
                s.a_isend(c)
                s.a_recv(c)
            elif a == 'rs':
                s.a_irecv(c)
                s.a_send(c, 'Send')
            elif a == 'pack':
                do_pack(s, c)
            elif a == 'coll':
                s.coll(c)
            elif a == 'wait':
                s.a_test(False)
            else:
                X = s.ctor((t,), [T], which='TDup' if a == 'dup' else None, huge=0.05)
                s.query(X, .8)
                if not X.big and X.sz <= 1500:
                    s.commit(X)
                else:
                    X.live = False
    s.drain()
    s.finalize()
    return s


def fam_uncommitted(r, cfg, f=0.3):
    """types used before they are committed, in every communication call"""
    s = Sc(r, cfg, f=f, tags=(0, 1))
    k = kind_of(r, .3)
    s.init(k)
    B = s.base(k)
    s.commit(B)
    for _ in range(20):
        U = s.ctor(k, [B], huge=0, zero=0)
        if not U.big and 0 < U.sz < 800 and not U.overlaps() and U.var.startswith('$'):
            break
    if r.random() < .3:
        s.query(U)
    if r.random() < .3:
        s.a_isend('1')
        s.a_irecv('1')
        s.drain()
    if U.com:                    # a duplicate of a committed type: fine
        s.a_isend('1')
        s.a_recv('1')
        return s
    x = r.choice(['fix', 'dupfix', 'dup', 'send', 'recv', 'sendp', 'recvp', 'srv', 'srv2', 'coll', 'coll2', 'child', 'child2'])
    def io(T, w):
        return s.place(T, 1, w)
    bn = U.ne // B.ne if B.ne else 1
    a, d = io(U, False), s.place(B, bn, True)
    d2 = io(U, True)
    b2 = s.place(B, bn, False)
    if not a or not d or not d2 or not b2 or a[1] & d[1] or d2[1] & b2[1]:
        return s
    v, v2 = s.var('r'), s.var('r')
    if x == 'fix':
        s.commit(U)
        s.a_isend('1')
        s.a_recv('1')
        s.finalize()
    elif x == 'dupfix':
        s.commit(U)
        X = s.ctor(k, [U], which='TDup')
        s.op('TFree', t=U.var)
        s.op('Irecv', buf=d[0], n=bn, t=B.var, src=0, tag=0, comm=1, req=v)
        s.op('Send', buf=a[0], n=1, t=X.var, dest=0, tag=0, comm=1)
        s.op('Wait', req=v, st=3)
        s.finalize()
    elif x == 'dup':
        X = s.ctor(k, [U], which='TDup')
        s.commit(U)
        s.op('Irecv', buf=d[0], n=bn, t=B.var, src=0, tag=0, comm=1, req=v)
        s.op('Send', buf=a[0], n=1, t=X.var, dest=0, tag=0, comm=1)
    elif x == 'send':
        s.op('Irecv', buf=d[0], n=bn, t=B.var, src=0, tag=0, comm=1, req=v)
        s.op(r.choice(['Send', 'Ssend', 'Rsend']), buf=a[0], n=1, t=U.var, dest=0, tag=0, comm=1)
    elif x == 'recv':
        s.op('Isend', buf=b2[0], n=bn, t=B.var, dest=0, tag=0, comm=1, req=v)
        s.op('Recv', buf=d2[0], n=1, t=U.var, src=0, tag=0, comm=1, st=4)
    elif x == 'sendp':
        s.op('Isend', buf=a[0], n=1, t=U.var, dest=0, tag=0, comm=1, req=v)
        s.op('Recv', buf=d[0], n=bn, t=B.var, src=0, tag=0, comm=1, st=4)
    elif x == 'recvp':
        s.op('Irecv', buf=d2[0], n=1, t=U.var, src=0, tag=0, comm=1, req=v)
        s.op('Isend', buf=b2[0], n=bn, t=B.var, dest=0, tag=0, comm=1, req=v2)
    elif x == 'srv':
        s.op('Sendrecv', sbuf=a[0], sn=1, stp=U.var, dest=0, stag=1, rbuf=d[0], rn=bn, rtp=B.var, src=0, rtag=1, comm=1, st=2)
    elif x == 'srv2':
        s.op('Sendrecv', sbuf=b2[0], sn=bn, stp=B.var, dest=0, stag=1, rbuf=d2[0], rn=1, rtp=U.var, src=0, rtag=1, comm=1, st=2)
    elif x == 'coll':
        w = r.choice(['Gather', 'Allgather', 'Scatter', 'Alltoall'])
        s.op(w, sbuf=a[0], sn=1, stp=U.var, rbuf=d[0], rn=bn, rtp=B.var, comm=1, **({'root': 0} if w in ('Gather', 'Scatter') else {}))
    elif x == 'coll2':
        a2, d3 = io(U, False), io(U, True)
        if a2 and d3 and not a2[1] & d3[1]:
            s.op(r.choice(['Allreduce', 'Scan']), sbuf=a2[0], rbuf=d3[0], n=1, t=U.var, oph=1, comm=1)
    elif x == 'child':           # a type built from an uncommitted one needs only its own commit
        X = s.ctor(k, [U], which=r.choice(['TContiguous', 'TVector', 'TStruct']), huge=0, zero=0, markers=0, tidy=1)
        if not X.big and not X.overlaps() and 0 < X.sz <= 1500:
            s.commit(X)
            s.a_isend('1')
            s.a_recv('1')
            s.a_isend('1')
            s.a_recv('1')
        s.finalize()
    elif x == 'child2':          # ... and is not committed because its parts are
        s.commit(U)
        X = s.ctor(k, [U], which=r.choice(['TContiguous', 'TVector', 'TStruct']), huge=0, zero=0, markers=0, tidy=1)
        p, q = s.place(X, 1, False) if not X.big else None, None
        if p and X.sz and X.sz <= 1500:
            nb = X.ne // B.ne
            q = s.place(B, nb, True)
            if q and not q[1] & p[1]:
                s.op('Irecv', buf=q[0], n=nb, t=B.var, src=0, tag=0, comm=1, req=v)
                s.op('Send', buf=p[0], n=1, t=X.var, dest=0, tag=0, comm=1)
    return s


def fam_errors(r, cfg, f=0.4):
    """one erroneous call after some ordinary traffic"""
    x = r.random()
    if x < .2:
        return fam_uncommitted(r, cfg, f)
    if x < .35:
        return fam_groups(r, cfg, f, fatal=1.0)
    if x < .45:
        return fam_cart(r, cfg, f, fatal=1.0)
    if x < .65:
        return fam_coll(r, cfg, f, fatal=1.0)
    s = fam_p2p(r, cfg, f=f, steps=(0, 12), fatal=0, ntypes=(0, 1), end=None)
    # drop the ending and put the erroneous call in its place
    while s.L and (s.L[-1].startswith('Finalize') or s.L[-1].startswith('Initialized')):
        s.L.pop()
    s.fatal(r.choice(['rank', 'rank', 'rank', 'root', 'root', 'Irsend']))
    return s


def fam_utils(r, cfg, f=0.4, clock=False):
    s = Sc(r, cfg, f=f)
    s.init()
    for _ in range(r.randint(6, 16)):
        x = r.choice(['es', 'pn', 'lv', 'gv', 'wt', 'ad', 'op', 'info', 'eh', 'conv', 'ps', 'act'])
        if x == 'es':
            s.op('ErrorString', code=r.choice([0, 1, 2, 5, 15, 100, -1, 9999, 2147483647, -2147483647]))
        elif x == 'pn':
            if r.random() < .6:
                s.op('Host', n=r.choice([1, 20, 63, 64, 100, 126, 127, 128, 129, 200, 255, 300]), cut=r.randint(0, 1))
            s.op('ProcName')
        elif x == 'lv':
            s.op('LibVersion')
        elif x == 'gv':
            s.op('GetVersion')
        elif x == 'wt':
            if r.random() < .3:
                s.op('Wtime', ms=r.choice([0, 1, 5, 20]))
        elif x == 'ad':
            s.op('Address', at=r.choice([0, 5, 4096, UNIT, -UNIT, 3 * UNIT + 77, -3 * UNIT, 6 * UNIT]), how=r.randint(0, 1))
        elif x == 'op':
            h = s.var('o')
            s.op('OpCreate', commute=r.randint(0, 1), h=h)
            if r.random() < .7:
                s.op('OpFree', h=h)
        elif x == 'info':
            h = s.var('i')
            s.op('InfoCreate', h=h)
            for _ in range(r.randint(0, 2)):
                s.op('InfoSet', h=h)
            s.op('InfoFree', h=h)
        elif x == 'eh':
            s.op('ErrhandlerSet', comm=1, eh=r.randint(0, 1))
        elif x == 'conv':
            k = r.choice([0, 1, 3])
            s.op('Conv', kind=k, h=r.choice([0, 1, 2, 77, 262142]))
        elif x == 'ps':
            s.op('PackSize', n=r.choice([0, 1, 7]), t=r.choice([-3, -10, -29]), comm=1)
        else:
            s.a_isend('1')
            s.a_recv('1')
    if r.random() < .1:
        s.op('Consts')
    if clock:
        s.op('Wtime', ms=1100)
    s.finalize()
    return s


CYC = ['pn', 'sr', 'rs', 'rf', 'sf', 'cf', 'ty', 'cm', 'ct', 'pr', 'an', 'sp']


def fam_residue(r, cfg, f=0.3, rounds=3):
    """the same work again and again: memory and handles come back"""
    s = Sc(r, cfg, f=f)
    s.init()
    work = r.sample(CYC, r.randint(2, 6))
    n = {k: r.choice([1, 7, 40, 300, 600]) for k in work}
    bulk = r.random() < .6
    bk, bn, bo = r.choice(['rq', 'sq', 'ty', 'cm', 'pn']), r.choice([1, 5, 60, 200, 513]), r.randrange(3)
    detail = r.choice([block, block, queueblock, queueblock, None])
    seed = r.random()
    dirt = r.random() < .5
    for k in ['rq', 'sq', 'ty', 'cm', 'pn']:       # an implementation may keep released objects for reuse:
        s.op('BulkOpen', id=1, kind=k, n=48, comm=1)   # its stock is at its highest before the first mark
        s.op('BulkClose', id=1, order=0, **{'from': 0}, n=48, comm=1)
    for i in range(2 + rounds):
        for k in work:
            s.op('Cycle', kind=k, n=n[k], comm=1)
        if bulk:
            b = 'f' if r.random() < f else 'c'
            s.op('BulkOpen', id=1, kind=bk, n=bn, comm=1, b=b)
            if bo == 2 and bn > 4:
                s.op('BulkClose', id=1, order=2, **{'from': 2}, n=bn // 2, comm=1, b=b)
                s.op('BulkClose', id=1, order=1, **{'from': 2 + bn // 2}, n=bn - 2 - bn // 2, comm=1, b=b)
                s.op('BulkClose', id=1, order=0, **{'from': 0}, n=2, comm=1, b=b)
            else:
                s.op('BulkClose', id=1, order=bo, **{'from': 0}, n=bn, comm=1, b=b)
        if detail:
            detail(s, random.Random(seed))
        if dirt:
            keep, s.rng = s.rng, random.Random(seed)
            s.dirty()
            s.rng = keep
        if i == 1:
            s.op('MemMark', id=1, rel=0)
        elif i > 1:
            s.op('MemMark', id=2, rel=1)
    s.finalize()
    return s


def queueblock(s, r):
    """some pending operations, matched in any order, some of them freed first"""
    keep, s.rng = s.rng, r
    s.pool, s.reqs, s.comms = {}, {}, {'1': Comm((-3,))}
    for _ in range(r.randint(1, 3)):
        n = r.choice([2, 3, 3, 3, 4, 5, 8])
        send = r.random() < .5
        tags = [r.choice([i, i, 0]) for i in range(n)]
        vs = []
        for i in range(n):
            v = s.var('q')
            if send:
                s.op('Isend', buf=24000 + 64 * i, n=1, t=-3, dest=0, tag=tags[i], comm='1', req=v)
            else:
                s.op('Irecv', buf=26000 + 64 * i, n=1, t=-3, src=r.choice([0, -1]), tag=tags[i], comm='1', req=v)
            vs.append(v)
        freed = [v for v in vs if r.random() < .2]
        for v in freed:
            s.op('RequestFree', req=v)
        order = list(tags)
        r.shuffle(order)
        for i, t in enumerate(order):
            w = r.random()
            if w < .6:
                if send:
                    s.op('Recv', buf=27000 + 64 * i, n=1, t=-3, src=r.choice([0, -1]), tag=t, comm='1', st=1)
                else:
                    s.op('Send', buf=27000 + 64 * i, n=1, t=-3, dest=0, tag=t, comm='1')
            else:
                v = s.var('q')
                if send:
                    s.op('Irecv', buf=27000 + 64 * i, n=1, t=-3, src=0, tag=t, comm='1', req=v)
                else:
                    s.op('Isend', buf=27000 + 64 * i, n=1, t=-3, dest=0, tag=t, comm='1', req=v)
                s.op('RequestFree', req=v) if w > .8 else s.op('Wait', req=v, st=2)
        rest = [v for v in vs if v not in freed]
        r.shuffle(rest)
        for v in rest:
            s.op(r.choice(['Wait', 'Test']), req=v, st=3)
    s.rng = keep


def block(s, r):
    """a self-contained piece of work that releases everything it makes (same every time for the same r)"""
    keep, s.rng = s.rng, r
    s.pool, s.reqs = {}, {}
    k = kind_of(r, .5)
    old = s.comms
    s.comms = {'1': Comm(k)}
    s.mktypes(k, 2, 2)
    for _ in range(r.randint(0, 2)):
        s.a_newcomm()
    for _ in range(r.randint(4, 12)):
        c = r.choice(list(s.comms))
        a = r.choice(['isend', 'irecv', 'recv', 'test', 'wait', 'coll', 'reqfree', 'any', 'some', 'null', 'pack', 'sendrecv'])
        if a == 'isend':
            s.a_isend(c)
        elif a == 'irecv':
            s.a_irecv(c)
        elif a == 'recv':
            s.a_recv(c)
        elif a == 'test':
            s.a_test(False)
        elif a == 'wait':
            s.a_test(True)
        elif a == 'coll':
            s.coll(c)
        elif a == 'reqfree':
            s.a_reqfree()
        elif a == 'any':
            s.a_any(True)
        elif a == 'some':
            s.a_some(False)
        elif a == 'null':
            s.a_null(c)
        elif a == 'pack':
            do_pack(s, c)
        else:
            s.a_sendrecv(c)
    s.drain()
    for c in [c for c in s.comms if c != '1']:
        s.op('CommFree', comm=c)
    for kk in s.pool:
        for T in s.pool[kk]:
            if T.live and T.var.startswith('$'):
                s.op('TFree', t=T.var)
    s.comms = old
    s.pool, s.reqs = {}, {}
    s.rng = keep


def fam_handles(r, cfg, f=0.2, big=False):
    """many live objects in odd allocation and release orders, with ordinary work in between"""
    s = Sc(r, cfg, f=f)
    s.init()
    total = 0
    openb = {}                   # id -> (kind, n, released count, comm)
    cap = 262142 if big else 4000
    dest = {}
    for i in range(1, r.randint(3, 9)):
        k = r.choice(['pn', 'ty', 'cm', 'rq', 'sq']) if not big else r.choice(['pn', 'ty', 'pn', 'ty', 'cm'])
        n = r.choice([1, 2, 60, 100, 511, 512, 513, 700, 1023, 1500]) if not big else r.choice([5000, 30000, 70000, 65536, 131072, 200000])
        if k in ('rq', 'sq'):
            n = min(n, 700)
        if total + n + 40 > cap:
            n = cap - total - 40
            if n <= 0:
                break
        c = 1
        if k in ('rq', 'sq'):
            c = s.var('c')
            s.op('CommDup', comm=1, h=c)
            dest[i] = c
        b = 'f' if r.random() < f else 'c'
        s.op('BulkOpen', id=i, kind=k, n=n, comm=c, b=b)
        openb[i] = [k, n, 0, c]
        total += n
        if r.random() < .5:
            block(s, random.Random(r.random()))
        if r.random() < .6:
            j = r.choice(list(openb))
            K, N, d, cc = openb[j]
            m = r.randint(1, N - d)
            s.op('BulkClose', id=j, order=r.randrange(3), **{'from': d}, n=m, comm=cc, b=b)
            openb[j][2] += m
            total -= m
            if openb[j][2] == N:
                del openb[j]
    js = list(openb)
    r.shuffle(js)
    for j in js:
        K, N, d, cc = openb[j]
        s.op('BulkClose', id=j, order=r.randrange(3), **{'from': d}, n=N - d, comm=cc, b='c')
    s.finalize()
    return s


def handles_limit(r, cfg, kind, extra):
    """fill the handle space exactly, or one more"""
    s = Sc(r, cfg, f=0)
    s.init()
    n = 262142 - 3
    s.op('BulkOpen', id=1, kind=kind, n=n, comm=1)
    s.op('BulkOpen', id=2, kind='ty', n=2, comm=1)
    s.op('BulkOpen', id=3, kind='pn', n=1, comm=1)
    if extra:
        x = r.choice(['CommDup', 'Irecv', 'TContiguous', 'Isend', 'BulkOpen'])
        if x == 'CommDup':
            s.op('BulkOpen', id=4, kind='cm', n=1, comm=1)
        elif x == 'Irecv':
            s.op('BulkOpen', id=4, kind='rq', n=1, comm=1)
        elif x == 'Isend':
            s.op('BulkOpen', id=4, kind='sq', n=1, comm=1)
        elif x == 'TContiguous':
            s.op('BulkOpen', id=4, kind='ty', n=1, comm=1)
        else:
            s.op('BulkOpen', id=4, kind='pn', n=5, comm=1)
        return s
    s.op('BulkClose', id=1, order=2, **{'from': 1000}, n=5000, comm=1)
    s.op('BulkOpen', id=5, kind=r.choice(['ty', 'pn', 'cm']), n=5000, comm=1)
    s.op('BulkClose', id=5, order=1, **{'from': 0}, n=5000, comm=1)
    s.op('BulkClose', id=1, order=0, **{'from': 0}, n=1000, comm=1)
    s.op('BulkClose', id=1, order=1, **{'from': 6000}, n=n - 6000, comm=1)
    s.op('BulkClose', id=3, order=0, **{'from': 0}, n=1, comm=1)
    s.op('BulkClose', id=2, order=1, **{'from': 0}, n=2, comm=1)
    s.finalize()
    return s


def fam_bigcounts(r, cfg, f=0.3):
    """very large counts: sizes and bounds only"""
    s = Sc(r, cfg, f=f)
    s.init()
    ts = [s.bas(r.choice([-3, -10, -1, -29, -27, -11]))]
    for _ in range(r.randint(1, 3)):
        T = r.choice(ts)
        v = s.var('t')
        n = r.choice([1000, 4096, 5000, 9000, 20000, 100000])
        w = r.choice(['TContiguous', 'TVector', 'THvector'])
        e = T.ext()
        bl = r.choice([1, 2])
        if n * bl * max(abs(e), 1) > 300000000 or T.big:
            n = 50
        if w == 'TContiguous':
            N = strided(n, 1, e, T)
            if abs(N.ext()) > 400000:
                pass
            s.op(w, n=n, old=T.var, h=v)
        elif w == 'TVector':
            N = strided(n, bl, 2 * e, T)
            s.op(w, n=n, bl=bl, s=2, old=T.var, h=v)
        else:
            N = strided(n, bl, 2 * e, T)
            s.op(w, n=n, bl=bl, s=2 * e, old=T.var, h=v)
        N.var = v
        s.created(N, T.kind or (-3,))
        s.op('TSize', t=v)
        if abs(N.ub) < 480000 and abs(N.lb) < 480000:
            s.query(N)
            ts.append(N)
        s.op('TCommit', t=v)
        if r.random() < .6:
            s.op('TFree', t=v)
            if N in ts:
                ts.remove(N)
    s.finalize()
    return s


BEYOND = 2 ** 31


def fam_huge(r, cfg, f=0.2, how=None):
    """messages of 2^31 elements and more, of which few move"""
    s = Sc(r, cfg, f=f)
    s.init()
    es = r.choice([1, 2, 4, 8])
    B = s.bas({1: -1, 2: -2, 4: -3, 8: -10}[es])
    N = r.choice([50000, 65536, 65536, 70001])
    bl = r.choice([1, 1, 2])
    T = strided(N // bl, bl, bl * es, B)
    T.var = s.var('t')
    if bl == 1:
        s.op('TContiguous', n=N, old=B.var, h=T.var)
    else:
        s.op(r.choice(['THvector', 'TCreateHvector']), n=N // bl, bl=bl, s=bl * es, old=B.var, h=T.var)
    s.op('TCommit', t=T.var)
    N = T.ne
    cnt = lambda: min(r.choice([BEYOND // N, BEYOND // N + 1, 2 * BEYOND // N, 2 * BEYOND // N + 1, 2 * BEYOND // N + 2, 4 * BEYOND // N + 1, 3 * BEYOND // N, r.randrange(2, 2 ** 31)]), BEYOND - 1)
    at = lambda: r.randrange(KMIN, KMAX + 1) * UNIT + r.randrange(0, WIN // 1024 // 2) * 1024
    few = lambda: r.choice([1, 1, 2, 7, 20])
    c = 1
    for _ in range(r.randint(3, 7)):
        x = r.choice(how or ['late', 'early', 'big', 'probe', 'size', 'coll', 'zero'])
        tag = r.choice([0, 1, 2])
        a, b = at(), at()
        while abs(a - b) < 1024:
            b = at()
        m, v = few(), s.var('q')
        if x in ('late', 'probe', 'zero'):         # huge message first
            s.op('Isend', buf=a, n=cnt(), t=T.var, dest=0, tag=tag, comm=c, req=v)
            if x == 'probe':
                s.op('Iprobe', src=r.choice([0, -1]), tag=r.choice([tag, -1]), comm=c, st=-1)
                if r.random() < .5:
                    s.op('Probe', src=0, tag=tag, comm=c, st=-1)
            z = 0 if x == 'zero' else m
            st = s.st()
            if r.random() < .5:
                s.op('Recv', buf=b, n=z, t=B.var, src=r.choice([0, -1]), tag=r.choice([tag, -1]), comm=c, st=st)
            else:
                w = s.var('q')
                s.op('Irecv', buf=b, n=z, t=B.var, src=0, tag=tag, comm=c, req=w)
                s.op('Wait', req=w, st=st)
            if st >= 0:
                s.op('GetCount', st=st, t=B.var)
                if r.random() < .5:
                    s.op('GetCount', st=st, t=T.var)
            s.op('Wait', req=v, st=-1)
        elif x == 'early':                           # short receive first
            s.op('Irecv', buf=b, n=m, t=B.var, src=0, tag=tag, comm=c, req=v)
            if r.random() < .5:
                s.op(r.choice(['Send', 'Ssend', 'Rsend']), buf=a, n=cnt(), t=T.var, dest=0, tag=tag, comm=c)
            else:
                w = s.var('q')
                s.op(r.choice(['Isend', 'Irsend']), buf=a, n=cnt(), t=T.var, dest=0, tag=tag, comm=c, req=w)
                s.op('Wait', req=w, st=-1)
            st = s.st(0)
            s.op('Wait', req=v, st=st)
            s.op('GetCount', st=st, t=B.var)
        elif x == 'big':                             # short message into a huge buffer
            st = s.st(0)
            if r.random() < .5:
                s.op('Irecv', buf=b, n=cnt(), t=T.var, src=0, tag=tag, comm=c, req=v)
                s.op('Send', buf=a, n=m, t=B.var, dest=0, tag=tag, comm=c)
                s.op('Wait', req=v, st=st)
            else:
                s.op('Isend', buf=a, n=m, t=B.var, dest=0, tag=tag, comm=c, req=v)
                s.op('Recv', buf=b, n=cnt(), t=T.var, src=0, tag=tag, comm=c, st=st)
                s.op('Wait', req=v, st=-1)
            s.op('GetCount', st=st, t=B.var)
        elif x == 'size':
            k = cnt()
            while k * T.sz >= BEYOND and r.random() < .7:
                k = k // 2
            s.op('PackSize', b='c', n=k, t=T.var, comm=c)
        else:
            o = r.choice(BIGC)
            s.op(o, sbuf=a, sn=cnt(), stp=T.var, rbuf=b, rn=m, rtp=B.var, root=0, comm=c, sd=0, rd=0)
    if r.random() < .5:
        x, m, k, a, b = r.randrange(3), few(), cnt(), at(), at()
        while abs(a - b) < 1024:
            b = at()
        if x == 0:                                   # receive more than is sent
            s.op(r.choice(BIGC), sbuf=a, sn=m, stp=B.var, rbuf=b, rn=k, rtp=T.var, root=0, comm=c, sd=0, rd=0)
        elif x == 1:
            s.op('Pack', buf=a, n=k, t=T.var, out=b, size=r.choice([0, 5, 100, 1000]), pos=r.choice([0, 1]), comm=c)
        else:
            s.op('Unpack', **{'in': a}, n=k, t=T.var, buf=b, size=r.choice([0, 5, 100, 1000]), pos=r.choice([0, 1]), comm=c)
        return s
    s.finalize()
    return s


BIGC = ['Allgather', 'Allgatherv', 'Gather', 'Gatherv', 'Scatter', 'Scatterv', 'Alltoall', 'Alltoallv', 'Alltoallw']


def fam_queue(r, cfg, f=0.2, n=(40, 260), steps=(80, 260)):
    """long queues: many operations pending at once, served, probed and completed in all orders"""
    s = Sc(r, cfg, f=f)
    k = kind_of(r, 0)
    s.init(k)
    s.pad(.2)
    B = s.bas(k[0])
    per = r.choice([1, 1, 2])
    sz = B.sz * per
    cs = ['1']
    for _ in range(r.choice([0, 0, 1, 2])):
        cs.append(s.a_newcomm(k))
    Q = {c: ([], []) for c in cs}           # pending (tag, request) of sends and receives
    done, open_ = [], []
    many = r.random() < .3
    T = list(range(400)) if many else r.choice([(0,), (0, 1), (3, 5, 8), tuple(range(10)), (0, 32767, 32768, 65536, 1 << 30)])
    slots = list(range((WIN - 64) // (sz + 1)))
    r.shuffle(slots)
    where = {'s': slots[:], 'r': slots[:]}
    base = {'s': 0, 'r': UNIT}

    def fits(rt, mt):
        return rt == ANY or rt == mt

    def addr(d):
        return base[d] + where[d].pop() * (sz + 1)

    def post(d, c, blocking=False):
        sq, rq = Q[c]
        if d == 's':
            t = r.choice(T)
            m = next((x for x in rq if fits(x[0], t)), None)
            op = 'Isend' if m is None or r.random() < .7 else r.choice(['Send', 'Irsend', 'Ssend', 'Rsend'])
            a = dict(buf=addr('s'), n=per, t=B.var, dest=0, tag=t, comm=c)
        else:
            t = ANY if r.random() < (.3 if not many else .6) else r.choice(T)
            if many and sq and r.random() < .5:
                t = r.choice(sq)[0]
            m = next((x for x in sq if fits(t, x[0])), None)
            op = 'Irecv' if m is None or r.random() < .6 else 'Recv'
            a = dict(buf=addr('r'), n=per, t=B.var, src=r.choice([0, ANY]), tag=t, comm=c)
        v = s.var('r') if op in ('Isend', 'Irsend', 'Irecv') else None
        if v:
            a['req'] = v
        elif op == 'Recv':
            a['st'] = s.st()
        s.op(op, **a)
        if m is not None:
            (rq if d == 's' else sq).remove(m)
            open_.remove(m[1]) if m[1] in open_ else None
            if m[1]:
                done.append(m[1])
        else:
            (sq if d == 's' else rq).append((t, v))
        if v:
            (done if m is not None else open_).append(v)

    first = r.choice(['s', 'r'])
    total = r.randint(*n)
    for _ in range(total):
        c = r.choice(cs) if r.random() < .5 else cs[0]
        post(first if r.random() < .96 else ('r' if first == 's' else 's'), c)
    other = 'r' if first == 's' else 's'
    for _ in range(r.randint(*steps)):
        c = r.choice(cs) if r.random() < .5 else cs[0]
        a = r.choices(['other', 'same', 'probe', 'wait', 'test', 'any', 'all', 'some', 'free', 'turn'], [34, 8, 12, 8, 6, 4, 4, 5, 3, 1])[0]
        if not where['s'] or not where['r']:
            break
        if a == 'other':
            post(other, c)
        elif a == 'same':
            post(first, c)
        elif a == 'turn':
            first, other = other, first
        elif a == 'probe':
            st = s.st(.1)
            s.op('Iprobe', src=r.choice([0, ANY]), tag=r.choice([ANY, r.choice(T)] + [x[0] for x in Q[c][0][-1:]]), comm=c, st=st)
        elif a == 'wait' and done:
            v = done.pop(r.randrange(len(done)))
            s.op('Wait', req=v, st=s.st())
        elif a == 'test' and (done or open_):
            v = r.choice(done + open_)
            s.op('Test', req=v, st=s.st())
            if v in done:
                done.remove(v)
        elif a == 'free' and (done or open_):
            v = r.choice(done + open_)
            s.op('RequestFree', req=v)
            for q in Q.values():
                for l in q:
                    l[:] = [(t, None if x == v else x) for t, x in l]
            for l in (done, open_):
                if v in l:
                    l.remove(v)
        elif a in ('any', 'all', 'some'):
            vs = r.sample(done, min(len(done), r.choice([3, 20, 50]))) + r.sample(open_, min(len(open_), r.choice([0, 0, 2, 30])))
            vs = vs[:80]
            if a == 'any' and not [v for v in vs if v in done]:
                vs = []
            r.shuffle(vs)
            if a == 'any':
                # which one is completed is the library's choice: keep one candidate
                d = [v for v in vs if v in done]
                vs = [v for v in vs if v not in done or v == d[0]]
                s.op('Testany' if r.random() < .5 else 'Waitany', reqs=vs, st=s.st())
                for v in d[:1]:
                    done.remove(v)
            elif a == 'all':
                whole = all(v in done for v in vs)
                s.op('Waitall' if whole and r.random() < .5 else 'Testall', reqs=vs, sts=s.sts(len(vs)))
                if whole:
                    for v in vs:
                        done.remove(v)
            else:
                d = [v for v in vs if v in done]
                s.op('Waitsome' if d and r.random() < .5 else 'Testsome', reqs=vs, sts=s.sts(len(vs)))
                for v in d:
                    done.remove(v)
    if r.random() < .5:
        for c in cs[1:]:
            s.op('CommFree', comm=c)
    s.finalize()
    return s


def fam_bulk(r, cfg, f=0.3, how=None, rich=0.5, moves=(2, 5)):
    """large transfers: hundreds to tens of thousands of items, and types with very many elements"""
    s = Sc(r, cfg, f=f)
    k = (r.choice([-3, -3, -1, -10, -2, -9, -11, -29, -27, -30, -25]),) if r.random() < rich else (r.choice([-3, -1, -10]),)
    s.init(k)
    g = {-1: 1, -2: 2, -30: 2, -10: 8, -11: 16}.get(k[0], 4)
    E = s.bas(k[0])
    e = E.ext()
    ts = [E]
    for _ in range(r.randint(1, 4)):
        O = r.choice(ts)
        x = O.ext()
        w = r.choice(['TContiguous', 'TVector', 'THvector', 'TCreateHvector', 'TIndexed', 'TIndexedBlock', 'THindexed', 'TStruct', 'TDup'])
        large = r.random() < .4
        room = 400000 // max(abs(x), 1)
        v = s.var('t')
        n = r.choice([255, 256, 257, 300, 1000, 4096, 5000, 33000, 65535, 65536, 65537, 70000]) if large else r.choice([1, 2, 3, 4, 7, 16])
        if w == 'TContiguous':
            n = max(1, min(n, room))
            N = strided(n, 1, x, O)
            kw = dict(n=n)
        elif w in ('TVector', 'THvector', 'TCreateHvector'):
            bl = r.choice([1, 2, 3]) if not large or r.random() < .7 else r.choice([256, 300, 1000])
            st = bl + r.choice([0, 1, 2])
            n = min(n, room // (st + 1))
            if n < 1:
                continue
            st *= r.choice([1, 1, 1, -1])
            N = strided(n, bl, st * x, O)
            kw = dict(n=n, bl=bl, s=st if w == 'TVector' else st * x)
        elif w == 'TDup':
            N = Ty(**{a: getattr(O, a) for a in ('ne', 'sz', 'lb', 'ub', 'ol', 'ou', 'nlb', 'nub', 'mx', 'com', 'mark', 'big', 'bm', 'sg', 'eo')})
            kw = {}
        else:
            nb = r.choice([1, 2, 3, 5]) if not large or r.random() < .5 else r.choice([300, 1000])
            b1 = r.choice([1, 2, 3]) if not large or nb > 100 or r.random() < .3 else min(n, room // 8)
            if nb * (b1 + 3) > room or b1 < 1:
                continue
            bls = [b1 if w == 'TIndexedBlock' or large else r.choice([1, 2, 3]) for _ in range(nb)]
            ds, cur = [], r.choice([0, 0, 1, -2])
            for b in bls:
                ds.append(cur)
                cur += b + r.choice([0, 0, 1, 2])
            if r.random() < .4:
                z = list(range(nb))
                r.shuffle(z)
                ds, bls = [ds[i] for i in z], [bls[i] for i in z]
            N = struct(bls, [d * x for d in ds], [O] * nb)
            if w == 'TIndexed':
                kw = dict(bls=bls, ds=ds)
            elif w == 'TIndexedBlock':
                kw = dict(bl=b1, ds=ds)
            elif w == 'THindexed':
                kw = dict(bls=bls, ds=[d * x for d in ds])
            else:
                kw = dict(bls=bls, ds=[d * x for d in ds], olds=[O.var] * nb)
                if r.random() < .3:       # padded by a marker
                    mk = predef(-15, cfg)
                    bls = bls + [1]
                    d2 = [d * x for d in ds] + [N.ub + r.choice([0, 4, 16]) * g]
                    N = struct(bls, d2, [O] * nb + [mk])
                    kw = dict(bls=bls, ds=d2, olds=[O.var] * nb + [mk.var])
        if w != 'TStruct':
            kw['old'] = O.var
        if any(abs(q) > 450000 for q in (N.lb, N.ub, N.nlb, N.nub, N.ext())) or N.sz > 300000 or N.ext() <= 0:
            continue
        s.op(w, h=v, **kw)
        N.var = v
        N.ovl = False
        s.created(N, k)
        s.query(N, .4)
        if N.ext() >= N.nub - N.nlb:
            ts.append(N)
    for T in ts:
        s.commit(T)
    c = '1'
    if r.random() < .3:
        c = s.a_newcomm(k)
    for _ in range(r.randint(*moves)):
        w = r.choice(how) if how else r.choice(BIGHOW)
        T, U = r.choice(ts), r.choice(ts)
        goal = r.choice([255, 256, 257, 300, 512, 1000, 5000, 20000, 32768, 65536, 70000]) * r.choice([1, 1, 1, E.ne])
        goal = min(goal, 250000 // e, 2000000 // max(T.ext() // T.ne, U.ext() // U.ne, 1))
        if e <= 8 and r.random() < .25:         # counts that need more than 16 bits
            T = r.choice([E] + [x for x in ts if x.ne <= 2 and x.ext() <= 3 * e])
            U = r.choice([T, E])
            goal = r.choice([65535, 65536, 65537, 70000, 80000]) * T.ne
        if T.ne > 2 * goal or U.ne > 2 * goal:
            goal = max(T.ne, U.ne)
        n = max(1, goal // T.ne)
        if w in ('Reduce', 'Allreduce', 'ReduceScatter', 'Scan'):
            U, m = T, n
        else:
            m = n * T.ne // U.ne
            if r.random() < .2:
                m = r.randint(0, m)
            if m == 0:
                U, m = T, n
        if w in BIGHOW[:5] and r.random() < .2:
            m += r.randint(1, 3)
        if w in BIGHOW[:5] and n * T.ne < m * U.ne and T.sz * U.ne != U.sz * T.ne:
            continue
        lo = min([0] + [X.nlb + q for X, z in ((T, n), (U, m)) for q in (0, (z - 1) * X.ext())])
        hi = max([0] + [X.nub + q for X, z in ((T, n), (U, m)) for q in (0, (z - 1) * X.ext())])
        s.op('BigMove', how=w, n=n, m=m, t=T.var, u=U.var, comm=c, g=g, lo=lo, hi=hi)
    s.finalize()
    return s


BIGHOW = ['Isend', 'Irecv', 'Both', 'Probe', 'Sendrecv', 'Pack', 'Allgather', 'Allgatherv', 'Gather', 'Gatherv', 'Scatter', 'Scatterv', 'Alltoall',
          'Alltoallv', 'Alltoallw', 'Reduce', 'Allreduce', 'ReduceScatter', 'Scan']
