#!/usr/bin/env python3
"""Shows that the machinery can say no.

  teeth.py spec    for each property, a wrong specification (one operator of Library.tla
                   changed): TLC has to find that property violated
  teeth.py logs    recorded executions with one field of one event changed: the validation
                   has to reject them
Not part of any check; its results are quoted in DESIGN.md.
"""
import json, os, random, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import build, check, gen                                                     # noqa: E402
from plan import PLAN                                                        # noqa: E402

# property, configuration, constants, file, text, replacement
S = 'Library.tla'
LY = 'Layout.tla'
MUT = [
 ('C01', 'MC_match', dict(MaxLevel=3, Comms='{1}'), S, "S.comms[c].rq  M == {i \\in 1..Len(q) : Accepts(S.reqs[q[i]].tag, tag)} IN IF M = {} THEN 0 ELSE SMin(M)",
  "S.comms[c].rq  M == {i \\in 1..Len(q) : Accepts(S.reqs[q[i]].tag, tag)} IN IF M = {} THEN 0 ELSE SMax(M)", 'the newest matching receive is taken'),
 ('C01', 'MC_match', dict(MaxLevel=3, Comms='{1}'), S, "S.comms[c].sq  M == {i \\in 1..Len(q) : Accepts(tag, S.reqs[q[i]].tag)} IN IF M = {} THEN 0 ELSE SMin(M)",
  "S.comms[c].sq  M == {i \\in 1..Len(q) : Accepts(tag, S.reqs[q[i]].tag)} IN IF M = {} THEN 0 ELSE SMax(M)", 'the newest matching message is taken'),
 ('C01', 'MC_match', dict(MaxLevel=3, Comms='{1}'), S, "Accepts(rtag, mtag) == rtag = ANY \\/ rtag = mtag", "Accepts(rtag, mtag) == rtag = mtag", 'ANY_TAG is no wildcard'),
 ('C02', 'MC_data', dict(Part='"p2p"'), S, "LET n  == Min2(Prod(sn, sT.ne), Prod(dn, dT.ne))\n", "LET n  == Min2(Prod(sn, sT.ne), Prod(dn, dT.ne) - (IF dn > 1 THEN 1 ELSE 0))\n", 'the last element is lost'),
 ('C02', 'MC_data', dict(Part='"p2p"'), LY, "+ (i \\div T.sz) * Extent(T)", "+ (i \\div T.sz) * T.sz", 'items are placed at their size, not their extent'),
 ('C03', 'MC_req', dict(MaxLevel=3), S, "[S |-> [S EXCEPT !.reqs = Put(rq, key, Done(\"r\", 0, s.tag, D.n))", "[S |-> [S EXCEPT !.reqs = Put(rq, key, Done(\"r\", 0, tag, D.n))", 'a receive with ANY_TAG reports the wildcard'),
 ('C04', 'MC_req', dict(MaxLevel=3), S, "IF ~IsDone(S, a.req)\n     THEN IF blocking", "IF FALSE\n     THEN IF blocking", 'an incomplete request is reported complete'),
 ('C04', 'MC_req', dict(MaxLevel=3), S, "IF r.done \\/ r.c \\notin DOMAIN S.comms THEN Release(S, {a.req})", "IF TRUE THEN Release([S EXCEPT !.comms[WORLD].sq = <<>>], {a.req})", 'freeing a request cancels the operation'),
 ('C05', 'MC_req', dict(MaxLevel=4), S, "(\"idx\" :> ch.idx) @@ (\"reqs\" :> Nulled(q, {i}))), a.st, S.reqs[q[i]])", "(\"idx\" :> ch.idx) @@ (\"reqs\" :> Nulled(q, Ready(S, q)))), a.st, S.reqs[q[i]])", 'Testany clears every completed handle'),
 ('C05', 'MC_req', dict(MaxLevel=3), S, "IN IF Ready(S, q) # Active(q)", "IN IF Ready(S, q) = {} /\\ Active(q) # {}", 'Testall is satisfied with one'),
 ('C06', 'MC_match', dict(MaxLevel=2), S, "IN IF ~E.hit THEN Fatal(S)                \\* nobody", "IN IF FALSE THEN Fatal(S)                \\* nobody", 'a blocking send nobody receives returns'),
 ('C07', 'MC_comms', dict(MaxLevel=3), S, "MakeComm(S, h, C) == [Quiet([S EXCEPT !.comms = Put(@, h, C)])", "MakeComm(S, h, C) == [Quiet([S EXCEPT !.comms = Put(@, h, [C EXCEPT !.sq = S.comms[WORLD].sq])])", 'a new communicator starts with messages of the world communicator'),
 ('C08', 'MC_match', dict(MaxLevel=3, Comms='{1}'), S, "Status(flag(1), a.st, 0, s.tag, s.cnt * s.ty.ne)", "Status(flag(1), a.st, 0, a.tag, s.cnt * s.ty.ne)", 'a probe reports the tag asked for'),
 ('C08', 'MC_match', dict(MaxLevel=3, Comms='{1}'), S, "flag(1), a.st, 0, s.tag, s.cnt * s.ty.ne)", "flag(1), a.st, 0, s.tag, s.cnt * s.ty.ne + 1)", 'a probe reports another length'),
 ('C09', 'MC_null', dict(Part='"null"', MaxLevel=2), S, "ELSE IF a.src = PROCNULL THEN Status(Quiet(S), a.st, PROCNULL, ANY, 0)", "ELSE IF a.src = PROCNULL THEN Status(Quiet(S), a.st, 0, ANY, 0)", 'a receive from PROC_NULL reports source 0'),
 ('C10', 'MC_life', dict(MaxLevel=4), S, "Fresh(S, h) == h # NULL /\\ h \\notin Live(S)", "Fresh(S, h) == h # NULL /\\ h \\notin (Live(S) \\ DOMAIN S.types)", 'handles of live types are given out again'),
 ('C11', 'MC_types', dict(MaxLevel=2, Rich=0), LY, "MkContiguous(n, T)          == MkStrided(n, 1, Extent(T), T)", "MkContiguous(n, T)          == MkStrided(n, 1, T.sz, T)", 'contiguous copies are packed at their size'),
 ('C12', 'MC_types', dict(MaxLevel=1, Rich=2), LY, "ExtentDef(T) == IF T.ol \\/ T.ou THEN", "ExtentDef(T) == IF T.ou THEN", 'an explicit lower bound does not stop the padding'),
 ('C12', 'MC_types', dict(MaxLevel=1, Rich=2), LY, "RoundUp(n, m) == IF n % m = 0 THEN n ELSE", "RoundUp(n, m) == IF TRUE THEN n ELSE", 'no padding'),
 ('C13', 'MC_life', dict(MaxLevel=4), S, "\"TFree\"     -> Outs([S EXCEPT !.types = Drop(@, a.t)], \"h\" :> NULL)", "\"TFree\"     -> Outs([S EXCEPT !.types = [k \\in DOMAIN @ \\ {a.t} |-> [@[k] EXCEPT !.com = FALSE]]], \"h\" :> NULL)", 'freeing a type uncommits the others'),
 ('C14', 'MC_data', dict(Part='"pack"', MaxLevel=1), S, "over == nb > a.size - a.pos /\\ nb > 0", "over == nb >= a.size - a.pos /\\ nb > 0", 'a pack that just fits is refused'),
 ('C14', 'MC_data', dict(Part='"pack"', MaxLevel=1), S, "\"PackSize\" -> Outs(S, (\"v\" :> nb)", "\"PackSize\" -> Outs(S, (\"v\" :> nb + 8)", 'Pack_size is not what Pack uses'),
 ('C15', 'MC_data', dict(Part='"coll"', MaxLevel=1), S, "rd == IF op \\in {\"Gatherv\", \"Allgatherv\", \"Alltoallv\"} THEN a.rd * Extent(rT)", "rd == IF op \\in {\"Gatherv\", \"Allgatherv\", \"Alltoallv\"} THEN a.rd * Extent(sT)", 'receive displacements in extents of the send type'),
 ('C16', 'MC_data', dict(Part='"coll"', MaxLevel=1), S, "ELSE IF op \\notin {\"Scatter\", \"Scatterv\"} /\\ a.sbuf = INPLACE THEN Quiet(S)", "ELSE IF op \\notin {\"Scatter\", \"Scatterv\", \"Alltoallw\"} /\\ a.sbuf = INPLACE THEN Quiet(S)", 'IN_PLACE not recognised by Alltoallw'),
 ('C17', 'MC_comms', dict(Part='"groups"', MaxLevel=1), S, "Members(a.g1) \\cap Members(a.g2)", "Members(a.g1) \\cup Members(a.g2)", 'intersection is union'),
 ('C17', 'MC_comms', dict(Part='"groups"', MaxLevel=1), S, "IF a.ranks[i] \\in Members(a.g2) THEN 0 ELSE UNDEF", "0", 'translation ignores the second group'),
 ('C17', 'MC_comms', dict(Part='"groups"', MaxLevel=1), S, "IF (l - f) \\div s < 0 THEN -1 ELSE (l - f) \\div s", "IF (l - f) \\div s < 0 THEN -1 ELSE 0", 'ranges select their first rank only'),
 ('C18', 'MC_comms', dict(MaxLevel=2), S, "IF a.color = UNDEF THEN NoComm(S)", "IF a.color = 3 THEN NoComm(S)", 'MPI_UNDEFINED colour makes a communicator'),
 ('C18', 'MC_comms', dict(MaxLevel=3), S, "IF Len(c.sq) + Len(c.rq) = 0 THEN <<\"none\">>", "IF Len(c.sq) = 0 THEN <<\"none\">>", 'pending receives are not reported when a communicator is freed'),
 ('C20', 'MC_life', dict(MaxLevel=3), S, "IF S.ph # \"pre\" THEN Fatal(S)", "IF S.ph = \"fin\" THEN Fatal(S)", 'a second MPI_Init is accepted'),
 ('C11', 'MC_types', dict(MaxLevel=2, Rich=0), LY, "MkVector(n, bl, s, T)       == MkStrided(n, bl, s * Extent(T), T)", "MkVector(n, bl, s, T)       == MkStrided(n, bl, s * T.sz, T)", 'vector strides count sizes'),
 ('C11', 'MC_types', dict(MaxLevel=1, Rich=1), LY, "MkHindexed(bls, ds, T)      == MkStruct(bls, ds, Rep", "MkHindexed(bls, ds, T)      == MkStruct(bls, [k \\in 1..Len(ds) |-> ds[k] - ds[1]], Rep", 'hindexed is relative to its first block'),
 ('C21', 'MC_predef', dict(MaxLevel=1), LY, "t = -27 -> Pair(-10, 8, -3, 4, 8, 16)", "t = -27 -> Pair(-10, 8, -3, 4, 8, 12)", 'MPI_DOUBLE_INT without padding'),
 ('C22', 'MC_null', dict(Part='"bad"', MaxLevel=1), S, "ValidSrc(s) == s \\in {0, ANY, PROCNULL}", "ValidSrc(s) == s < 1", 'every negative source is accepted'),
 ('C22', 'MC_null', dict(Part='"bad"', MaxLevel=1), S, "IF Prod(sn, sT.ne) < Prod(rn, rT.ne) THEN Fatal(S)", "IF sn < rn THEN Fatal(S)", 'over-receive judged by items'),
 ('C23', 'MC_comms', dict(Part='"cart"', MaxLevel=2), S, "IF \\E i \\in 1..a.nd : a.dims[i] > 1 THEN Fatal(S)", "IF a.nd > 0 /\\ a.dims[1] > 1 THEN Fatal(S)", 'only the first dimension is looked at'),
 ('C23', 'MC_comms', dict(Part='"cart"', MaxLevel=2), S, "!.per = SubSeq(a.per, 1, a.nd)", "!.per = Rep(a.nd, 0)", 'periodicity is forgotten'),
 ('C24', 'MC_life', dict(MaxLevel=3), S, "\"Finalize\"    -> Quiet([S EXCEPT !.ph = \"fin\"])", "\"Finalize\"    -> [Quiet([S EXCEPT !.ph = \"fin\"]) EXCEPT !.out = <<\"warn\", 0, 0>>]", 'MPI_Finalize prints'),
 ('C25', 'MC_life', dict(MaxLevel=4), S, "rq == IF s.zomb THEN Drop(S.reqs, sk) ELSE", "rq == IF FALSE THEN Drop(S.reqs, sk) ELSE", 'a freed send is kept after it completed'),
]


def copy_spec(tmp):
    d = os.path.join(tmp, 'spec')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, 'spec'), d)
    return d


def spec():
    bad = 0
    for pid, mod, const, fn, old, new, what in MUT:
        if not old or not new:
            continue
        tmp = tempfile.mkdtemp(prefix='verif-teeth-')
        try:
            d = copy_spec(tmp)
            t = open(os.path.join(d, fn)).read()
            if t.count(old) < 1:
                print('%s %-12s NOT APPLICABLE: %s' % (pid, mod, what))
                bad += 1
                continue
            open(os.path.join(d, fn), 'w').write(t.replace(old, new))
            base = open(os.path.join(d, mod + '.cfg')).read()
            for k, v in const.items():
                base = re.sub(r'(?m)^(\s*%s = ).*$' % k, lambda m: m.group(1) + str(v), base)

            def keep(m):
                names = [x for x in m.group(2).split() if x.startswith(pid)]
                return m.group(1) + ' ' + ' '.join(names) if names else ''
            base = re.sub(r'(?m)^(INVARIANTS|PROPERTIES) (.*)$', keep, base)
            cfg = os.path.join(tmp, 'x.cfg')
            open(cfg, 'w').write(base)
            check.SPEC = d
            rc, out = check.tlc(mod + '.tla', cfg, os.path.join(tmp, 'meta'), workers=6, heap='4g', timeout=300)
            m = re.search(r'Error: (Invariant|Action property|Temporal properties|.*) ?(\w*).*', out)
            hit = re.search(r'%s\w* (is|of .* is) violated|%s\w* is equal to FALSE|property %s\w* is violated' % (pid, pid, pid), out) or (rc in (12, 13) and re.search(r'%s\w*.*violated' % pid, out))
            n = re.findall(r'(\d[\d,]*) states generated', out)
            print('%s %-9s %-60s %s' % (pid, mod, what, 'VIOLATED' if hit else 'NOT FOUND rc=%d %s' % (rc, (m.group(0) if m else out[-300:])[:200])), flush=True)
            bad += not hit
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return bad


# ------------------------------------------------------------------ corrupted logs
def paths(o, p=()):
    if isinstance(o, dict):
        for k in o:
            yield from paths(o[k], p + (k,))
    elif isinstance(o, list):
        for i in range(len(o)):
            yield from paths(o[i], p + (i,))
    else:
        yield p


def at(o, p):
    for k in p:
        o = o[k]
    return o


def put(o, p, v):
    at(o, p[:-1])[p[-1]] = v


def logs(fams, n, seed=1):
    """one log of scenarios, then the same with one observation of one event changed per scenario"""
    rng = random.Random(seed)
    tmp = tempfile.mkdtemp(prefix='verif-teeth-')
    stats = {}
    try:
        exe = build.build('std')
        cfg = check.config_of('std')
        sc = []
        for fam in fams:
            for i in range(n):
                s = getattr(gen, 'fam_' + fam)(random.Random('%s%d' % (fam, i)), cfg)
                sc.append(s.text('%s-%d' % (fam, i)))
        sf, lf = os.path.join(tmp, 's.txt'), os.path.join(tmp, 'l.ndjson')
        open(sf, 'w').writelines(sc)
        check.drive(exe, [], sf, lf, seed)
        check.sanitise(lf)
        lines = [json.loads(x) for x in open(lf)]
        scen, cur = [], None
        for e in lines:
            if e['op'] == 'Start':
                cur = [e]
                scen.append(cur)
            else:
                cur.append(e)
        what = {}
        new = []
        if True:
            for s in scen:
                s = json.loads(json.dumps(s))
                for _ in range(50):
                    k = rng.randrange(1, len(s))
                    e = s[k]
                    # observations only: arguments are not the library's
                    ps = [p for p in paths({x: e[x] for x in ('o', 'chg', 'st', 'end', 'stray') if x in e}) if p[:2] not in (('o', 'code'), ('o', 'msg'), ('o', 'cpu'))]
                    ps += [('chg', 'drop')] * 2 if e.get('chg') else []
                    ps += [('ob', 'say')]
                    p = rng.choice(ps)
                    if e['op'] in ('Wtime', 'MemMark', 'LangSizes', 'Consts', 'BulkOpen', 'BulkClose', 'LibVersion', 'ProcName', 'ErrorString', 'Cycle'):
                        continue
                    break
                else:
                    continue
                if p == ('chg', 'drop'):
                    del e['chg'][rng.randrange(len(e['chg']))]
                elif p == ('ob', 'say'):
                    e['ob'] = 17
                elif p == ('end',):
                    e['end'] = rng.choice([x for x in ('ok', 'abort', 'exit', 'crash', 'hang') if x != e['end']])
                else:
                    v = at(e, p)
                    if isinstance(v, bool) or not isinstance(v, (int, str)):
                        continue
                    put(e, p, v + rng.choice([1, -1, 5]) if isinstance(v, int) else v + 'x')
                s[0]['a']['name'] = s[0]['a']['name'] + '!'
                what[s[0]['a']['name']] = (e['op'], '.'.join(str(x) for x in p), json.dumps(e) if os.environ.get('SHOW') else '')
                new.append((s[0]['a']['name'], ''.join(json.dumps(x) + '\n' for x in s)))
        hit, stuck = set(), 0
        while new:
            open(lf, 'w').writelines(x for _, x in new)
            ok, mis, err = check.validate(lf, os.path.join(tmp, 'meta'))
            hit |= {m[0] for m in mis}
            if ok is not None:
                break
            stuck += 1          # an event that has no meaning at all
            hit.add(err[0])
            new = new[[x for x, _ in new].index(err[0]) + 1:]
        print('%d of them cannot be interpreted at all' % stuck)
        miss = [(n, *w) for n, w in what.items() if n not in hit]
        print('%d scenarios changed, %d rejected' % (len(what), len(hit)))
        for m in miss:
            print('  accepted: %s %s %s %s' % m)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'spec':
        if len(sys.argv) > 2:
            MUT[:] = [m for m in MUT if m[0] in sys.argv[2:]]
        sys.exit(1 if spec() else 0)
    logs(sys.argv[2:] or ['p2p', 'coll', 'pack', 'types', 'comms', 'groups', 'cart', 'life', 'errors', 'predef'], 30)
