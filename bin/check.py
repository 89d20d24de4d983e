#!/usr/bin/env python3
"""Decides one property of properties.jsonl against /repo's working tree.

  check.py C01              quick or thorough by VERIF_TIER, seed from VERIF_SEED
  check.py --replay FILE    run one recorded scenario again

1. TLC checks the property on the specification (spec/MC_*.tla) and prints the call
   sequences it explored;
2. these, and scenarios generated at random for the property, are run by the driver
   linked with the library as it is in /repo;
3. TLC validates the recorded executions against the specification (spec/Trace.tla).

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken;
exit 2: the machinery failed.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, gen                                                     # noqa: E402
from plan import PLAN                                                 # noqa: E402

SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4
MAXREPORT = 5
END = [float('inf')]                       # when the check has to be done


def left(cap):
    return max(5, min(cap, END[0] - time.time()))


class Machinery(Exception):
    pass


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, meta, workers=1, env=None, heap='2g', timeout=800, extra=(), short=False):
    jvm = ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if short else ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, workers)]
    cmd = ['java', '-Xmx' + heap, '-Xss64m', *jvm, '-cp', JARS, 'tlc2.TLC',
           '-workers', str(workers), '-noGenerateSpecTE', '-deadlock', '-metadir', meta, *extra, '-config', cfg, module]
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=left(timeout))
    except subprocess.TimeoutExpired:
        raise Machinery('TLC did not finish on %s within %d s' % (module, timeout))
    return p.returncode, p.stdout


BIG = re.compile(r'-?\d{10,}')


def clamp(m):
    v = int(m.group(0))
    return m.group(0) if -2147483647 <= v <= 2147483647 else ('2147483646' if v > 0 else '-2147483646')


DIED = '{"op":"Died","b":"c","a":{},"o":{"code":0,"msg":"unreadable log"},"end":"crash","chg":[],"st":[],"stch":[],"stray":0,"ob":0,"eb":0,"ws":[],"wr":[]}\n'


def sanitise(path):
    """JSON that TLC can read: integers of 32 bits, no broken lines (the program under test may have overwritten the log)"""
    out, skip, n = [], False, 0
    with open(path, errors='replace') as f:
        for line in f:
            start = line.startswith('{"op":"Start"')
            if skip and not start:
                continue
            skip = False
            line = BIG.sub(clamp, line)
            try:
                json.loads(line)
            except ValueError:
                line, skip = DIED, True
            out.append(line)
            n += 1
    with open(path, 'w') as f:
        f.writelines(out)
    return n


class Results:
    def __init__(self):
        self.lock = threading.Lock()
        self.events = self.scenarios = 0
        self.bad = []              # (variant, name, text, message)
        self.states = self.transitions = self.mc_depth = 0
        self.mc = []
        self.samples = []
        self.failed = []
        self.distinct = set()


def drive(exe, args, script, log, seed, extra=()):
    try:
        p = subprocess.run([exe, script, log, str(seed), *args, *extra], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=left(600),
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99'))
    except subprocess.TimeoutExpired:
        raise Machinery('the driver did not finish')
    if p.returncode:
        raise Machinery('driver failed (%d): %s' % (p.returncode, p.stdout[-1500:]))


def tlc_stop_on_error(module, cfg, meta, env, heap='2g', timeout=800, short=False):
    """like tlc, but does not wait for the behaviour that TLC prints after an error (it may be huge)"""
    jvm = ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if short else ['-XX:+UseParallelGC', '-XX:ParallelGCThreads=2']
    cmd = ['java', '-Xmx' + heap, '-Xss64m', *jvm, '-cp', JARS, 'tlc2.TLC', '-workers', '1', '-noGenerateSpecTE', '-deadlock', '-metadir', meta, '-config', cfg, module]
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env)
    e.pop('JAVA_TOOL_OPTIONS', None)
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    late = threading.Event()
    t = threading.Timer(left(timeout), lambda: (late.set(), p.kill()))
    t.start()
    out, after = [], 0
    try:
        for line in p.stdout:
            out.append(line)
            if after or line.startswith('Error:'):
                after += 1
                if after > 60 or line.startswith('Error: The behavior up to this point'):
                    p.kill()
                    break
        p.stdout.close()
        rc = p.wait()
    finally:
        t.cancel()
    if late.is_set():
        raise Machinery('TLC did not finish on %s within %d s' % (module, timeout))
    return rc, ''.join(out)


def validate(log, meta):
    """[(scenario, line, report)], events, scenarios"""
    rc, out = tlc_stop_on_error('Trace.tla', 'Trace.cfg', meta, {'TRACE': log}, short=os.path.getsize(log) < 8000000)
    done = re.search(r'<<"DONE", (\d+), (\d+), (\d+)>>', out)
    mis = [(m.group(1), m.group(2), m.group(3)) for m in re.finditer(r'^<<"MISMATCH", "([^"]*)", (\d+), "(.*)">>$', out, re.M)]
    if not done or rc != 0:
        i = out.find('Error:')
        at = re.findall(r'^<<"AT", "([^"]*)">>$', out, re.M)
        return None, mis, (at[-1] if at else None, out[i:i + 1500] if i >= 0 else out[-1500:])
    return (int(done.group(1)), int(done.group(2))), mis, ''


def run_chunk(tmp, tag, variant, scen, seed, depth=0):
    """scen: [(name, text)].  returns (events, scenarios, [(name, why)])"""
    exe = build.build(variant)
    args = build.VARIANTS[variant].get('args', [])
    sf, lf, md = (os.path.join(tmp, tag + x) for x in ('.txt', '.ndjson', '.meta'))
    with open(sf, 'w') as f:
        f.writelines(t for _, t in scen)
    drive(exe, args, sf, lf, seed)
    sanitise(lf)
    ok, mis, err = validate(lf, md)
    shutil.rmtree(md, ignore_errors=True)
    if ok is None:
        # an event the specification cannot even evaluate: it stands in the scenario TLC was in
        at, err = err
        names = [n for n, _ in scen]
        if 'Error' not in err or 'OutOfMemory' in err or at not in names:
            raise Machinery('trace validation failed: ' + err)
        bad = [(n, why(rep)) for n, _, rep in mis] + [(at, 'the recorded execution cannot be interpreted: ' + err[:600])]
        rest = scen[names.index(at) + 1:]
        if rest and depth < 6:
            a, b, c = run_chunk(tmp, tag + 'r', variant, rest, seed, depth + 1)
            return a, b + len(scen) - len(rest), bad + c
        return 0, len(scen) - len(rest), bad
    os.unlink(lf)
    os.unlink(sf)
    return ok[0], ok[1], [(n, why(rep)) for n, _, rep in mis]


def why(rep):
    try:
        r = json.loads(rep.replace('\\"', '"').replace('\\\\', '\\'))
        e = r['event']
        e = {k: e[k] for k in ('op', 'b', 'a', 'o', 'end', 'chg', 'st', 'stray', 'ob', 'eb') if k in e}
        if len(e.get('chg', [])) > 24:
            e['chg'] = e['chg'][:24] + ['...']
        return '%s: %s\n  observed %s\n  expected %s' % (r['op'], r['why'], json.dumps(e)[:3000], r['expected'][:1500])
    except Exception:
        return rep[:2000]


# ------------------------------------------------------------------ model checking
HANDLE = {'comm', 'req', 'reqs', 't', 'old', 'olds', 'stp', 'rtp', 'lc', 'pc'}
GROUP = {'g', 'g1', 'g2'}
MAKERS = {'CommDup', 'CommSplit', 'CommCreate', 'IntercommCreate', 'IntercommMerge', 'CartCreate', 'TStruct', 'TContiguous', 'TVector', 'THvector',
          'TCreateHvector', 'TIndexed', 'TIndexedBlock', 'THindexed', 'TDup'}
GMAKERS = {'CommGroup', 'GroupUnion', 'GroupIntersection', 'GroupDifference', 'GroupIncl', 'GroupRangeIncl'}


def cycles(steps, rng, f):
    """a call sequence that releases everything it makes, again and again: the memory in use stays the same"""
    if any(x['op'] in ('Init', 'Initialized', 'Finalize') for x in steps):
        steps = [x for x in steps if x['op'] not in ('Init', 'Initialized', 'Finalize')]
    s = gen.Sc(rng, dict(fr=4, fd=8), f=f)
    s.op('Init', thread=0, req=0)
    for i in range(5):
        s.op('MemMark', id=i, rel=0) if i == 2 else s.op('MemMark', id=i, rel=2) if i > 2 else None
        play(s, steps)
    s.op('MemMark', id=5, rel=2)
    return s


def script(steps, rng, f):
    """one scenario from a call sequence printed by TLC"""
    s = gen.Sc(rng, dict(fr=4, fd=8), f=f)
    if not steps or steps[0]['op'] != 'Init' and not any(x['op'] == 'Init' for x in steps) and steps[0]['op'] not in ('Initialized',):
        s.op('Init', thread=0, req=0)
    play(s, steps)
    return s


def play(s, steps):
    made = {}

    def hv(v):
        return made.get(v, v)
    for st in steps:
        kv = {}
        for k, v in st['a'].items():
            if k == 'none':
                continue
            if k in HANDLE:
                v = [hv(x) for x in v] if isinstance(v, list) else hv(v)
            elif k in GROUP and v == 2:
                v = '$g2'
            kv[k] = v
        op = st['op']
        if op in ('Isend', 'Irsend', 'Irecv'):
            made[st['h']] = kv['req'] = '$h%d' % st['h']
        elif op in MAKERS:
            made[st['h']] = kv['h'] = '$h%d' % st['h']
        elif op in GMAKERS:
            kv['g'] = '$g2' if st['g'] == 2 else '$ge'
        s.op(op, **kv)


SCR = re.compile(r'^<<"SCRIPT", "(\w+)", "(.*)">>$', re.M)


def model_check(pid, mc, tmp, tag, res):
    """run one configuration; returns the printed call sequences"""
    base = open(os.path.join(SPEC, mc['mod'] + '.cfg')).read()
    for k, v in mc.get('const', {}).items():
        base, n = re.subn(r'(?m)^(\s*%s = ).*$' % k, lambda m: m.group(1) + str(v), base)
        if n != 1:
            raise Machinery('constant %s of %s' % (k, mc['mod']))
    if mc.get('emit'):
        base = base.replace('Emitting = FALSE', 'Emitting = TRUE')
    if mc.get('emitter'):
        base = base.replace('ACTION_CONSTRAINT Emit\n', 'ACTION_CONSTRAINT %s\n' % mc['emitter'])
    if mc.get('only'):          # the properties to be checked
        def keep(m):
            names = [x for x in m.group(2).split() if any(x.startswith(o) for o in mc['only'])]
            return m.group(1) + ' ' + ' '.join(names) if names else ''
        base = re.sub(r'(?m)^(INVARIANTS|PROPERTIES) (.*)$', keep, base)
    cfg = os.path.join(tmp, tag + '.cfg')
    open(cfg, 'w').write(base)
    t0 = time.time()
    extra = ['-coverage', '60'] if os.environ.get('VERIF_COVERAGE') else []
    if mc.get('simulate'):
        extra += ['-simulate', 'num=%d' % mc['simulate'], '-depth', str(mc['depth']), '-seed', os.environ.get('VERIF_SEED', '1')]
    rc, out = tlc(mc['mod'] + '.tla', cfg, os.path.join(tmp, tag + '.meta'), workers=mc.get('workers', 4), heap=mc.get('heap', '4g'), timeout=mc.get('timeout', 800), extra=extra)
    shutil.rmtree(os.path.join(tmp, tag + '.meta'), ignore_errors=True)
    m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
    if rc != 0 or 'No error has been found' not in out and not mc.get('simulate'):
        i = out.find('Error:')
        raise Machinery('model checking %s failed (%d): %s' % (mc['mod'], rc, out[i:i + 3000] if i >= 0 else out[-2000:]))
    if m:
        g, d = (int(x.replace(',', '')) for x in m[-1])
    else:
        m = re.findall(r'(\d+) states generated', out) or re.findall(r'The number of states generated: (\d+)', out)
        g = d = int(m[-1]) if m else 0
    dep = re.findall(r'depth of the complete state graph search is (\d+)', out)
    with res.lock:
        res.states += d
        res.transitions += g
        res.mc.append(dict(module=mc['mod'], constants=mc.get('const', {}), checked=re.findall(r'(?m)^(?:INVARIANTS|PROPERTIES) +(.*)$', base),
                           distinct_states=d, transitions=g, depth=int(dep[-1]) if dep else mc.get('depth', 0),
                           mode='simulation' if mc.get('simulate') else 'exhaustive', seconds=round(time.time() - t0, 1)))
    if not mc.get('emit'):
        return []
    found = {}
    for fatal, js in SCR.findall(out):
        found[js] = fatal
    return [(json.loads(js.replace('\\"', '"')), fatal) for js, fatal in sorted(found.items())]


def scripts_of(pid, mc, tag, seqs, seed):
    """scenarios from call sequences: prefixes dropped, sampled, harmless last calls chained"""
    rng = random.Random('%s/%s/%d' % (pid, tag, seed))
    if mc.get('chain'):
        fine, fatal = [], []
        for q, f in seqs:
            (fatal if f != 'no' else fine).append(q)
        rng.shuffle(fine)
        rng.shuffle(fatal)
        fine = fine[:mc.get('take', 10 ** 9)]
        out = []
        groups = {}
        for q in fine:
            groups.setdefault(json.dumps(q[:-1]), []).append(q)
        for g in groups.values():
            for i in range(0, len(g), 40):
                out.append(g[i][:-1] + [q[-1] for q in g[i:i + 40]])
        out += fatal[:mc.get('takefatal', 300)]
    else:
        seen = set()
        out = []
        for q, f in sorted(seqs, key=lambda x: -len(x[0])):
            ks = [json.dumps(x, sort_keys=True) for x in q]
            if '\n'.join(ks) in seen:
                continue
            for i in range(1, len(ks)):
                seen.add('\n'.join(ks[:i]))
            out.append(q)
        rng.shuffle(out)
        out = out[:mc.get('take', 10 ** 9)]
    res = []
    for i, q in enumerate(out):
        r = random.Random('%s/%s/%d/%d' % (pid, tag, seed, i))
        name = '%s-%d' % (tag, i)
        res.append((name, (cycles if mc.get('repeat') else script)(q, r, mc.get('f', 0.3)).text(name)))
    return res


# ------------------------------------------------------------------ scenarios
def config_of(variant):
    c = dict(fr=4, fd=8, tc=0, hinfo=0, conly=0)
    for a in build.VARIANTS[variant].get('args', []):
        k, v = a.split('=')
        c[k] = int(v)
    return c


def generate(pid, g, seed, scale, k=0):
    """scenarios of one generator entry of the plan"""
    out = []
    cfg = config_of(g.get('variant', 'std'))
    fam = g['fam']
    n = g['n'] if g.get('fixed') else max(1, int(g['n'] * scale))
    for i in range(n):
        r = random.Random('%s/%s%d/%s/%d/%d' % (pid, fam, k, g.get('variant', 'std'), seed, i))
        fn = getattr(gen, fam if fam.startswith('handles_') else 'fam_' + fam)
        s = fn(r, cfg, **g.get('kw', {}))
        name = '%s%d-%s-%d' % (fam, k, g.get('variant', 'std'), i)
        out.append((name, s.text(name)))
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    hard = t0 + (840 if tier == 'quick' else 40000)
    END[0] = hard - 200
    plan = PLAN[pid]
    res = Results()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    viol = []
    try:
        entries = plan['gen'] + (plan.get('gen_thorough', []) if tier == 'thorough' else [])
        mcs = plan.get('mc', []) if tier == 'quick' else plan.get('mc_thorough', plan.get('mc', []))
        scale = plan.get('scale', 1.0) if tier == 'quick' else plan.get('thorough_scale', 12)
        variants = sorted({g.get('variant', 'std') for g in entries} | {v for m in mcs if m.get('emit') for v in m.get('variants', ['std'])})
        broken = []
        with ThreadPoolExecutor(4) as ex:
            fs = [(v, ex.submit(build.build, v)) for v in variants]
            for v, f in fs:
                try:
                    f.result()
                except build.BuildError as e:
                    broken.append((v, str(e)))
        if broken:
            if pid != 'C26' or any(v == 'std' for v, _ in broken):
                raise Machinery('build failed: ' + '; '.join('%s: %s' % b for b in broken))
            # an option under which the library no longer builds while the default does
            for v, e in broken:
                viol.append((v, 'build', '', 'the library does not build as variant %s: %s' % (v, e[-1500:])))
            variants = [v for v in variants if v not in [b[0] for b in broken]]
            entries = [g for g in entries if g.get('variant', 'std') in variants]

        work = []            # (variant, [(name, text)])
        lock = threading.Lock()

        def mc_job(i):
            m = mcs[i]
            tag = 'mc%d-%s' % (i, m['mod'])
            seqs = model_check(pid, m, tmp, tag, res)
            if m.get('emit'):
                sc = scripts_of(pid, m, tag, seqs, seed)
                with lock:
                    for v in m.get('variants', ['std']):
                        if v in variants:
                            work.append((v, sc))

        def gen_job():
            for k, g in enumerate(entries):
                sc = generate(pid, g, seed, scale, k)
                with lock:
                    work.append((g.get('variant', 'std'), sc))
        # model checking and generation first (they overlap), then validation
        with ThreadPoolExecutor(max(1, min(3, len(mcs))) + 1) as ex:
            fs = [ex.submit(gen_job)] + [ex.submit(mc_job, i) for i in range(len(mcs))]
            for f in fs:
                f.result()

        by = {}
        for v, sc in work:
            by.setdefault(v, []).extend(sc)
        chunks = []
        weight = lambda t: len(t) + 40000 * t.count('\nBigMove')         # by the time validation takes
        total = sum(weight(t) for v in by for _, t in by[v])
        per = max(60000, total // (CPUS * (1 if tier == 'quick' else 6)) + 1)
        texts = {}
        for v in sorted(by):
            cur, size = [], 0
            sc = by[v]
            random.Random(seed).shuffle(sc)
            for n, t in sc:
                texts[v, n] = t
                cur.append((n, t))
                size += weight(t)
                if size >= per:
                    chunks.append((v, cur))
                    cur, size = [], 0
            if cur:
                chunks.append((v, cur))
        for v in by:
            for n, t in by[v]:
                res.distinct.add(t.split('\n', 1)[1])
        deadline = hard - 400

        def job(i):
            v, sc = chunks[i]
            if len(res.bad) >= 12 or time.time() > deadline and (res.bad or res.failed):
                return
            try:
                a, b, c = run_chunk(tmp, 'c%d' % i, v, sc, seed)
            except Machinery as e:
                with res.lock:
                    res.failed.append(str(e))
                return
            with res.lock:
                res.events += a
                res.scenarios += b
                res.bad += [(v, n, texts.get((v, n), ''), w) for n, w in c]
        with ThreadPoolExecutor(CPUS) as ex:
            for f in [ex.submit(job, i) for i in range(len(chunks))]:
                f.result()

        if res.failed and not res.bad:
            raise Machinery(res.failed[0])
        # a rejection counts only if it repeats on its own
        conf = []
        END[0] = hard
        for k, (v, n, t, w) in enumerate(sorted(res.bad, key=lambda x: len(x[2]))[:12]):
            if len(conf) >= MAXREPORT:
                break
            if conf and time.time() > hard - 60:
                break
            try:
                a, b, c = run_chunk(tmp, 'r%d' % k, v, [(n, t)], seed)
            except Machinery as e:         # too slow or too broken to be judged a second time
                res.failed.append(str(e))
                c = [(n, w)] if k == 11 or time.time() > hard - 60 else []
            if c:
                conf.append((v, n, t, c[0][1]))
        if res.bad and not conf:
            raise Machinery('a rejected execution was accepted when repeated: %s %s' % (res.bad[0][1], res.bad[0][3]))
        viol += conf

        samples = []
        for v in sorted(by)[:3]:
            if by[v]:
                samples.append({'variant': v, 'scenario': min(by[v][:20], key=lambda x: len(x[1]))[1].split('\n')})
        cov = dict(states=res.states, transitions=res.transitions, traces_validated_against_impl=res.scenarios, samples=samples,
                   events_validated=res.events, distinct_scenarios=len(res.distinct), variants=variants, model_checking=res.mc,
                   rule='scenario = sequence of library calls, from TLC (one per transition explored, or sampled from these) or random; each recorded call must be a step of spec/Library.tla')
        ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
                  assumptions=['the driver records calls, outputs, memory and terminal output truthfully',
                               'the build used by the check (same sources, own compiler flags) stands for the library'],
                  wall_s=round(time.time() - t0, 1), violations=len(viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not viol:
            print('%s: held: %d model states, %d executions of the library (%d calls) validated, %.1f s' % (pid, res.states, res.scenarios, res.events, time.time() - t0))
            return 0
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for k, (v, n, t, w) in enumerate(viol):
            path = os.path.join(rd, '%s-%d.txt' % (pid, k))
            with open(path, 'w') as f:
                f.write('# property %s, variant %s, seed %d\n# replay: bin/check.py --replay %s\n' % (pid, v, seed, path))
                f.write(''.join('# ' + x + '\n' for x in w.split('\n')))
                f.write(t)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s (%s): %s' % (n, v, w[:700]))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    lines = open(path).read().split('\n')
    m = re.match(r'# property (\w+), variant (\w+), seed (\d+)', lines[0])
    text = '\n'.join(x for x in lines if not x.startswith('#'))
    name = text.split('\n')[0][2:]
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        a, b, c = run_chunk(tmp, 'r', m.group(2), [(name, text)], int(m.group(3)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if c:
        print('VIOLATION property=%s replay=%s' % (m.group(1), path))
        print(c[0][1])
        return 1
    print('accepted: %d calls' % a)
    return 0


if __name__ == '__main__':
    try:
        rc = replay(sys.argv[2]) if sys.argv[1] == '--replay' else main(sys.argv[1])
    except (Machinery, build.BuildError) as e:
        print('MACHINERY: %s' % e)
        rc = 2
    sys.exit(rc)
