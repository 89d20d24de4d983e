#!/usr/bin/env python3
"""Mutation testing of the whole machinery (not part of any check).

  mutate.py corpus DIR            the executions of the quick checks (default build), as one file per property
  mutate.py run DIR N [SEED]      N random mutants of the C sources; a mutant none of whose executions differs
                                  from the unchanged library's is printed: dead code, an equivalent change, or a gap

A difference is not yet a rejection (the specification leaves choices open), but whatever is
not even executed differently cannot be rejected.
"""
import os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'bin'))
import build, check                                                          # noqa: E402
from plan import PLAN                                                        # noqa: E402

WRAP = '-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free'


def corpus(d):
    os.makedirs(d, exist_ok=True)
    exe = build.build('std')
    for pid in sorted(PLAN):
        tmp = tempfile.mkdtemp(prefix='verif-mut-')
        check.END[0] = time.time() + 3000
        res = check.Results()
        texts = {}
        for k, g in enumerate(PLAN[pid]['gen']):
            if g.get('variant', 'std') == 'std' and g['fam'] != 'huge':
                texts.update(check.generate(pid, g, 1, 1.0, k))
        for i, m in enumerate(PLAN[pid].get('mc', [])):
            if m.get('emit') and 'std' in m.get('variants', ['std']):
                tag = 'mc%d-%s' % (i, m['mod'])
                texts.update(check.scripts_of(pid, m, tag, check.model_check(pid, m, tmp, tag, res), 1))
        shutil.rmtree(tmp)
        f = os.path.join(d, pid + '.txt')
        open(f, 'w').write(''.join(texts.values()))
        for j in 'ab':
            subprocess.run([exe, f, f[:-4] + '.' + j, '1'], check=True)
        keep = stable(f, f[:-4] + '.a', f[:-4] + '.b', texts)
        open(f, 'w').write(''.join(keep))
        subprocess.run([exe, f, f[:-4] + '.a', '1'], check=True)
        os.unlink(f[:-4] + '.b')
        print(pid, len(texts), len(keep), flush=True)


def bysc(p):
    r = {}
    cur = None
    for l in open(p, errors='replace'):
        if l.startswith('{"op":"Start"'):
            cur = re.search(r'"name":"([^"]*)"', l).group(1)
            r[cur] = []
        if cur:
            r[cur].append(l)
    return r


def stable(f, a, b, texts):
    A, B = bysc(a), bysc(b)
    return [t for n, t in texts.items() if A.get(n) == B.get(n) and n in A and 'Wtime' not in t]


# ---------------------------------------------------------------- mutants
KW = {'if', 'for', 'while', 'switch', 'return', 'sizeof'}


def functions(src):
    """(name, start, end, parameters) of the function bodies, in text with comments blanked"""
    out = []
    for m in re.finditer(r'(?m)^\{', src):
        depth, i = 0, m.start()
        while i < len(src):
            if src[i] == '{':
                depth += 1
            elif src[i] == '}':
                depth -= 1
                if depth == 0:
                    break
            i += 1
        head = src[max(src.rfind('}', 0, m.start()), src.rfind(';', 0, m.start()), src.rfind('#', 0, m.start())) + 1:m.start()]
        if '(' not in head:
            continue
        ps = re.findall(r'\b(int|MPI_Aint|long)\s+(\w+)\s*[,)]', head)
        body = src[m.start():i]
        loc = []
        for l in re.findall(r'(?m)^\s*(?:int|long|MPI_Aint)\s+([\w\s,]+);', body):
            loc += [('int', x.strip()) for x in l.split(',')]
        out.append((head.strip().split('\n')[-1][:60], m.start(), i, [p[1] for p in ps], [p[1] for p in loc if re.match(r'^\w+$', p[1])]))
    return out


def blank(src):
    def sp(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|(?m:^#[^\n]*)', sp, src, flags=re.S)


SWAP = [(r'(?<![<>=!+\-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![->])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'(?<=[\w\])])\s*\+\s*(?=[\w(])(?!\+)', ' - '), (r'(?<=[\w\])])\s*-\s*(?=[\w(])(?![->])', ' + '), (r'(?<=[\w\])])\*(?=[\w(])', '+'), (r'\+\+', '--'),
        (r'\blong\b', 'int'), (r'\bMPI_Aint (?=\w+[;,])', 'int '), (r'(?<![\w.])\d+\b(?!\.)', None), (r'\bbreak;', ';'), (r'\bcontinue;', ';')]


def mutants(name, text):
    src = blank(text)
    out = []
    for head, a, b, params, locs in functions(src):
        body = src[a:b]
        if name == 'list.c' and head.startswith(('int main', 'AP_list_braindead', 'pList AP_list_duplicate', 'int AP_list_apply')) or 'verify' in head or 'print' in head:
            continue
        for pat, new in SWAP:
            for m in re.finditer(pat, body):
                x, y = a + m.start(), a + m.end()
                if new is None:
                    v = int(m.group(0), 10) if m.group(0).isdigit() else 0
                    for n in (v + 1, v - 1):
                        out.append((x, y, str(n)))
                else:
                    out.append((x, y, new))
        for m in re.finditer(r'\bif\s*\(', body):
            i, d = m.end() - 1, 0
            while True:
                d += {'(': 1, ')': -1}.get(body[i], 0)
                if d == 0:
                    break
                i += 1
            c = body[m.end() - 1:i + 1]
            x, y = a + m.end() - 1, a + i + 1
            out += [(x, y, '(0)'), (x, y, '(1)'), (x, y, '(!%s)' % c)]
            for p in params:
                if p in ('root', 'dest', 'source', 'local_leader', 'remote_leader', 'handle'):
                    continue
                for k in ('0', '1', '2', '3', '5'):
                    out.append((x, y, '(%s || %s == %s)' % (c, p, k)))
                    out.append((x, y, '(%s && %s != %s)' % (c, p, k)))
        for m in re.finditer(r'(?m)^[ \t]*([^;{}\n=]+[+\-*|]?=[^=;{}][^;{}]*|\w+\s*\([^;{}]*\));', body):
            if re.match(r'\s*(abort|exit|fprintf|printf|print_list|verify_\w+|fflush)\b', m.group(0)):
                continue
            if re.match(r'\s*(return|int|long|MPI_Aint|case|default|if|for|while|else|switch)\b', m.group(0)):
                continue
            x, y = a + m.start(1), a + m.end()
            out.append((x, y, ';'))
            for k in (2, 5, 20, 70):
                out.append((x, y, '{ static int mutn; if (++mutn != %d) { %s } }' % (k, text[x:y])))
            for i, p in enumerate(params):
                for q in params[:i]:
                    out.append((x, y, 'if (%s != %s) { %s }' % (q, p, text[x:y])))
                    out.append((x, y, 'if (%s <= %s) { %s }' % (q, p, text[x:y])))
                    out.append((x, y, 'if (%s >= %s) { %s }' % (q, p, text[x:y])))
            for p in params:
                if p in ('root', 'dest', 'source', 'local_leader', 'remote_leader', 'handle'):
                    continue
                for k in ('0', '1', '2', '3', '5', '7'):
                    out.append((x, y, 'if (%s != %s) %s' % (p, k, text[x:y])))
            for k in ('1', '2', '3', '5'):
                if 'i' in locs and re.search(r'\bi\b', text[x:y]):
                    out.append((x, y, 'if (i != %s) %s' % (k, text[x:y])))
    return [(name, x, y, n) for x, y, n in out]


def trial(base, d, objs, m, files, slot):
    name, x, y, new = m
    w = os.path.join(base, 'w%d' % slot)
    os.makedirs(w, exist_ok=True)
    text = open(os.path.join(build.REPO, name)).read()
    mut = text[:x] + new + text[y:]
    src = os.path.join(base, 'm%d_%s' % (slot, name))
    open(src, 'w').write(mut)
    o = os.path.join(w, 'm.o')
    p = subprocess.run(['gcc', '-w', '-O1', '-DHAVE_CONFIG_H', '-I' + base, '-I' + build.REPO, '-c', src, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return 'nobuild'
    exe = os.path.join(w, 'driver')
    p = subprocess.run(['g++'] + [q for n, q in objs.items() if n != name] + [o, WRAP, '-o', exe, '-lgfortran', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return 'nobuild'
    if open(o, 'rb').read() == open(objs[name], 'rb').read():
        return 'same'
    for f in files:
        lg = os.path.join(w, 'log')
        p = subprocess.run([exe, f, lg, '1', 'timeout=3', 'maxhang=1'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if subprocess.run(['cmp', '-s', lg, f[:-4] + '.a']).returncode:
            return os.path.basename(f)[:-4]
    return None


def run(d, n, seed, only=None):
    base = tempfile.mkdtemp(prefix='verif-mutants-')
    try:
        open(os.path.join(base, 'config.h'), 'w').write(build.CONF)
        objs = {}
        srcs = [x for x in build.sources() if x.endswith('.c')]
        subprocess.run('cp %s/*.h %s/*.F90 %s/* . 2>/dev/null; gfortran -w -I. -DHAVE_CONFIG_H -c mpif.F90 -o mpif.o; gfortran -w -I. -DHAVE_CONFIG_H -fallow-argument-mismatch -c fort.F90 -o fort_f.o; '
                       'gfortran -w -O1 -fallow-argument-mismatch -I. -c fshim.F90 -o shim.o; g++ -std=c++17 -O1 -w -I. -c driver.cpp -o drv.o' % (build.REPO, build.REPO, build.DRV), shell=True, cwd=base, check=True)
        for x in ('mpif', 'fort_f', 'shim', 'drv'):
            objs[x] = os.path.join(base, x + '.o')
        for x in srcs:
            objs[x] = os.path.join(base, x + '.o')
            subprocess.run(['gcc', '-w', '-O1', '-DHAVE_CONFIG_H', '-I' + base, '-c', os.path.join(build.REPO, x), '-o', objs[x]], check=True)
        ms = []
        for x in srcs:
            if only and x not in only:
                continue
            ms += mutants(x, open(os.path.join(build.REPO, x)).read())
        rng = random.Random(seed)
        rng.shuffle(ms)
        print(len(ms), 'mutants', flush=True)
        files = sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith('.txt'))
        stat = {}
        import threading, queue
        slots = queue.Queue()
        for i in range(8):
            slots.put(i)
        lock = threading.Lock()

        def one(m):
            s = slots.get()
            try:
                fs = list(files)
                random.Random(m[1]).shuffle(fs)
                r = trial(base, d, objs, m, fs, s)
            finally:
                slots.put(s)
            with lock:
                stat['survived' if r is None else r if r in ('nobuild', 'same') else 'killed'] = stat.get('survived' if r is None else r if r in ('nobuild', 'same') else 'killed', 0) + 1
                if r is None:
                    t = open(os.path.join(build.REPO, m[0])).read()
                    print('%s:%d  [%s] -> [%s]   %s' % (m[0], t.count('\n', 0, m[1]) + 1, t[m[1]:m[2]], m[3], t[t.rfind('\n', 0, m[1]) + 1:t.find('\n', m[2])].strip()[:120]), flush=True)
        with ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(one, m) for m in ms[:n]]:
                f.result()
        print(stat)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == 'corpus':
        corpus(sys.argv[2])
    else:
        run(sys.argv[2], int(sys.argv[3]), sys.argv[4] if len(sys.argv) > 4 else '1', sys.argv[5:])
