#!/usr/bin/env python3
"""Builds the conformance driver against /repo's working tree, one binary per variant.

build(variant) -> path of the driver; results are cached under /verif/build/<hash of the
sources, the driver and the flags>.
"""
import hashlib, os, shutil, subprocess, sys, tempfile, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRV = os.path.join(VERIF, 'driver')

CONF = '#define FC_FUNC(name,NAME) name ## _\n#define FC_FUNC_(name,NAME) name ## _\n#define SIZEOF_LONG 8\n#define PACKAGE_VERSION "2.5.0"\n#define VERSION "2.5.0"\n#define PACKAGE "mpi-serial"\n'

# name: (cc, library flags, config.h additions or None for no config.h, fortran flags, driver flags, driver conf)
VARIANTS = {
    'std':     dict(lib='-O2'),
    'asan':    dict(lib='-O1 -g -fsanitize=address -fno-omit-frame-pointer', drv='-g -fsanitize=address', link='-fsanitize=address'),
    'checks':  dict(lib='-O2 -DCHECKS'),
    'tycheck': dict(lib='-O2', conf='#define TYPE_CHECKING\n', args=['tc=1']),
    'hinfo':   dict(lib='-O2 -DHANDLE_INFO', args=['hinfo=1']),
    'noconf':  dict(lib='-O0 -DFORTRAN_UNDERSCORE_', conf=None),
    'same':    dict(lib='-O1 -DFORTRAN_SAME', conf=None, mangle=lambda x: x),
    'gnuf2c':  dict(lib='-O1 -DFORTRAN_GNUF2C', conf=None, mangle=lambda x: x + '__'),
    'caps':    dict(lib='-O1 -DFORTRAN_CAPS_', conf=None, mangle=lambda x: x.upper()),
    'clang':   dict(cc='clang', lib='-O0 -Wno-error=implicit-function-declaration -Wno-error=implicit-int -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types'),
    'o3':      dict(lib='-O3'),
    'real8':   dict(lib='-O2', conf='#define CONFIG_FORT_REAL 8\n#define CONFIG_FORT_DOUBLE 16\n', ff='-fdefault-real-8', args=['fr=8', 'fd=16']),
    'r8d8':    dict(lib='-O2', conf='#define CONFIG_FORT_REAL 8\n#define CONFIG_FORT_DOUBLE 8\n', ff='-fdefault-real-8 -fdefault-double-8', args=['fr=8', 'fd=8']),
    'd16':     dict(lib='-O2', conf='#define CONFIG_FORT_DOUBLE 16\n', args=['fr=4', 'fd=16', 'conly=1']),
    'real16':  dict(lib='-O2', conf='#define CONFIG_FORT_REAL 16\n#define CONFIG_FORT_DOUBLE 32\n', args=['fr=16', 'fd=32', 'conly=1']),
}


def sources():
    fs = []
    for n in sorted(os.listdir(REPO)):
        if n.endswith(('.c', '.h', '.F90', '.f90', '.inc')) and os.path.isfile(os.path.join(REPO, n)):
            fs.append(n)
    return fs


class BuildError(Exception):
    pass


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def unmangle(tmp, f, libs, others):
    """the library built for a Fortran compiler with another naming convention: give its Fortran names the form used here"""
    want = set()
    for o in others:
        for l in run(['nm', o], tmp).split('\n'):
            n = l.split()[-1] if l.split() else ''
            if n.endswith('_') and not n.endswith('__') and n[0] != '_':
                want.add(n)
    with open(os.path.join(tmp, 'syms'), 'w') as fh:
        fh.write(''.join('%s %s\n' % (f(n[:-1]), n) for n in sorted(want)))
    for o in libs:
        run(['objcopy', '--redefine-syms=syms', o], tmp)


def build(variant='std'):
    v = VARIANTS[variant]
    h = hashlib.sha256(repr((variant, sorted((k, x) for k, x in v.items() if k != 'mangle'))).encode())
    for n in sources():
        h.update(n.encode()); h.update(open(os.path.join(REPO, n), 'rb').read())
    for n in sorted(os.listdir(DRV)):
        h.update(n.encode()); h.update(open(os.path.join(DRV, n), 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    key = variant + '-' + h.hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, key)
    exe = os.path.join(out, 'driver')
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # drop stale builds of this variant
        for d in os.listdir(BUILD):
            if d.startswith(variant + '-') and d != key:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix='.b-', dir=BUILD)
        try:
            for n in sources():
                shutil.copy(os.path.join(REPO, n), tmp)
            cc = v.get('cc', 'gcc')
            conf = v.get('conf', '')
            cdef = []
            if conf is not None:
                open(os.path.join(tmp, 'config.h'), 'w').write(CONF + conf)
                cdef = ['-DHAVE_CONFIG_H']
            lib = v['lib'].split()
            jobs = []
            objs = []
            for n in sources():
                if n.endswith('.c'):
                    o = n[:-2] + '.lib.o'
                    objs.append(o)
                    jobs.append([cc, '-w', '-I.'] + cdef + lib + ['-c', n, '-o', o])
            ff = v.get('ff', '').split()
            san = [f for f in lib if f.startswith('-fsanitize')]
            for n in sources():
                if n.endswith(('.F90', '.f90')) and n != 'mpif.F90':
                    o = n.rsplit('.', 1)[0] + '.libf.o'
                    objs.append(o)
                    jobs.append(['gfortran', '-w', '-O2', '-fallow-argument-mismatch', '-I.'] + cdef + ff + san + ['-c', n, '-o', o])
            drv = v.get('drv', '').split()
            jobs.append(['g++', '-std=c++17', '-O1', '-w', '-I.', '-I' + DRV, '-c', os.path.join(DRV, 'driver.cpp'), '-o', 'drv.o'] + drv)

            def fort():
                if os.path.exists(os.path.join(tmp, 'mpif.F90')):
                    run(['gfortran', '-w', '-O2', '-I.'] + cdef + ff + ['-c', 'mpif.F90', '-o', 'mpif.libf.o'], tmp)
                run(['gfortran', '-w', '-O1', '-fallow-argument-mismatch', '-I.'] + ff + ['-c', os.path.join(DRV, 'fshim.F90'), '-o', 'shim.o'], tmp)

            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                fs = [ex.submit(run, j, tmp) for j in jobs] + [ex.submit(fort)]
                for f in fs:
                    f.result()
            if os.path.exists(os.path.join(tmp, 'mpif.libf.o')):
                objs.append('mpif.libf.o')
            if 'mangle' in v:
                unmangle(tmp, v['mangle'], [o for o in objs if o.endswith('.lib.o')], [o for o in objs if not o.endswith('.lib.o')] + ['drv.o', 'shim.o'])
            wrap = [] if 'asan' in variant else ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free']
            run(['g++', 'drv.o', 'shim.o'] + objs + wrap + v.get('link', '').split() + ['-o', 'driver', '-lgfortran', '-lm'], tmp)
            for n in os.listdir(tmp):
                if n != 'driver':
                    os.unlink(os.path.join(tmp, n))
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
            return exe
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    for name in (sys.argv[1:] or list(VARIANTS)):
        print(name, build(name))
