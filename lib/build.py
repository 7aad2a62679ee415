"""Builds the simulator: the solver's own sources, taken from /repo's working
tree, linked with the runtime and the harness of /verif/sim. One directory of
/verif/build per variant; nothing is written in /repo."""
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CPP = os.path.join(REPO, 'code/cpp')
SIM = os.path.join(ROOT, 'sim')
OUT = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))

COMMON = ['-std=c++17', '-w', '-march=x86-64-v2', '-fno-omit-frame-pointer']
# (Eigen's vectorised sums depend on whether an address is a multiple of 16, and
# so on where a compiler puts a local array; the scalar ones do not)
SCALAR = ['-fopenmp', '-DEIGEN_DONT_VECTORIZE']
SOLVER = ['-O2'] + SCALAR
RACE = ['-O1', '-g1', '-fopenmp', '-fsanitize=thread', '--param=tsan-distinguish-volatile=0']

# option overrides of each variant (edited in a copy of options.h)
VARIANTS = {
    'plain': dict(flags=SOLVER, opts={}),
    'race': dict(flags=RACE, opts={}),
    'corners': dict(flags=SOLVER, opts={'NO_CORNERS': 'false'}),
    'multi': dict(flags=SOLVER, opts={'MULTI': 'true'}),
    'pattern': dict(flags=['-O1'] + SCALAR + ['-ftrivial-auto-var-init=pattern'], opts={}),
    'zero': dict(flags=['-O1'] + SCALAR + ['-ftrivial-auto-var-init=zero'], opts={}),
}

WRAP = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock',
        '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort',
        'memcpy', 'memmove', 'memset']


class BuildError(Exception):
    pass


def sources():
    """The solver's translation units, as listed in its CMakeLists.txt"""
    text = open(os.path.join(CPP, 'CMakeLists.txt'), encoding='utf8').read()
    m = re.search(r'SET\s*\(\s*SRCS\s+(.*?)\)', text, re.S | re.I)
    if not m:
        raise BuildError('no SRCS in CMakeLists.txt')
    src = [s for s in m.group(1).split() if s.endswith(('.cpp', '.cc', '.cxx'))]
    return [s for s in src if not s.startswith('bindings/')]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    if r.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ... ' + cmd[-1] + '\n' + r.stdout[-4000:])
    return r.stdout


def fingerprint(variant):
    h = hashlib.sha256(repr(VARIANTS[variant]).encode())
    for base in (CPP + '/src', CPP + '/include', SIM, os.path.join(ROOT, 'lib')):
        for d, dirs, files in sorted(os.walk(base)):
            dirs.sort()
            for f in sorted(files):
                if base != os.path.join(ROOT, 'lib') or f == 'build.py':
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    h.update(open(CPP + '/CMakeLists.txt', 'rb').read())
    return h.hexdigest()


def build(variant, jobs=8, quiet=True):
    """Returns the path of the simulator's executable"""
    if variant == 'store':
        return os.path.join(SIM, 'store_sim.py')
    v = VARIANTS[variant]
    d = os.path.join(OUT, variant)
    exe = os.path.join(d, 'sim')
    stamp = os.path.join(d, 'stamp')
    fp = fingerprint(variant)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == fp:
        return exe
    os.makedirs(d, exist_ok=True)
    for f in (exe, stamp):
        if os.path.exists(f):
            os.remove(f)

    root = CPP
    if v['opts']:
        # a copy of the sources with other compile-time options
        root = os.path.join(d, 'tree')
        os.makedirs(root, exist_ok=True)
        run(['rsync', '-a', '--delete', '--exclude=python', CPP + '/src', root + '/']
            if os.path.exists('/usr/bin/rsync') else
            ['bash', '-c', 'cd "$0" && find src -depth -delete 2>/dev/null; cp -a "$1/src" "$0/"', root, CPP])
        inc = os.path.join(root, 'include')
        if not os.path.islink(inc):
            os.symlink(CPP + '/include', inc)
        p = os.path.join(root, 'src/options.h')
        text = open(p, encoding='utf8').read()
        for k, val in v['opts'].items():
            text, n = re.subn(r'(\b%s\s*=\s*)[^;]+;' % k, r'\g<1>%s;' % val, text)
            if n != 1:
                raise BuildError('option %s not found in options.h' % k)
        open(p, 'w', encoding='utf8').write(text)

    inc = ['-I' + SIM + '/fake', '-I' + root + '/include', '-I' + root + '/src', '-I' + SIM,
           '-I' + root]
    # precompiled Eigen
    pch = os.path.join(d, 'pch.h')
    with open(pch, 'w') as f:
        f.write('#include <cmath>\n#include <functional>\n#include <vector>\n#include <string>\n'
                '#include "eigen3/Eigen"\n#include "eigen3/StdVector"\n')
    plain = [x for x in v['flags']]
    run(['g++'] + COMMON + plain + inc + ['-x', 'c++-header', pch, '-o', pch + '.gch'])

    units = []
    for s in sources():
        o = os.path.join(d, s.replace('/', '_') + '.o')
        units.append((['g++'] + COMMON + v['flags'] + inc + ['-include', pch, '-c',
                      os.path.join(root, s), '-o', o], o))
    for s, fl in (('rt.cpp', ['-O2']), ('harness.cpp', ['-O1', '-fopenmp'])):
        o = os.path.join(d, 'sim_' + s + '.o')
        units.append((['g++'] + COMMON + fl + inc + ['-c', os.path.join(SIM, s), '-o', o], o))
    # the long ones first
    order = lambda u: -sum(os.path.getsize(x) for x in u[0] if x.endswith('.cpp'))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda u: run(u[0]), sorted(units, key=order)))
    run(['g++', '-no-pie', '-o', exe] + [o for _, o in units] +
        ['-Wl,--wrap=' + w for w in WRAP] + ['-lpthread', '-ldl', '-lm'])
    with open(stamp, 'w') as f:
        f.write(fp)
    return exe


if __name__ == '__main__':
    import time
    for name in sys.argv[1:] or ['plain']:
        t = time.time()
        try:
            print(build(name), '%.1f s' % (time.time() - t))
        except BuildError as e:
            print(e)
            sys.exit(2)
