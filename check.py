#!/usr/bin/env python3
"""Decides one property by seeded simulation.

  check.py C01 --tier quick|thorough     search for a violation
  check.py --replay replays/C01-....json run a recorded violation again

Exit 0: the property held on everything simulated; 1: a violation, with a line
"VIOLATION property=<id> replay=<path>"; 2: the check itself failed."""
import argparse
import collections
import hashlib
import json
import os
import random
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import build
import gens
from pool import line_of, parse_line, run_cases, run_one

VARIANTS = collections.defaultdict(lambda: ['plain'], {
    'C02': ['race', 'plain'], 'C03': ['race', 'plain'], 'C04': ['plain', 'corners'],
    'C09': ['plain', 'pattern', 'zero'], 'C13': ['store'], 'C18': ['corners', 'plain'], 'C19': ['multi'],
    'C21': ['corners', 'plain']})
# properties that hold on every grid, so that the grid of a violation may be made smaller
ANY_GRID = {'C01', 'C02', 'C03', 'C07', 'C08', 'C09', 'C10', 'C11', 'C14', 'C16'}
REAL = ['every translation unit listed in code/cpp/CMakeLists.txt (solvers, multi-material, system, options, '
        'globals), vendored Eigen, scipy and skfmm ports: the code under /repo, unmodified, rebuilt for this run']
STUB = ['OpenMP runtime (libgomp) replaced by cooperative workers under the seeded scheduler',
        'memory allocator interposed (failures, leftover contents)', 'Python console (py::print) replaced by a '
        'simulated one that reports, fails, interrupts or disturbs cells', 'wall clock not used by the solver']
REAL13 = ['code/python/store.py, unmodified, and numpy.save']
STUB13 = ['file system, file descriptors, process scheduling, clock and process ids are simulated']
QUICK = float(os.environ.get('VERIF_QUICK_SECS', 38))
THOROUGH = float(os.environ.get('VERIF_THOROUGH_SECS', 700))


def seed_text(pid, seed):
    return '%s:%d' % (pid, seed)


def corpus(pid):
    """Cases kept because they once failed, or reach something rare"""
    p = os.path.join(HERE, 'corpus', pid + '.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                variant, case = line.split(None, 1)
                yield variant, parse_line(case)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            w = line.split(None, 3)
            # known: property=C00 case=<hash of the case> what fails
            if len(w) == 4 and w[0] == 'known:' and w[1] == 'property=' + pid and w[2].startswith('case='):
                out.append((w[2][5:], w[3].strip()))
    return out


def case_key(case):
    c = {k: str(v) for k, v in case.items() if k not in ('id', 'cpu')}
    return hashlib.sha256(line_of(dict(sorted(c.items()))).encode()).hexdigest()[:12]


def parts(case):
    return [pre for pre in ('', 'prior.', 'prior2.', 'l0.', 'l1.', 'l2.') if case.get(pre + 'nx')]


def must_end(case):
    """Is the case of a kind whose running time is bounded on a sound tree?"""
    for pre in parts(case):
        g = lambda k, d='0': str(case.get(pre + k, d))
        if int(g('split')):
            continue
        if int(g('stiff')) or int(g('ny')) or ',' in g('mats', '') or g('ic', '') in ('riemann', 'noise'):
            return False
    return True


class Check:
    def __init__(self, pid, tier, seed, secs=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.secs = secs or (QUICK if tier == 'quick' else THOROUGH)
        self.t0 = time.monotonic()
        self.exes = {}
        self.count = collections.Counter()
        self.faults = collections.Counter()
        self.outcomes = collections.Counter()
        self.nums = {}
        self.tot = collections.Counter()
        self.simtime = 0.
        self.scheds, self.states, self.distinct = set(), set(), set()
        self.samples = []
        self.errors = []
        self.slow = 0
        self.unstable = []
        self.violations = []
        self.known = known_findings(pid)
        self.pairs = {}
        self.n = 0

    def build(self):
        for v in VARIANTS[self.pid]:
            self.exes[v] = build.build(v)
        self.built = time.monotonic() - self.t0

    def cases(self):
        for variant, case in corpus(self.pid):
            yield from self.emit(variant, case, 'corpus')
        for variant, case in gens.GENS[self.pid](random.Random(seed_text(self.pid, self.seed))):
            yield from self.emit(variant, case, 'random')

    def emit(self, variant, case, origin):
        self.n += 1
        case['id'] = self.n
        if case.get('xfill'):
            for v in ('pattern', 'zero'):
                yield self.exes[v], dict(case)
        else:
            yield self.exes[variant], case

    def variant_of(self, exe):
        return next(v for v, e in self.exes.items() if e == exe)

    # ------------------------------------------------------------- judging
    def note(self, exe, case, r):
        self.count[r['verdict']] += 1
        for k, v in r.get('faults', {}).items():
            self.faults[k] += v
        for k, v in r.get('outcomes', {}).items():
            self.outcomes[k] += v
        for k, v in r.get('nums', {}).items():
            self.nums[k] = max(self.nums.get(k, v), v)
        for k in ('execs', 'steps', 'switches', 'opps', 'regions', 'allocs', 'tracked', 'blocked'):
            self.tot[k] += r.get(k, 0)
        self.simtime += r.get('simtime', 0)
        self.scheds.update(r.get('scheds', []))
        self.states.update(r.get('states', []))
        if r['verdict'] == 'ok' and r.get('nontrivial'):
            self.distinct.add(r.get('hash'))
            if len(self.samples) < 3 or (len(self.samples) < 8 and self.count['ok'] % 97 == 0):
                self.samples.append(dict(build=self.variant_of(exe), case=line_of(case), verdict='ok',
                                         executions=r.get('execs'), switches=r.get('switches'),
                                         faults=r.get('faults'), hash=r.get('hash')))

    def judge(self, exe, case, r):
        """Returns a confirmed violation, or nothing"""
        if case.get('xfill') and r['verdict'] != 'fail':
            other = self.pairs.pop(case['id'], None)
            if other is None:
                self.pairs[case['id']] = (exe, r)
                return None
            if r['verdict'] == other[1]['verdict'] == 'ok' and r['hash'] != other[1]['hash']:
                fresh = [run_one(self.exes[v], case) for v in ('pattern', 'zero')]
                if all(x['verdict'] == 'ok' for x in fresh) and fresh[0]['hash'] != fresh[1]['hash']:
                    return dict(exe=None, case=case, cls='fill', reason='the result depends on what unwritten stack '
                                'memory contains', hash=fresh[0]['hash'] + '/' + fresh[1]['hash'], exact=True)
                self.unstable.append(line_of(case))
            return None
        if r['verdict'] == 'error':
            again = run_one(exe, case)
            if again['verdict'] == 'error':
                self.errors.append((r['reason'], line_of(case)))
                return None
            r = again
        if r['verdict'] != 'fail':
            return None
        if r.get('cls') == 'hang':
            # slow, or without end?
            if not must_end(case) or self.slow > 3:
                self.slow += 1
                return None
            case = dict(case, cpu=100)
            r = run_one(exe, case, limit=250)
            if r['verdict'] != 'fail':
                self.slow += 1
                return None
            if r.get('cls') == 'hang':
                return dict(exe=exe, case=case, cls='hang', reason=r['reason'], hash=r['hash'], exact=False)
        runs = [run_one(exe, case) for _ in range(2)]
        if all(x['verdict'] == 'fail' and x.get('hash') == r.get('hash') for x in runs):
            return dict(exe=exe, case=case, cls=r['cls'], reason=r['reason'], hash=r['hash'], exact=True,
                        list=r.get('list'))
        runs += [run_one(exe, case) for _ in range(2)]
        if all(x['verdict'] == 'fail' for x in runs):
            r = runs[-1]
            return dict(exe=exe, case=case, cls=r['cls'], reason=r['reason'], hash=r['hash'], exact=False,
                        list=r.get('list'))
        self.unstable.append(line_of(case))
        return None

    # -------------------------------------------------------- minimisation
    def same(self, v, r):
        return r['verdict'] == 'fail' and r.get('cls') == v['cls']

    def shrink(self, v, secs):
        if v['exe'] is None or v['cls'] == 'hang':
            return v
        end = time.monotonic() + secs
        exe = v['exe']

        def attempt(cands):
            """The first of the candidates that still fails"""
            got = {}
            for e, c, r in run_cases([(exe, c) for c in cands], until=end, limit=60):
                if self.same(v, r):
                    got[c['_k']] = (c, r)
            if not got:
                return False
            c, r = got[min(got)]
            c.pop('_k')
            v.update(case=c, reason=r['reason'], hash=r['hash'], list=r.get('list'))
            return True

        def numbered(cands):
            for k, c in enumerate(cands):
                c['_k'] = k
            return cands

        progress = True
        while progress and time.monotonic() < end:
            progress = attempt(numbered(self.smaller(v['case'])))
        # the schedule: only the switches that matter
        while v.get('list') and time.monotonic() < end:
            if self.pid == 'C13':
                v['case'] = dict(v['case'], list=v['list'])
                break
            sw = v['list'].split(',')
            if v['case'].get('sched') not in (2, '2'):
                if not attempt(numbered([dict(v['case'], sched=2, list=v['list'])])):
                    break
                continue
            size = max(1, len(sw) // 2)
            found = False
            while size and time.monotonic() < end:
                cands = [sw[:k] + sw[k + size:] for k in range(0, len(sw), size)]
                if attempt(numbered([dict(v['case'], list=','.join(c)) if c else
                                     {**{k: x for k, x in v['case'].items() if k != 'list'}, 'sched': 0} for c in cands])):
                    sw = [x for x in str(v['case'].get('list', '')).split(',') if x]
                    found = True
                    size = min(size, max(1, len(sw) // 2)) if sw else 0
                elif size == 1:
                    break
                else:
                    size //= 2
            break
        return v

    def smaller(self, c):
        out = []

        def put(**kw):
            d = dict(c)
            for k, x in kw.items():
                if x is None:
                    d.pop(k, None)
                else:
                    d[k] = x
            if d != c:
                out.append(d)
        if c.get('fault'):
            f = str(c['fault']).split(',')
            for k in range(len(f)):
                put(fault=','.join(f[:k] + f[k + 1:]) or None)
        if self.pid == 'C13':
            for k in ('procs',):
                p = str(c.get(k, '2')).split(',')
                for j in range(len(p)):
                    put(procs=','.join(p[:j] + p[j + 1:]) or '1')
                    if int(p[j]) > 1:
                        put(procs=','.join(p[:j] + [str(int(p[j]) - 1)] + p[j + 1:]))
            put(n=1, slots=1)
            put(clock='still')
            put(dt=0)
            return out
        for pre in ('prior2.', 'prior.', 'l2.'):
            if c.get(pre + 'nx'):
                d = {k: x for k, x in c.items() if not k.startswith(pre)}
                out.append(d)
        for pre in parts(c):
            t = c.get(pre + 'tfs')
            if t is not None and float(t) > .05 and self.pid not in ('C07', 'C06'):
                put(**{pre + 'tfs': '%.4g' % (float(t) / 4)})
                put(**{pre + 'tfs': '%.4g' % (float(t) / 2)})
            s = c.get(pre + 'steps')
            if s is not None and int(s) > 1:
                put(**{pre + 'steps': 1})
            if self.pid in ANY_GRID:
                nx, ny = int(c.get(pre + 'nx', 0)), int(c.get(pre + 'ny', 0) or 0)
                low = 5 if ',' in str(c.get(pre + 'mats', '')) else 3
                for k, n in (('nx', nx), ('ny', ny)):
                    if n > low:
                        put(**{pre + k: max(low, n // 2)})
                        put(**{pre + k: n - 1})
                for k in ('body', 'drift', 'rot', 'aspect'):
                    if c.get(pre + k) is not None:
                        put(**{pre + k: None})
        t = str(c.get('teams', '1')).split(',')
        if len(t) > 1:
            for x in t:
                put(teams=x)
        elif int(t[0]) > 2:
            put(teams='2')
            put(teams=str(int(t[0]) - 1))
        if c.get('sched') not in (0, '0', None):
            put(sched=0, sseed=None, gap=None, maxsw=None)
            if c.get('maxsw') and int(c['maxsw']) > 2:
                put(maxsw=int(c['maxsw']) // 4)
        return out

    # ----------------------------------------------------------------- run
    def run(self):
        self.build()
        print('%s: built %s in %.0f s; simulating for %.0f s with seed %d' %
              (self.pid, ', '.join(self.exes), self.built, self.secs, self.seed), flush=True)
        start = time.monotonic()
        until = start + self.secs
        found = None
        limit = 400
        for exe, case, r in run_cases(self.cases(), workers=os.cpu_count() or 8, until=until, limit=limit):
            self.note(exe, case, r)
            if found or (r['verdict'] == 'ok' and not case.get('xfill')):
                continue
            v = self.judge(exe, case, r)
            if v and case_key(v['case']) in [k for k, _ in self.known]:
                self.count['known'] += 1
                continue
            if v:
                found = v
                break
        self.wall = time.monotonic() - start
        for key, what in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        if found:
            original = line_of(found['case'])
            found = self.shrink(found, 60 if self.tier == 'quick' else 300)
            path = self.record(found, original)
            self.violations.append(found)
            print('%s: %s' % (found['cls'], found['reason']))
            print('  minimised: ' + line_of(found['case']))
            print('VIOLATION property=%s replay=%s' % (self.pid, path), flush=True)
        self.evidence()
        if found:
            return 1
        bad = len(self.errors) + len(self.unstable)
        for x in self.errors[:3]:
            print('could not be decided: %s: %s' % x)
        for x in self.unstable[:3]:
            print('failed only once: ' + x)
        if bad > max(2, .02 * self.n) or not self.count['ok']:
            print('%s: %d of %d cases could not be decided' % (self.pid, bad, self.n))
            return 2
        print('%s: held in %d simulated runs (%d cases, %d skipped, %d too slow) in %.0f s' %
              (self.pid, self.tot['execs'], self.count['ok'], self.count['skip'], self.slow, self.wall))
        return 0

    def record(self, v, original):
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        case = {k: x for k, x in v['case'].items() if k != 'id'}
        name = '%s-%s.json' % (self.pid, case_key(case))
        # the numbers recorded are those of the minimised case in a fresh process
        exact = v['exact']
        if v['exe']:
            r = run_one(v['exe'], case, limit=800)
            exact = exact and r['verdict'] == 'fail'
            v['hash'], v['reason'] = r.get('hash', v['hash']), r.get('reason') or v['reason']
        with open(os.path.join(d, name), 'w') as f:
            json.dump(dict(property=self.pid, build=self.variant_of(v['exe']) if v['exe'] else 'pattern/zero',
                           seed=self.seed, violation=v['cls'], reason=v['reason'], case=line_of(case),
                           schedule=v.get('list'), faults=case.get('fault'), hash=v['hash'], exact=exact,
                           found_as=original, replay='python3 check.py --replay replays/' + name), f, indent=1)
        return 'replays/' + name

    def evidence(self):
        hours = max(self.wall, .1) / 3600
        cov = dict(
            evaluations=sum(self.count[k] for k in ('ok', 'fail', 'skip', 'error')),
            distinct_nontrivial=len(self.distinct),
            rule='Each case is drawn from a generator seeded with "%s"; it fixes the problem (grid, material, scheme, '
                 'edges), the workers, the schedule and the faults, and is simulated once or several times as its '
                 'property requires. A case counts as non-trivial if it was decided and its schedule, fault or state '
                 'could have made a difference (several workers, a fired fault, a state that changes), and as distinct '
                 'by the hash of everything it produced.' % seed_text(self.pid, self.seed),
            samples=self.samples,
            verdicts=dict(self.count), too_slow=self.slow, undecided=[x[0] for x in self.errors[:5]],
            simulated_runs=self.tot['execs'], runs_per_hour=int(self.tot['execs'] / hours),
            seeds_per_hour=int(sum(self.count.values()) / hours),
            steps=self.tot['steps'], simulated_time=self.simtime,
            faults_injected=dict(self.faults), outcomes=dict(self.outcomes),
            distinct_schedules=len(self.scheds), distinct_final_states=len(self.states),
            schedule_measure='hash of the list of context switches (point, worker) of each run',
            state_measure='hash of the final grid and history of each run' if self.pid != 'C13' else
            'hash of the directory after each operation',
            context_switches=self.tot['switches'], switch_points=self.tot['opps'],
            parallel_regions=self.tot['regions'], allocations=self.tot['allocs'],
            memory_accesses_checked=self.tot['tracked'], blocked=self.tot['blocked'],
            largest_values=self.nums,
            real_code=REAL13 if self.pid == 'C13' else REAL, stubs=STUB13 if self.pid == 'C13' else STUB,
            builds=list(self.exes), build_s=round(self.built, 1))
        out = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration', coverage=cov,
                   wall_s=round(time.monotonic() - self.t0, 1), violations=len(self.violations))
        d = os.path.join(HERE, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(out, f, indent=1)


def replay(path):
    v = json.load(open(path))
    case = parse_line(v['case'])
    names = v['build'].split('/')
    res = [run_one(build.build(n), case, limit=800) for n in names]
    if len(res) == 2:
        ok = res[0].get('hash') != res[1].get('hash')
        h = '/'.join(str(r.get('hash')) for r in res)
    else:
        ok = res[0]['verdict'] == 'fail'
        h = res[0].get('hash')
    print('recorded: %s: %s' % (v['violation'], v['reason']))
    print('replayed: %s: %s' % (res[0].get('cls') or res[0]['verdict'], res[0].get('reason')))
    print('the same execution' if h == v['hash'] else 'another execution (the code differs from the recorded one)')
    if ok:
        print('VIOLATION property=%s replay=%s' % (v['property'], path))
    return 1 if ok else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--secs', type=float)
    ap.add_argument('--replay')
    a = ap.parse_args()
    try:
        if a.replay:
            return replay(a.replay)
        if a.property not in gens.GENS:
            print('no such property')
            return 2
        return Check(a.property, a.tier, a.seed, a.secs).run()
    except build.BuildError as x:
        print('cannot build the simulator:\n%s' % x)
        return 2


if __name__ == '__main__':
    sys.exit(main())
