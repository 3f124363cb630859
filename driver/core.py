"""Builds harness programs from /repo's working tree, runs them in shards, collects evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CTHASH_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
JOBS = 8


class CheckError(Exception):
    """the check can't decide: exit 2"""


class NoLibrary(CheckError):
    """not even an everyday program compiles in some configuration"""


class Config:
    def __init__(self, name, cxx='g++-14', std='c++23', opt='-O2', flags=(), single=False):
        self.name, self.cxx, self.std, self.opt, self.flags, self.single = name, cxx, std, opt, tuple(flags), single

    def cmd(self):
        c = [self.cxx, '-std=' + self.std, self.opt, '-I' + REPO + '/include', '-I' + H, '-w', *self.flags]
        if self.single:
            c.append('-DCTH_SINGLE')
        return c

    def key(self):
        return ' '.join(self.cmd())


DEFAULT = Config('g++-14 -std=c++23 -O2')
LIGHT = Config('g++-14 -std=c++23 -O1', opt='-O1')


class Unit:
    def __init__(self, src, *defs, optional=False, plain=False):
        # plain: contains no code of the library, so is always built with one configuration
        self.src, self.defs, self.optional, self.plain = src, tuple(defs), optional, plain

    def label(self):
        return os.path.basename(self.src) + (' ' + ' '.join(self.defs) if self.defs else '')


class Program:
    def __init__(self, name, units, libs=()):
        self.name, self.units, self.libs = name, units, tuple(libs)


CONTROL = r'''
#include <cthash/cthash.hpp>
#include <iostream>
#include <string_view>
using namespace cthash::literals;
constexpr auto a = cthash::sha256{}.update("hello there!").final();
static_assert(a == "c69509590d81db2f37f9d75480c8efedf79a77933db5a8319e52e13bfd9874a3"_sha256);
int main(int argc, char ** argv) {
	auto h = cthash::sha3_256{};
	h.update(std::string_view(argv[0]));
	std::cout << h.final() << argc << "\n";
}
'''


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        # a check has 900 s; on a slow machine the work which is left after the budget is noted instead of done
        self.budget = 600 if not self.thorough else 5400
        self.dir = tempfile.mkdtemp(prefix='cthash-%s-' % pid.lower())
        atexit.register(shutil.rmtree, self.dir, ignore_errors=True)
        self.replays = os.path.join(VERIF, 'replays', pid)
        self.objs, self.progs = {}, {}
        self.hashes = set()
        self.evaluations = 0
        self.extra_nontrivial = 0
        self.checks = {}
        self.samples = []
        self.rules, self.assumptions, self.notes, self.not_run = [], [], [], []
        self.violations = []
        self.config = {}
        self.lock = threading.Lock()
        self.replays_cleared = False

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print('[%6.1fs]' % self.elapsed(), *a, flush=True)

    # ---- building ----
    def _compile(self, unit, cfg):
        if unit.plain:
            cfg = Config('plain', flags=['-g1'] + [f for f in cfg.flags if f.startswith('-fsanitize') and 'thread' in f], cxx='g++-14')
        key = (unit.src, unit.defs, cfg.key())
        with self.lock:
            fut = self.objs.get(key)
            mine = fut is None
            if mine:
                fut = self.objs[key] = cf.Future()
        if not mine:
            return fut.result()
        try:
            o = os.path.join(self.dir, hashlib.sha1(repr(key).encode()).hexdigest()[:16] + '.o')
            src = unit.src if os.path.isabs(unit.src) else os.path.join(H, unit.src)
            cmd = cfg.cmd() + list(unit.defs) + ['-c', src, '-o', o]
            res = None
            for attempt in range(3):
                r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=dict(os.environ, TMPDIR=self.dir))
                if r.returncode == 0:
                    res = (o, None)
                    break
                res = (None, ' '.join(cmd) + '\n' + r.stderr)
                # an error in the program is repeatable; only one of these can come from the machine
                if not any(x in r.stderr for x in ('Killed', 'No space left', 'out of memory', 'internal compiler error', 'bad_alloc', 'Resource temporarily')) and r.returncode >= 0:
                    break
                time.sleep(2)
            else:
                raise CheckError('compiler fails: ' + res[1][:2000])
            fut.set_result(res)
            return res
        except BaseException as e:
            fut.set_exception(e)
            raise

    def control(self, cfg):
        """an everyday program compiles and links in this configuration"""
        src = os.path.join(self.dir, 'control-%s.cpp' % hashlib.sha1(cfg.key().encode()).hexdigest()[:8])
        with open(src, 'w') as f:
            f.write(CONTROL if not cfg.single else CONTROL.replace('cthash/cthash.hpp', 'cthash-single-header.hpp'))
        r = subprocess.run(cfg.cmd() + [src, '-o', src + '.bin'], capture_output=True, text=True, errors='replace')
        return r.returncode == 0, r.stderr

    def build(self, progs, cfg=DEFAULT, broken_is_violation=True):
        """returns {program name: path}; a program of which a required unit does not compile is missing from it"""
        units = []
        for p in progs:
            for u in p.units:
                units.append((p, u))
        out = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [(p, u, ex.submit(self._compile, u, cfg)) for p, u in units]
            res = [(p, u, f.result()) for p, u, f in futs]
        broken = {}
        for p, u, (o, err) in res:
            if o is None:
                if u.optional:
                    msg = '%s does not compile and was left out' % u.label()
                    if msg not in self.not_run:
                        self.not_run.append(msg)
                else:
                    broken.setdefault(p.name, []).append((u, err))

        def link(p):
            key = hashlib.sha1((p.name + cfg.key()).encode()).hexdigest()[:8]
            b = os.path.join(self.dir, p.name + '-' + key)
            objs = [o for q, u, (o, e) in res if q is p and o]
            r = subprocess.run([cfg.cxx, *[f for f in cfg.flags if f.startswith('-fsanitize')], *objs, *p.libs, '-o', b], capture_output=True, text=True, errors='replace')
            return p, b, r

        for name, errs in broken.items():
            ok, cerr = self.control(cfg)
            if not ok:
                raise NoLibrary('the library does not compile at all (%s):\n%s' % (cfg.name, cerr[:3000]))
            if broken_is_violation:
                for u, err in errs[:3]:
                    path = self.replay_path('compile-%s.txt' % u.label().replace(' ', '_').replace('/', '_'))
                    with open(path, 'w', errors='replace') as f:
                        f.write('# use of the public interface which compiled before does not compile (%s)\n' % cfg.name)
                        f.write(err)
                    self.violation(path, '%s does not compile (%s)' % (u.label(), cfg.name))
            self.log('does not compile:', name, cfg.name, errs[0][1][:1500])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for p, b, r in ex.map(link, [p for p in progs if p.name not in broken]):
                if r.returncode:
                    raise CheckError('link of %s: %s' % (p.name, r.stderr[:3000]))
                out[p.name] = b
        self.progs.update({(n, cfg.name): b for n, b in out.items()})
        return out

    # ---- running ----
    def replay_path(self, name):
        if not self.replays_cleared:
            shutil.rmtree(self.replays, ignore_errors=True)
            self.replays_cleared = True
        os.makedirs(self.replays, exist_ok=True)
        return os.path.join(self.replays, name)

    def violation(self, path, what):
        with self.lock:
            self.violations.append((path, what))
            self.log('VIOLATION candidate:', what, path)

    def supervised(self, cmd, env, stop):
        """runs a command till its end, or till another job failed (result is None then)"""
        with tempfile.TemporaryFile('w+', errors='replace', dir=self.dir) as err:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=self.dir, start_new_session=True)
            while True:
                try:
                    p.wait(0.2)
                    break
                except subprocess.TimeoutExpired:
                    late = self.elapsed() > self.budget + 220
                    if stop.is_set() or late:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        p.wait()
                        if late:
                            self.out_of_time(os.path.basename(cmd[0]) + ' ' + ' '.join(cmd[cmd.index('--props') + 1:][:1] if '--props' in cmd else []))
                        return None
            err.seek(0)
            return subprocess.CompletedProcess(cmd, p.returncode, '', err.read())

    def usable(self, cfgs, why):
        """those of the configurations in which the library can be used; the others are noted.  Whether all of them
        have to work is decided by C20 and C23."""
        res = []
        for cfg in cfgs:
            ok, err = self.control(cfg)
            if ok:
                res.append(cfg)
            else:
                self.not_run.append('%s: the library does not compile with %s: %s' % (why, cfg.name, [l for l in err.splitlines() if 'error' in l][:1]))
        return res

    def out_of_time(self, what):
        with self.lock:
            m = 'out of time: ' + what
            if m not in self.not_run:
                self.not_run.append(m)
                self.log(m)

    def run_one(self, job):
        """one shard of a program; returns (status, job, detail)"""
        n = job['n']
        out = os.path.join(self.dir, 'out-%d.json' % n)
        rep = os.path.join(self.dir, 'replay-%d' % n)
        cmd = [job['bin'], '--seed', str(job['seed']), '--shard', '%d/%d' % (job['shard'], job['shards']), '--out', out, '--replay-out', rep, '--cap', str(job['cap'])]
        if job.get('props'):
            cmd += ['--props', ','.join(job['props'])]
        if job.get('scale', 1) != 1:
            cmd += ['--scale', str(job['scale'])]
        if self.thorough or job.get('thorough'):
            cmd += ['--thorough']
        env = dict(os.environ, **job.get('env', {}))
        for attempt in range(2):
            if job['stop'].is_set():
                return 'skipped', job, None
            if self.elapsed() > self.budget:
                self.out_of_time('%s%s shard %d/%d' % (job.get('prefix', ''), os.path.basename(job['bin']), job['shard'], job['shards']))
                return 'skipped', job, None
            r = self.supervised(cmd, env, job['stop'])
            if r is None:
                return 'skipped', job, None
            if r.returncode in (0, 1):
                break
        if r.returncode == 0:
            d = json.load(open(out, errors='replace'))
            with open(out + '.hashes') as f:
                hs = {int(l, 16) for l in f}
            os.unlink(out + '.hashes')
            return 'ok', job, (d, hs)
        if r.returncode == 1:
            if job.get('decisive', lambda j, r: True)(job, rep):
                job['stop'].set()  # one failure is enough
            return 'fail', job, (rep, r.stderr)
        return 'error', job, r.stderr + ' (exit %d)' % r.returncode

    def run(self, jobs):
        """jobs: dicts with prog(name)/bin, props, shards, cap, scale, env, cfg.  Returns list of failures (job, replay path, text)."""
        q = []
        for j in jobs:
            for s in range(j.get('shards', JOBS)):
                q.append(dict(j, shard=s, shards=j.get('shards', JOBS), seed=j.get('seed', self.seed), cap=j.get('cap', 120 if not self.thorough else 600), n=len(q) + random.randrange(1 << 40)))
        q.sort(key=lambda j: (-j.get('prio', 0), j['shard']))
        stop = threading.Event()
        for j in q:
            j['stop'] = stop
        fails, errors = [], []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for st, job, d in ex.map(self.run_one, q):
                if st == 'ok':
                    self.collect(job, *d)
                elif st == 'fail':
                    fails.append((job, *d))
                elif st == 'error':
                    errors.append((job, d))
        for job, rep, text in fails:
            self.log('failed:', os.path.basename(job['bin']), text.strip()[:1500])
        if errors and not fails:
            raise CheckError('%s: %s' % (errors[0][0]['bin'], errors[0][1][-3000:]))
        return fails

    def collect(self, job, d, hs):
        self.hashes |= hs
        for p in d['props']:
            name = job.get('prefix', '') + p['name']
            c = self.checks.setdefault(name, {'planned': 0, 'evaluations': 0, 'discarded': 0, 'nontrivial': 0, 'labels': {}})
            c['planned'] += p['planned']
            c['evaluations'] += p['evaluations']
            c['discarded'] += p['discarded']
            c['nontrivial'] += p['distinct_nontrivial']
            self.evaluations += p['evaluations']
            for l, v in p['labels'].items():
                c['labels'][l] = c['labels'].get(l, 0) + v
            if p['samples'] and c.setdefault('_s', 0) < 2:
                c['_s'] += 1
                self.samples.append(name + ': ' + p['samples'][-1])

    def replay_fails(self, binary, rep, env=None, times=1):
        n = 0
        text = ''
        for _ in range(times):
            r = subprocess.run([binary, '--replay', rep], capture_output=True, text=True, errors='replace', env=dict(os.environ, **(env or {})), cwd=self.dir)
            if r.returncode == 2:
                raise CheckError('replay: ' + r.stderr)
            n += r.returncode == 1
            text = r.stdout
        return n, text

    def confirm(self, fails, times=3):
        """failures which repeat become violations"""
        done = set()
        for job, rep, text in fails:
            first = open(rep, errors='replace').readline().split()[1]
            key = (job['bin'], first)
            if key in done:
                continue
            k = 1 if first.startswith('big.') and times > 1 else times
            n, t = self.replay_fails(job['bin'], rep, job.get('env'), k)
            if n < k and not (n >= 1 and job.get('racy')):
                # a data race or similar: try the whole search again
                if n == 0 or not job.get('racy'):
                    self.notes.append('a failure of %s repeated %d of %d times: %s' % (first, n, k, text[:300]))
                    continue
            done.add(key)
            path = self.replay_path('%s-%s.tape' % (os.path.basename(job['bin']).rsplit('-', 1)[0], first.replace('/', '_')))
            body = open(rep, errors='replace').read()
            with open(path, 'w', errors='replace') as f:
                f.write(body)
                f.write('# program: %s\n# configuration: %s\n' % (os.path.basename(job['bin']).rsplit('-', 1)[0], job.get('cfg', DEFAULT).key()))
                f.write('# output: ' + t.replace('\n', '\n# ') + '\n')
                f.write('# replay with: python3 driver/replay.py %s %s\n' % (self.pid, path))
            self.violation(path, text.strip()[:400])
        return bool(done)

    def check(self, jobs, racy=False):
        """runs jobs; repeatable failures are violations, unrepeatable ones an error"""
        for j in jobs:
            if racy:
                j['racy'] = True
        fails = self.run(jobs)
        if fails and not self.confirm(fails) and not self.violations:
            raise CheckError('failure did not repeat: ' + '; '.join(self.notes))

    # ---- results ----
    def known(self):
        """known:  property=<id> match=<text>  (a violation whose replay file contains <text> is not a new one)"""
        res = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                if l.startswith('known: property=%s ' % self.pid) and ' match=' in l:
                    res.append(l.split(' match=', 1)[1].strip())
        return res

    def finish(self):
        known = self.known()
        new = []
        for path, what in self.violations:
            text = open(path, errors='replace').read() if os.path.exists(path) else what
            k = [m for m in known if m in text]
            if not k:
                new.append((path, what))
        for m in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, m))
        cov = {
            'evaluations': self.evaluations,
            'distinct_nontrivial': len(self.hashes) + self.extra_nontrivial,
            'rule': ' '.join(self.rules),
            'samples': self.samples[:40],
            'checks': {k: {a: b for a, b in v.items() if a != '_s'} for k, v in self.checks.items()},
        }
        if self.not_run:
            cov['not_run'] = self.not_run
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(p + '.tmp', p)
        for path, what in new:
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  ' + what.replace('\n', '\n  ')[:2000])
        self.log('%s: %d cases, %d distinct non-trivial, %d violations' % (self.pid, self.evaluations, cov['distinct_nontrivial'], len(new)))
        if not new and self.evaluations == 0:
            raise CheckError('no case was run')
        return 1 if new else 0
