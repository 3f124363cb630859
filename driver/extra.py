"""checks which drive compilers and command line tools"""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, time
import ctgen, refs
from core import *
from programs import *

GCC14 = Config('g++-14 -std=c++23 -O0', opt='-O0')
CLANG = Config('clang++-18 -std=c++23 -O0', cxx='clang++-18', opt='-O0')
GCC13 = Config('g++-13 -std=c++20 -O0', cxx='g++-13', std='c++20', opt='-O0')
CLANG20 = Config('clang++-18 -std=c++20 -O0 -funsigned-char', cxx='clang++-18', std='c++20', opt='-O0', flags=['-funsigned-char'])


def merge(c, name, planned, evaluations, labels):
    k = c.checks.setdefault(name, {'planned': 0, 'evaluations': 0, 'discarded': 0, 'nontrivial': 0, 'labels': {}})
    k['planned'] += planned
    k['evaluations'] += evaluations
    for l in labels:
        k['labels'][l] = k['labels'].get(l, 0) + 1
    return k


def note_case(c, k, text):
    """counts one non-trivial case, once per distinct text"""
    h = int(hashlib.sha1(text.encode()).hexdigest()[:15], 16)
    if h not in c.hashes:
        c.hashes.add(h)
        c.extra_counted = getattr(c, 'extra_counted', 0) + 1
        k['nontrivial'] += 1


# ---- generated programs in constant evaluation ----
def ct_check(c, name, plan, kinds=None, strict=False, per=60):
    """plan: [(config, rounds)].  strict: wrong results count as well, otherwise only a difference to run time"""
    ok = c.usable([cfg for cfg, _ in plan], name)
    if not ok:
        raise NoLibrary('the library does not compile with any of the compilers')
    plan = [(cfg, n) for cfg, n in plan if cfg in ok]
    runners = {cfg.name: ctgen.Runner(c, cfg) for cfg, _ in plan}
    jobs = []
    for cfg, rounds in plan:
        for r in range(rounds):
            for t in range(JOBS):
                rng = random.Random('%d %s %s %d %d' % (c.seed, name, cfg.name, r, t))
                cases = [] if kinds else [ctgen.gen_long(rng), ctgen.gen_long(rng)]
                while len(cases) < per:
                    x = ctgen.gen_case(rng, kinds)
                    if not (x.get('gcc_only') and 'clang' in cfg.cxx):
                        cases.append(x)
                jobs.append((cfg, cases))

    def strict_verdict(run, case):
        st, text, v = run.attempt([case])
        return None if st == 'ok' else text

    suspects = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def attempt(j):
            if c.elapsed() > c.budget and j is not jobs[0]:
                return 'skip', '', {}
            return runners[j[0].name].attempt(j[1])

        for (cfg, cases), (st, text, v) in zip(jobs, ex.map(attempt, jobs)):
            if st == 'skip':
                c.out_of_time('programs for ' + cfg.name)
                continue
            k = merge(c, name, len(cases), len(cases), [])
            c.evaluations += len(cases)
            for x in cases:
                if ctgen.nontrivial(x):
                    note_case(c, k, ctgen.describe(x))
                for l in ['kind ' + x['kind'], cfg.name] + (['with seed'] if x.get('seed') else []) + [f'form {o[1]}' for o in x.get('ops', []) if o[0] == 'u'] + ([x['alg'].split(':')[0]] if 'alg' in x else []):
                    k['labels'][l] = k['labels'].get(l, 0) + 1
            if len(c.samples) < 12:
                c.samples.append('%s, %s: %s' % (name, cfg.name, ctgen.describe(cases[0])[:600]))
            if st == 'run':
                suspects += [(cfg, cases[i]) for i, (d, w) in v.items() if strict or d != 'same']
            elif st == 'compile':
                suspects += [(cfg, x) for x in cases]
    if not suspects:
        return
    c.log('%d suspects' % len(suspects))
    found = 0
    seen = set()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        def judge(s):
            cfg, x = s
            return strict_verdict(runners[cfg.name], x) if strict else runners[cfg.name].verdict(x)
        suspects = suspects[:240]
        for (cfg, x), t in zip(suspects, ex.map(judge, suspects)):
            if t and (cfg.name, x['kind']) not in seen and found < 3:
                seen.add((cfg.name, x['kind']))
                found += 1
                run = runners[cfg.name]
                if not strict:
                    x = ctgen.shrink(run, x)
                judge1 = strict_verdict if strict else (lambda r, y: r.verdict(y))
                texts = [judge1(run, x) for _ in range(3)]
                if not all(texts):
                    raise CheckError('not repeatable: ' + str(x))
                path = c.replay_path('%s-%d.cpp' % (name, found))
                with open(path, 'w') as f:
                    f.write('// %s\n// %s\n' % (' '.join(cfg.cmd() + ctgen.high_limits(cfg.cxx) + ['THIS_FILE']), texts[0][:4000].replace('\n', '\n// ')))
                    f.write(ctgen.program([x]))
                c.violation(path, texts[0][:1500])
    if not found and not strict:
        c.notes.append('some generated programs are wrong in the same way in constant evaluation and at run time, or do not compile at all; that is not for this property to judge')
        c.log(c.notes[-1])


# ---- command line tools ----
CHECKSUM = ['sha-224', 'sha-256', 'sha-384', 'sha-512', 'sha-512/224', 'sha-512/256', 'sha3-224', 'sha3-256', 'sha3-384', 'sha3-512', 'xxhash32', 'xxhash64'] + ['shake-%d/%d' % (a, n) for a in (128, 256) for n in (32, 64, 128, 256, 512, 1024, 2048)]
EXAMPLE = {'sha224': ('base16', 'sha224', 0), 'sha256': ('base16', 'sha256', 0), 'sha384': ('base16', 'sha384', 0), 'sha512': ('base16', 'sha512', 0), 'sha512/224': ('base16', 'sha512t:224', 0), 'sha512/256': ('base16', 'sha512t:256', 0),
           'sha3-224': ('base16', 'sha3_224', 0), 'sha3-256': ('base16', 'sha3_256', 0), 'sha3-384': ('base64url', 'sha3_384', 0), 'sha3-512': ('base64url', 'sha3_512', 0),
           'shake-128/64': ('base64url', 'shake128', 64), 'shake-128/128': ('base64url', 'shake128', 128), 'shake-128/1024': ('base64url', 'shake128', 1024),
           'shake-256/64': ('base64url', 'shake256', 64), 'shake-256/128': ('base64url', 'shake256', 128), 'shake-256/1024': ('base64url', 'shake256', 1024), 'xxhash32': ('base16', 'xxhash32', 0), 'xxhash64': ('base16', 'xxhash64', 0)}


def cli_digest(name, data):
    if name.startswith('shake-'):
        a, n = name[6:].split('/')
        return refs.digest('shake' + a, data, int(n))
    if name.startswith('sha-512/'):
        return refs.digest('sha512t:' + name[8:], data)
    return refs.digest(name.replace('sha-', 'sha').replace('-', '_'), data)


def sparse_digest(name, size, tail):
    """digest of size zero bytes followed by tail"""
    zero = bytes(1 << 24)
    h = hashlib.new({'sha-256': 'sha256', 'sha-512': 'sha512', 'sha3-256': 'sha3_256', 'sha-224': 'sha224', 'sha-384': 'sha384', 'sha3-224': 'sha3_224', 'shake-128/256': 'shake_128', 'shake-256/512': 'shake_256', 'sha-512/256': 'sha512_256'}[name])
    while size:
        n = min(size, len(zero))
        h.update(zero[:n])
        size -= n
    h.update(tail)
    return h.hexdigest(int(name.split('/')[1]) // 8) if name.startswith('shake') else h.hexdigest()


def cli(c):
    d = c.dir
    bins = {}
    cfg = DEFAULT

    def compile_tool(n):
        r = subprocess.run(cfg.cmd() + [REPO + '/%s.cpp' % n, '-o', '%s/%s' % (d, n)], capture_output=True, text=True, errors='replace')
        return n, r
    with cf.ThreadPoolExecutor(2) as ex:
        for n, r in ex.map(compile_tool, ['checksum', 'example']):
            if r.returncode:
                if not c.control(cfg)[0]:
                    raise CheckError('the library does not compile: ' + r.stderr[:2000])
                p = c.replay_path('compile-%s.txt' % n)
                open(p, 'w').write(r.stderr)
                c.violation(p, '%s.cpp does not compile' % n)
            else:
                bins[n] = '%s/%s' % (d, n)
    if c.violations:
        return
    rng = random.Random('cli %d' % c.seed)
    files = os.path.join(d, 'files')
    os.mkdir(files)

    def run(args, cwd=files):
        r = subprocess.run(args, capture_output=True, cwd=cwd, timeout=800)
        return r.returncode, r.stdout, r.stderr

    def lengths():
        k = rng.randrange(8)
        if k == 0:
            return rng.choice([0, 1, 2])
        if k == 1:
            return rng.randrange(0, 300)
        if k == 2:
            return rng.choice([64, 128, 72, 104, 136, 144, 168, 16, 32]) * rng.randrange(1, 40) + rng.choice([-17, -9, -8, -1, 0, 1])
        if k == 3:
            return 4096 * rng.randrange(1, 20) + rng.choice([-1, 0, 1])
        if k == 4:
            return (1 << rng.randrange(6, 18)) + rng.choice([-1, 0, 1])
        return rng.randrange(0, 5000)

    cases = []
    names = []
    for i in range(4000 if c.thorough else 700):
        nm = rng.choice(['f%d', 'file %d', 'ä%d.bin', '-%d', '%d'])
        nm = nm % i
        data = ctgen.gen_bytes(rng, max(0, lengths()))
        for h in (CHECKSUM if i < 12 else rng.sample(CHECKSUM, 2)):
            cases.append(('ok', h, nm, data))
    bad_names = set()
    while len(bad_names) < (2000 if c.thorough else 400):
        b = list(rng.choice(CHECKSUM))
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(5)
            at = rng.randrange(len(b) + 1)
            if k == 0:
                b.insert(at, rng.choice('0123456789-/ aSHx'))
            elif k == 1 and b:
                b.pop(min(at, len(b) - 1))
            elif k == 2 and b:
                b[min(at, len(b) - 1)] = rng.choice('0123456789-/_ sha')
            elif k == 3:
                b = b[:at]
            else:
                b = list(''.join(b).swapcase())
        s = ''.join(b)
        if s not in CHECKSUM:
            bad_names.add(s)
    for s in sorted(bad_names):
        cases.append(('bad', s, 'f', b'some content'))
    for h in CHECKSUM + ['', 'md5']:
        cases.append(('missing', h, 'nothing here', b''))
        cases.append(('dir', h, 'directory', b''))
    cases += [('usage', *x) for x in ((None, None, b''), ('sha-256', None, b''))]
    for i in range(1500 if c.thorough else 300):
        n = lengths() % 20000
        a = bytes(x or 1 for x in ctgen.gen_bytes(rng, n))
        cases.append(('example', None, None, a))
    cases.append(('example0', None, None, b''))
    big = [('sha-512', (1 << 32) + 4097), ('sha3-256', (1 << 31) + 5), ('sha-256', (1 << 31) + 4095)] if not c.thorough else [(h, (1 << 32) + 1 + 1000 * i) for i, h in enumerate(['sha-256', 'sha-512', 'sha3-256', 'sha-224', 'sha-384', 'sha3-224', 'shake-128/256', 'shake-256/512', 'sha-512/256'])]
    for h, n in big:
        cases.insert(0, ('sparse', h, 'sparse-' + h.replace('/', '_'), n))

    def one(case, keep=None):
        """text of what is wrong, or None"""
        kind, h, nm, data = case
        work = os.path.join(files, 'w%d' % (threading.get_ident() ^ random.getrandbits(40)))
        os.mkdir(work)
        try:
            if kind in ('ok', 'bad'):
                p = os.path.join(work, nm)
                open(p, 'wb').write(data)
                rc, out, err = run([bins['checksum'], h, nm], work)
                if open(p, 'rb').read() != data:
                    return 'the file was changed'
                if os.listdir(work) != [nm]:
                    return 'files were created: %s' % os.listdir(work)
                if kind == 'ok':
                    want = cli_digest(h, data).hex() + '\n'
                    if rc != 0 or out != want.encode():
                        return 'checksum %s of %d bytes: exit %d, prints %r and not %r' % (h, len(data), rc, out[:300], want)
                elif rc != 1 or out or not err:
                    return 'checksum with unknown name %r: exit %d, prints %r and %r' % (h, rc, out[:300], err[:300])
            elif kind == 'sparse':
                p = os.path.join(work, nm)
                tail = b'tail of the file'
                with open(p, 'wb') as f:
                    f.truncate(data)
                    f.seek(data)
                    f.write(tail)
                rc, out, err = run([bins['checksum'], h, nm], work)
                want = sparse_digest(h, data, tail) + '\n'
                if rc != 0 or out != want.encode():
                    return 'checksum %s of %d zeros and %r: exit %d, prints %r and not %r' % (h, data, tail, rc, out[:300], want)
            elif kind == 'missing':
                rc, out, err = run([bins['checksum'], h, nm], work)
                if rc != 1 or out or not err or os.listdir(work):
                    return 'checksum %s of a missing file: exit %d, prints %r and %r' % (h, rc, out[:300], err[:300])
            elif kind == 'dir':
                os.mkdir(os.path.join(work, nm))
                rc, out, err = run([bins['checksum'], h, nm], work)
                if rc not in (0, 1) or (rc == 1 and (out or not err)):
                    return 'checksum %s of a directory: exit %d, prints %r and %r' % (h, rc, out[:300], err[:300])
            elif kind == 'usage':
                rc, out, err = run([bins['checksum']] + ([h] if h else []), work)
                text = err.decode(errors='replace')
                missing = [x for x in ['sha-224', 'sha-256', 'sha-384', 'sha-512', 'sha-512/224', 'sha-512/256', 'sha3-224', 'sha3-256', 'sha3-384', 'sha3-512', 'shake-128/n', 'shake-256/n', 'xxhash32', 'xxhash64'] if x not in text]
                if rc != 1 or out or missing:
                    return 'checksum without file: exit %d, prints %r and %r, usage lacks %s' % (rc, out[:300], err[:600], missing)
            elif kind == 'example0':
                rc, out, err = run([bins['example']], work)
                if rc != 1 or out:
                    return 'example without argument: exit %d, prints %r' % (rc, out[:300])
            else:
                rc, out, err = run([bins['example'], data], work)
                got = {}
                for l in out.decode(errors='replace').splitlines():
                    a, _, b = l.partition('=')
                    got.setdefault(a.strip(), b.strip())
                want = {k: refs.encode(e, refs.digest(a, data, n)) for k, (e, a, n) in EXAMPLE.items()}
                wrong = {k: (got.get(k), v) for k, v in want.items() if got.get(k) != v}
                if rc != 0 or wrong:
                    return 'example of %d bytes %s: exit %d, wrong lines (printed, expected): %s' % (len(data), data[:100].hex(), rc, wrong)
            return None
        except subprocess.TimeoutExpired:
            return 'does not end: %s %s' % (kind, h)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    found = 0
    k = None
    kinds_seen = set()
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for case, t in zip(cases, ex.map(one, cases)):
            k = merge(c, 'cli', 1, 1, [case[0]] + (['hash ' + case[1]] if case[0] == 'ok' else []))
            c.evaluations += 1
            note_case(c, k, repr((case[0], case[1], case[2], hashlib.sha1(repr(case[3]).encode()).hexdigest())))
            if len(c.samples) < 8 and random.random() < 0.01:
                c.samples.append('%s %s %s, %s' % (case[0], case[1], case[2], case[3] if isinstance(case[3], int) else '%d bytes %s' % (len(case[3]), case[3][:20].hex())))
            if t and (case[0], case[1] if case[0] == 'ok' else '') not in kinds_seen and found < 5:
                kinds_seen.add((case[0], case[1] if case[0] == 'ok' else ''))
                # smaller files
                if case[0] in ('ok', 'example'):
                    best, step = case, 0
                    data = case[3]
                    while step < 40:
                        for cand in (data[:len(data) // 2], data[:-1], bytes([1] * len(data))):
                            step += 1
                            if cand != data and one((*case[:3], cand)):
                                data = cand
                                break
                        else:
                            break
                    case = (*case[:3], data)
                ts = [one(case) for _ in range(3)]
                if not all(ts):
                    raise CheckError('not repeatable: ' + t)
                found += 1
                path = c.replay_path('cli-%d.json' % found)
                json.dump({'kind': case[0], 'name': case[1], 'file': case[2], 'data_hex': case[3] if isinstance(case[3], int) else case[3].hex(), 'what': ts[0]}, open(path, 'w'), indent=1)
                c.violation(path, ts[0])
    if not c.samples:
        c.samples.append(str(cases[-5][:3]))


# ---- several builds which must agree ----
def agreement(c, variants, progs, scale, what, base=0):
    """A failure in one variant which does not fail in another one is a violation; a failure common to all is
    somebody else's.  Uses of the interface must compile in all variants or in none."""
    built = []
    for cfg in variants:
        if len(built) > 1 and c.elapsed() > c.budget * 0.6:
            c.out_of_time('build ' + cfg.name)
            continue
        ps = progs(cfg)
        try:
            b = c.build(ps, cfg, broken_is_violation=False)
        except NoLibrary as e:
            c.log(e)
            b = {}
        built.append((cfg, b, {p.name for p in ps}))
        c.log('built', cfg.name, len(b), 'programs')
    if not any(b for _, b, _ in built):
        raise NoLibrary('the library does not compile in any of the compared builds')
    for cfg, b, wanted in built:
        for n in wanted - set(b):
            if any(n in b2 for _, b2, _ in built):
                path = c.replay_path('compile-%s-%s.txt' % (n, cfg.cxx))
                errs = [f.result()[1] for k, f in c.objs.items() if k[2] == cfg.key() and f.result()[0] is None]
                open(path, 'w').write('\n\n'.join(errs)[:200000])
                c.violation(path, '%s compiles in some of the compared builds, but not in: %s' % (n, cfg.name))
            else:
                c.not_run.append('%s compiles in none of the compared builds' % n)
    if c.violations:
        return
    def decisive(job, rep):
        """does the failing case hold in another build?"""
        return any(c.replay_fails(b[job['prog']], rep)[0] == 0 for cfg, b, _ in built if job['prog'] in b and cfg is not job['cfg'])

    jobs = []
    for i, (cfg, b, _) in enumerate(built):
        for n, path in b.items():
            jobs.append(dict(bin=path, prog=n, cfg=cfg, prefix='%s / ' % cfg.name, scale=scale.get(n, 1) if isinstance(scale, dict) else scale, shards=4, decisive=decisive))
    fails = c.run(jobs)
    seen = set()
    for job, rep, text in fails:
        prop = open(rep, errors='replace').readline().split()[1]
        if (job['prog'], prop) in seen:
            continue
        verdicts = {}
        c.evaluations += 1
        for cfg, b, _ in built:
            if job['prog'] in b:
                n, t = c.replay_fails(b[job['prog']], rep, times=3)
                verdicts[cfg.name] = (n, t)
        ns = [n for n, _ in verdicts.values()]
        if any(n not in (0, 3) for n in ns):
            # not deterministic within one build: different behaviour, but report only when it repeats
            c.notes.append('%s %s fails only sometimes: %s' % (job['prog'], prop, {k: v[0] for k, v in verdicts.items()}))
            if 3 not in ns:
                continue
        if 3 in ns and 0 in ns:
            seen.add((job['prog'], prop))
            path = c.replay_path('%s-%s.tape' % (job['prog'], prop))
            with open(path, 'w') as f:
                f.write(open(rep, errors='replace').read())
                for k, (n, t) in verdicts.items():
                    f.write('# %s: %s\n' % (k, 'fails' if n else 'holds'))
                f.write('# program: %s\n# configuration: %s\n' % (job['prog'], job['cfg'].key()))
            c.violation(path, '%s: %s' % ({k: 'fails' if v[0] else 'holds' for k, v in verdicts.items()}, text.strip()[:600]))
        elif 3 in ns:
            seen.add((job['prog'], prop))
            c.notes.append('%s %s fails in all compared builds in the same way, which is not a difference between them' % (job['prog'], prop))
            c.log(c.notes[-1])


# ---- inclusion of headers ----
# header -> (algorithm or None, snippet returning bool; {M} is a message literal, {D} its digest literal)
HEADERS = {}
for _a, _h in (('sha224', 'sha2/sha224.hpp'), ('sha256', 'sha2/sha256.hpp'), ('sha384', 'sha2/sha384.hpp'), ('sha512', 'sha2/sha512.hpp'), ('sha3_224', 'sha3/sha3-224.hpp'), ('sha3_256', 'sha3/sha3-256.hpp'),
               ('sha3_384', 'sha3/sha3-384.hpp'), ('sha3_512', 'sha3/sha3-512.hpp'), ('sha512t:224', 'sha2/sha512/t.hpp'), ('sha512t:256', 'sha2/sha512/t.hpp'), ('shake128', 'sha3/shake128.hpp'), ('shake256', 'sha3/shake256.hpp'),
               ('xxhash32', 'xxhash.hpp'), ('xxhash64', 'xxhash.hpp')):
    HEADERS.setdefault('cthash/' + _h, []).append(_a)
HEADERS['cthash/cthash.hpp'] = [a for v in list(HEADERS.values()) for a in v]
HEADERS['cthash/value.hpp'] = ['value']
HEADERS['cthash/encoding/base.hpp'] = ['encode']
HEADERS['cthash/simple.hpp'] = []
HEADERS['cthash/hasher.hpp'] = []
HEADERS['cthash/fixed-string.hpp'] = ['fixed']
HEADERS['cthash/encoding/encodings.hpp'] = ['names']


def snippet(rng, a):
    m = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz 0123456789') for _ in range(rng.randrange(0, 150)))
    if a == 'value':
        x = rng.randbytes(8).hex()
        return 'cthash::hash_value("%s") == "%s"_hash && to_string(cthash::hash_value("%s")) == "%s"' % (x, x.upper(), x, x)
    if a == 'encode':
        return '[] { std::string o; auto v = std::string_view("%s") | cthash::base64url_encode; for (auto i = v.begin(); !(i == v.end()); ++i) o += *i; return o == "%s"; }()' % (m, refs.encode('base64url', m.encode()))
    if a == 'fixed':
        return 'std::string_view(cthash::fixed_string("%s").data(), cthash::fixed_string("%s").size()) == "%s"' % (m or 'x', m or 'x', m or 'x')
    if a == 'names':
        return 'cthash::runtime_encoding("zbase32").visit([]<typename E>(E) { return E::name; }) == cthash::encoding::z_base32::name'
    t = ctgen.alg_type(a)
    seed = bits = 0
    ctor, fin = '{}', '.final()'
    if a.startswith('shake'):
        bits = 8 * rng.randrange(1, 40)
        fin = '.final<%d>()' % bits
    if a.startswith('xxh'):
        seed = rng.randrange(1 << 32)
        ctor = '(%du)' % seed
    d = refs.digest(a, m.encode(), bits, seed).hex()
    e = '%s%s.update("%s")%s == "%s"%s' % (t, ctor, m, fin, d, ctgen.SUFFIX[a])
    if rng.randrange(3) == 0:
        e += ' && to_string(%s%s.update("%s")%s) == "%s"' % (t, ctor, m, fin, d)
    if rng.randrange(3) == 0 and bits == 0 and not seed:
        e += ' && cthash::simple<%s>("%s") == "%s"%s' % (t, m, d, ctgen.SUFFIX[a])
    return e


STD = ['string', 'vector', 'iostream', 'format', 'ranges', 'algorithm', 'cstring', 'map', 'cstdint', 'climits', 'bit', 'windowsish']
ALL_STD = ['algorithm', 'array', 'bit', 'climits', 'compare', 'concepts', 'cstddef', 'cstdint', 'cstdlib', 'cstring', 'exception', 'format', 'fstream', 'functional', 'initializer_list', 'iomanip', 'iostream', 'iterator',
           'limits', 'map', 'memory', 'new', 'numeric', 'optional', 'ostream', 'ranges', 'span', 'sstream', 'stdexcept', 'string', 'string_view', 'tuple', 'type_traits', 'utility', 'variant', 'vector', 'version', 'cassert']


# names a program could have for something of its own, which are not for a library to take
OWN = ('ROTL ROTR ROL ROR ROTATE SHR SHL CH MAJ SIGMA0 SIGMA1 SUM0 SUM1 EP0 EP1 BLOCK BLOCK_SIZE BLOCKSIZE DIGEST_SIZE STATE ROUND ROUNDS RATE CAPACITY PRIME PRIME1 PRIME32_1 PRIME64_1 SEED XXH32 XXH64 SHA256 SHA512 MD5 KECCAK '
       'MIN MAX ABS SWAP BSWAP BSWAP32 BSWAP64 BYTESWAP HI LO BIT BITS MASK ALIGN ALIGNED PACKED INLINE FORCE_INLINE ALWAYS_INLINE NOINLINE FLATTEN HOT CONSTEXPR CONSTEVAL NODISCARD LIKELY UNLIKELY UNUSED ASSERT VERIFY CHECK EXPECT REQUIRE '
       'EXPECTS ENSURES DEBUG TRACE LOG FWD MOV MOVE CONCAT STRINGIFY ARRAY_SIZE LENGTH SIZE COUNT N T U V K A B W X BUFFER ENCODING BASE64 BASE32 HEX PADDING DIGEST HASH VALUE STATIC PUBLIC '
       'assertion rotl rotr rotate choice majority sum_a sum_e sigma_0 sigma_1 rounds block block_size state digest hash_value hash hasher tag tagged value fixed fixed_string byte bytes byte_like bits bit_buffer buffer buffer_info mask chunk chunk_of_bits '
       'encoding encodings encode decode base64 base32 base16 hexdec hex padding alphabet simple update finalize keccak keccak_f theta rho pi chi iota rc state_1600 squeeze absorb sha2 sha3 sha224 sha256 sha384 sha512 shake128 shake256 xxhash xxhash32 xxhash64 '
       'internal detail support utils util conditional maybe_const identify size_of view action iterator_like is_padding convert cast literal literals config length total_length process compress span_t byte_span digest_span view_t compare order').split()


def own_names(rng, n):
    """declarations of own things at global scope, and a use of them"""
    out = ''
    for x in rng.sample(OWN, n):
        k = rng.randrange(5)
        out += ['struct %s { int m; };\n', 'inline int %s(int a, int b) { return a * b; }\n', 'enum class own_%s { %s };\n', 'template <typename> struct %s { static constexpr int own = 1; };\n', 'namespace %s { inline int own = 2; }\n'][k] % ((x, x) if k == 2 else x)
    return out


def inclusion(c):
    rng = random.Random('inclusion %d' % c.seed)
    cfgs = [Config('g++-14 -std=c++23 -O0', opt='-O0'), Config('g++-14 -std=c++20 -O0', std='c++20', opt='-O0'), Config('clang++-18 -std=c++20 -O0', cxx='clang++-18', std='c++20', opt='-O0')]
    if c.thorough:
        cfgs += [Config('g++-13 -std=c++20 -O0', cxx='g++-13', std='c++20', opt='-O0'), Config('clang++-18 -std=c++23 -O0', cxx='clang++-18', opt='-O0')]

    for cfg in list(cfgs):
        ok, err = c.control(cfg)
        if ok:
            continue
        # would it compile with all of std included first?
        src = os.path.join(c.dir, 'control-std.cpp')
        open(src, 'w').write(''.join('#include <%s>\n' % s for s in ALL_STD) + CONTROL)
        r = subprocess.run(cfg.cmd() + [src, '-o', src + '.bin'], capture_output=True, text=True, errors='replace')
        if r.returncode == 0:
            path = c.replay_path('inclusion-control.cpp')
            open(path, 'w').write('// %s\n%s\n/*\n%s\n*/\n' % (' '.join(cfg.cmd()), CONTROL, err[:20000]))
            c.violation(path, 'cthash/cthash.hpp compiles only after headers of the standard library (%s)' % cfg.name)
            return
        c.not_run.append('the library does not compile with %s whatever is included: %s' % (cfg.name, [l for l in err.splitlines() if 'error' in l][:1]))
        cfgs.remove(cfg)
    if not cfgs:
        raise NoLibrary('the library does not compile')

    def tu(headers, fn, std_first, std_last, own=0):
        algs_ = []
        for h in headers:
            for a in HEADERS[h]:
                if a not in algs_:
                    algs_.append(a)
        rng.shuffle(algs_)
        algs_ = algs_[:5]
        out = ''.join('#include <%s>\n' % h for h in std_first)
        out += ''.join('#include <%s>\n' % h for h in headers)
        out += ''.join('#include <%s>\n' % h for h in std_last)
        if own:
            # an unnamed namespace would hide nothing of the library's: these are the program's own, global names
            out += own_names(rng, own)
        if any(a not in ('fixed', 'names', 'encode') for a in algs_):
            out += 'using namespace cthash::literals;\n'
        checks = ' '.join('if (!(%s)) return %d;' % (snippet(rng, a), i + 1) for i, a in enumerate(algs_))
        return out + 'int %s() { %s return 0; }\n' % (fn, checks)

    cases = []
    for cfg in cfgs:
        for h in HEADERS:  # each on its own, alone and twice
            cases.append((cfg, [tu([h], 'f0', [], [])], [h]))
            cases.append((cfg, [tu([h, h], 'f0', [], ['string']), tu([h], 'f1', [], [])], [h, h]))
    hs = list(HEADERS)
    for i in range(160 if c.thorough else 36):
        cfg = cfgs[i % len(cfgs)]
        n = rng.choice([1, 2, 2, 3, 3])
        tus, used = [], []
        for j in range(n):
            sel = rng.sample(hs, rng.choice([1, 2, 2, 3, 5]))
            used += sel
            sf = rng.sample(STD[:-1], rng.choice([0, 0, 1, 2]))
            sl = rng.sample(STD[:-1], rng.choice([0, 0, 1, 2]))
            tus.append(tu(sel, 'f%d' % j, sf, sl))
        cases.append((cfg, tus, used))
    for i in range(40 if c.thorough else 12):
        # programs with names of their own, each in one unit
        cfg = cfgs[i % len(cfgs)]
        sel = ['cthash/cthash.hpp'] if i % 2 else rng.sample(hs, 3)
        cases.append((cfg, [tu(sel, 'f0', [], [], 110)], sel + ['own names']))
    for cfg in [x for x in cfgs if x.name in ('g++-14 -std=c++23 -O0', 'clang++-18 -std=c++20 -O0')]:
        s = tu(['cthash/cthash.hpp'], 'f0', [], []).replace('cthash/cthash.hpp', 'cthash-single-header.hpp')
        cases.append((cfg, [s, s.replace('f0()', 'f1()')], ['cthash-single-header.hpp']))

    def one(x, keep=False):
        k, (cfg, tus, used) = x
        d = os.path.join(c.dir, 'inc%d-%d' % (k, random.getrandbits(30)))
        os.mkdir(d)
        try:
            fs = []
            for i, t in enumerate(tus):
                fs.append('%s/t%d.cpp' % (d, i))
                open(fs[-1], 'w').write(t)
            fs.append('%s/main.cpp' % d)
            open(fs[-1], 'w').write(''.join('int f%d();\n' % i for i in range(len(tus))) + 'int main() { %s return 0; }\n' % ' '.join('if (int r = f%d()) return %d + r;' % (i, 10 * i) for i in range(len(tus))))
            cmd = cfg.cmd() + fs + ['-o', d + '/a']
            r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=dict(os.environ, TMPDIR=d))
            if r.returncode:
                if any(x in r.stderr for x in ('Killed', 'No space left', 'out of memory')):
                    raise CheckError(r.stderr[:1000])
                return 'compile', r.stderr
            r = subprocess.run([d + '/a'])
            return ('ok', '') if r.returncode == 0 else ('run', 'exit %d' % r.returncode)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    found = 0
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (k, (cfg, tus, used)), (st, text) in zip(enumerate(cases), ex.map(one, enumerate(cases))):
            m = merge(c, 'inclusion', 1, 1, [cfg.name, '%d translation units' % len(tus)])
            c.evaluations += 1
            note_case(c, m, cfg.name + '\n'.join(tus))
            if len(c.samples) < 6 and len(tus) > 1:
                c.samples.append(cfg.name + ': ' + ' || '.join(t.replace('\n', ' ')[:300] for t in tus))
            # a wrong digest alone isn't this property's matter; a header which isn't enough, or a link error is
            if st == 'compile' and found < 3:
                # reduce to the smallest failing set of units and headers
                cand = [t for t in tus if one((0, (cfg, [t.replace(t.split('int f')[1][0] + '()', '0()', 1)], [])))[0] == 'compile'][:1] or tus
                if len(cand) == 1:
                    cand = [re.sub(r'int f\d', 'int f0', cand[0])]
                res = [one((0, (cfg, cand, used))) for _ in range(2)]
                if any(r[0] != 'compile' for r in res):
                    cand, res = tus, [one((0, (cfg, tus, used)))]
                if res[0][0] != 'compile':
                    raise CheckError('not repeatable')
                # the same uses with the whole library and all of std included: is it the inclusion which matters?
                whole = [re.sub(r'#include <cthash[^>]*>\n', '', t) for t in cand]
                whole = ['#include <cthash/cthash.hpp>\n' + ''.join('#include <%s>\n' % s for s in STD[:-1]) + t for t in whole]
                ctl = one((0, (cfg, whole, used)))
                ok, cerr = c.control(cfg)
                if not ok:
                    raise CheckError('the library does not compile at all: ' + cerr[:2000])
                found += 1
                path = c.replay_path('inclusion-%d.cpp' % found)
                open(path, 'w').write('// %s\n' % ' '.join(cfg.cmd()) + '\n// ---- next translation unit ----\n'.join(cand) + '\n/*\n' + res[0][1][:20000] + '\n*/\n')
                c.violation(path, 'headers %s, %d units: %s%s' % (used, len(cand), [l for l in res[0][1].splitlines() if 'error' in l or 'multiple definition' in l or 'undefined' in l][:3], '' if ctl[0] == 'ok' else ' (fails with the whole library as well)'))


def register(check, simple_check, TAPE):
    @check('C07', 'Programs with %s cases each are generated: a case builds hashers, updates them with inputs of 26 forms, copies, finalizes, encodes, compares or selects encodings; the same function is evaluated as initializer of a constexpr variable and called at run time (through a volatile pointer, no optimization), and both results must be identical. Non-trivial: at least one byte of input; distinct by program text.' % 60,
           'compilers evaluate constant expressions correctly', 'limits of constant evaluation are raised by compiler options')
    def c07(c):
        n = 12 if c.thorough else 1
        ct_check(c, 'constexpr', [(GCC14, 3 * n), (CLANG, 2 * n), (GCC13, n), (CLANG20, 2 * n)])

    @check('C11', TAPE + ' Hexadecimal texts in both cases and mixed, of five character types, go through literals of all suffixes (generated programs) and constructors (generated values), and must give these bytes, and print as the same text in lower case. Non-trivial: at least one byte.')
    def c11(c):
        b = c.build([VALUE], LIGHT)
        if b:
            c.check([dict(bin=b['value'], props=['from_text', 'from_text_tagged'], cfg=LIGHT, scale=4)])
        if not c.violations:
            n = 4 if c.thorough else 1
            ct_check(c, 'literals', [(GCC14, 2 * n), (CLANG, n), (CLANG20, n)], ['literal', 'literal', 'literal', 'cmp'], strict=True)

    @check('C18', 'Files of generated sizes, contents and names are digested by the built checksum tool with every documented name, and compared with hashlib and own references; misspelt names, missing files, directories, missing arguments; files past 2^31 and 2^32 bytes; the example tool with generated arguments. Every case is counted as non-trivial, distinct by arguments and content.',
           'hashlib computes digests correctly')
    def c18(c):
        cli(c)

    def all_progs(cfg):
        return [hash_prog(extra=['-DCTH_KINDS=1', '-DCTH_ONESHOT=1']), ENCODE, VALUE, NAMES, TEXT, CHUNKS]

    @check('C19', TAPE + ' The same generated cases run against a build with the modular headers and against one with the single header; they differ if a minimal failing case of one passes in the other, or a use compiles in only one of them. Non-trivial: as in the underlying checks.')
    def c19(c):
        agreement(c, [Config('modular', opt='-O1'), Config('single header', opt='-O1', single=True)], all_progs, 1.0 if not c.thorough else 0.5, 'single header')
        if not c.violations:
            # the single header needs nothing else
            agreement(c, [Config('modular clang c++20', cxx='clang++-18', std='c++20', opt='-O1'), Config('single header clang c++20', cxx='clang++-18', std='c++20', opt='-O1', single=True)], lambda cfg: [NAMES, VALUE, TEXT, CHUNKS, ENCODE, hash_prog(extra=['-DCTH_KINDS=1', '-DCTH_ONESHOT=1'])], 0.4, 'single header')

    @check('C20', TAPE + ' The same generated cases run in builds by three compilers, two language levels, several optimization levels, with and without assertions, with signed and unsigned char; the builds differ if a minimal failing case of one passes in another, or a use compiles in only some of them. Non-trivial: as in the underlying checks.', 'only x86-64 with libstdc++ is available')
    def c20(c):
        v = [Config('g++-14 c++23 -O0, checked libstdc++', opt='-O0', flags=['-D_GLIBCXX_ASSERTIONS']),
             Config('g++-14 c++23 -O3 NDEBUG', opt='-O3', flags=['-DNDEBUG']),
             Config('g++-13 c++20 -O2', cxx='g++-13', std='c++20', opt='-O2'),
             Config('clang++-18 c++23 -O2', cxx='clang++-18', opt='-O2'),
             Config('clang++-18 c++20 -O1 unsigned char', cxx='clang++-18', std='c++20', opt='-O1', flags=['-funsigned-char', '-DNDEBUG'])]
        agreement(c, v, all_progs, {'hash': 0.4, 'encode': 0.3, 'value': 0.3, 'names': 0.3, 'text': 0.3, 'chunks': 0.3}, 'configurations')

    @check('C10', TAPE + ' All checks of the other properties run again with AddressSanitizer and UndefinedBehaviorSanitizer, assertions of the library and of libstdc++ on, inputs and outputs against inaccessible pages and in surroundings which must not change; under valgrind; and coverage-guided mutation of operation histories (libFuzzer). Any report, assertion, crash, hang or change outside the output is a failure. Non-trivial: as in the underlying checks.')
    def c10(c):
        san = Config('clang++-18 with address and undefined behavior sanitizers', cxx='clang++-18', opt='-O1', flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1', '-D_GLIBCXX_ASSERTIONS'])
        ps = [hash_prog(extra=['-DCTH_KINDS=1', '-DCTH_ONESHOT=1'], plain=False), ENCODE, VALUE, TEXT, NAMES, CHUNKS]
        if not c.usable([san], 'sanitizers'):
            san = Config('g++-14 with address and undefined behavior sanitizers', opt='-O1', flags=san.flags)
        b = c.build(ps, san)
        if c.violations:
            return
        c.log('built')
        env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:strict_string_checks=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}
        probe = subprocess.run([list(b.values())[0], '--list'], capture_output=True, text=True, env=dict(os.environ, **env))
        if probe.returncode:
            raise CheckError('sanitized programs can not run: ' + probe.stderr[:500])
        sc = {'hash': 0.5, 'encode': 0.2, 'value': 0.2, 'text': 0.2, 'names': 0.2, 'chunks': 0.3}
        c.check([dict(bin=x, cfg=san, env=env, scale=sc[n] * (1 if not c.thorough else 0.5)) for n, x in b.items()])
        if not c.violations and c.elapsed() < c.budget:
            memcheck(c)
        if not c.violations and 'clang' in san.cxx and c.elapsed() < c.budget:
            fuzz(c, 240 if c.thorough else 15)

    @check('C23', 'Programs are generated: one to three translation units which include public headers alone, twice, or in random order and mixed with standard ones, use what these headers offer, and are compiled and linked by several compilers and language levels. Every program is non-trivial, distinct by its text.')
    def c23(c):
        inclusion(c)


def memcheck(c):
    """uninitialized memory must not influence results"""
    cfg = Config('g++-14 -O1 -g for valgrind', opt='-O1', flags=['-g1'])
    b = c.build([hash_prog(extra=['-DCTH_KINDS=1']), CHUNKS, VALUE], cfg)
    if c.violations:
        return
    jobs = []
    for n, x in b.items():
        for s in range(4 if n == 'hash' else 2):
            jobs.append((n, x, s, 4 if n == 'hash' else 2))

    def one(j):
        n, x, s, of = j
        if c.elapsed() > c.budget:
            c.out_of_time('valgrind ' + n)
            return j, None, '', ''
        log = os.path.join(c.dir, 'vg-%s-%d-%%p.log' % (n, s))
        scale = {'hash': 0.02, 'chunks': 0.004, 'value': 0.002}[n] * (10 if c.thorough else 1)
        out = os.path.join(c.dir, 'vg-%s-%d.json' % (n, s))
        r = subprocess.run(['valgrind', '-q', '--log-file=' + log, '--error-exitcode=99', '--child-silent-after-fork=no', x, '--seed', str(c.seed), '--shard', '%d/%d' % (s, of), '--out', out, '--replay-out', out + '.r', '--scale', str(scale), '--cap', '300'], capture_output=True, text=True, errors='replace')
        logs = ''
        for f in os.listdir(c.dir):
            if f.startswith('vg-%s-%d-' % (n, s)) and f.endswith('.log'):
                logs += open(os.path.join(c.dir, f), errors='replace').read()
        return j, r, logs, out

    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, jobs))
    for (n, x, s, of), r, logs, out in res:
        if r is None:
            continue
        bad = [m for m in ('uninitialised', 'Invalid read', 'Invalid write', 'points to uninit', 'overlap') if m in logs]
        if bad:
            again = one((n, x, s, of))
            if any(m in again[2] for m in bad):
                path = c.replay_path('valgrind-%s.txt' % n)
                open(path, 'w').write('# valgrind %s --seed %d --shard %d/%d\n' % (n, c.seed, s, of) + logs[:100000])
                c.violation(path, 'valgrind: ' + logs[:800])
                return
        try:
            d = json.load(open(out, errors='replace'))
            with open(out + '.hashes') as f:
                hs = {int(l, 16) for l in f}
            c.collect(dict(prefix='valgrind / '), d, hs)
        except (OSError, ValueError):
            c.notes.append('valgrind run of %s gave no result: %s' % (n, (r.stderr or logs)[:300]))


def fuzz(c, seconds):
    """coverage-guided search over operation histories"""
    flags = ['-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize-recover=all', '-g1']
    cfg = Config('clang++-18 libFuzzer', cxx='clang++-18', opt='-O1', flags=flags)
    units = [Unit('main_hash.cpp', '-DFUZZER'), REF] + algs(FAMS, ['-DCTH_KINDS=1', '-DCTH_ONESHOT=1'])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda u: c._compile(u, cfg), units))
    if any(o is None for o, _ in res):
        c.notes.append('fuzz target does not compile')
        return
    b = os.path.join(c.dir, 'fuzzer')
    r = subprocess.run(['clang++-18', '-fsanitize=address,undefined,fuzzer', *[o for o, _ in res], '-lcrypto', '-o', b], capture_output=True, text=True)
    if r.returncode:
        raise CheckError('link of fuzz target: ' + r.stderr[:1000])
    rng = random.Random('fuzz %d' % c.seed)

    def one(i):
        corpus = os.path.join(c.dir, 'corpus%d' % i)
        os.mkdir(corpus)
        for k in range(20 if i % 2 else 0):
            open('%s/%d' % (corpus, k), 'wb').write(random.Random('%d %d %d' % (c.seed, i, k)).randbytes(rng.randrange(10, 400)))
        art = os.path.join(c.dir, 'crash%d-' % i)
        return i, art, subprocess.run([b, corpus, '-seed=%d' % (c.seed * 100 + i + 1), '-max_total_time=%d' % seconds, '-max_len=600', '-artifact_prefix=' + art, '-print_final_stats=1', '-timeout=60', '-rss_limit_mb=3000', '-detect_leaks=0'], capture_output=True, text=True, errors='replace', cwd=c.dir)
    k = merge(c, 'libFuzzer', 0, 0, [])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for i, art, r in ex.map(one, range(JOBS)):
            m = re.search(r'stat::number_of_executed_units:\s*(\d+)', r.stderr)
            n = int(m.group(1)) if m else 0
            u = re.search(r'stat::new_units_added:\s*(\d+)', r.stderr)
            k['planned'] += n
            k['evaluations'] += n
            k['labels']['inputs with new coverage'] = k['labels'].get('inputs with new coverage', 0) + (int(u.group(1)) if u else 0)
            c.evaluations += n
            crashes = [f for f in os.listdir(c.dir) if f.startswith('crash%d-' % i) and not f.startswith('crash%d-slow' % i) and 'oom' not in f]
            if crashes and not c.violations:
                f = os.path.join(c.dir, crashes[0])
                reps = [subprocess.run([b, f], capture_output=True, text=True, errors='replace') for _ in range(3)]
                if all(x.returncode for x in reps):
                    path = c.replay_path('fuzz-%d.bin' % i)
                    shutil.copy(f, path)
                    open(path + '.txt', 'w').write(reps[0].stderr)
                    t = [l for l in reps[0].stderr.splitlines() if 'FAILED' in l or 'ERROR' in l or 'runtime error' in l or 'assert' in l]
                    c.violation(path, 'fuzzing: ' + ' '.join(t)[:800])
