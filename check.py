#!/usr/bin/env python3
"""Driver of the stenos monitors.

  check.py <property> [--tier quick|thorough] [--seed N]    run the check of a property
  check.py --replay <file>                                  re-execute one recorded violation
  check.py --list

Builds the library and the harnesses from /repo's working tree into /verif/build (ignored by git), runs the units of the
property (tools/units.py) in parallel, merges what the monitors observed into evidence/<property>.json.

Exit 0: held on everything executed.  Exit 1 + VIOLATION line: violated.  Exit 2: the check itself failed or was inconclusive.
"""
import sys, os, json, glob, hashlib, subprocess, threading, time, re, shutil, signal, queue

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import units as U

NCPU = min(8, os.cpu_count() or 8)
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------------ build
def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def repo_sources():
    return [f for f in glob.glob(REPO + '/stenos/**/*', recursive=True) if os.path.isfile(f) and not f.endswith('/stenos_config.h')]


def gen_config():
    d = os.path.join(BUILD, 'gen', 'stenos')
    os.makedirs(d, exist_ok=True)
    with open(REPO + '/stenos_config.h.in') as f:
        t = f.read()
    ver = '0.2'
    m = re.search(r'set\s*\(\s*STENOS_VERSION\s+"?([0-9.]+)', open(REPO + '/CMakeLists.txt').read()) if os.path.exists(REPO + '/CMakeLists.txt') else None
    if m:
        ver = m.group(1)
    maj, mino = (ver.split('.') + ['0'])[:2]
    t = re.sub(r'@[A-Za-z_]*MAJOR@', maj, t)
    t = re.sub(r'@[A-Za-z_]*MINOR@', mino, t)
    t = re.sub(r'@[A-Za-z_]*VERSION@', ver, t)
    t = re.sub(r'@[A-Za-z_]+@', '0', t)
    t = re.sub(r'#cmakedefine\s+(\w+).*', r'/* \1 */', t)
    for p in (os.path.join(d, 'stenos_config.h'), os.path.join(BUILD, 'gen', 'stenos_config.h')):
        if not os.path.exists(p) or open(p).read() != t:
            with open(p + '.%d' % os.getpid(), 'w') as f:
                f.write(t)
            os.rename(p + '.%d' % os.getpid(), p)


COMMON = ['-w', '-g1', '-DNDEBUG', '-DSTENOS_STATIC', '-fno-omit-frame-pointer']
INC = lambda: ['-I' + REPO, '-I' + REPO + '/stenos', '-I' + os.path.join(BUILD, 'gen'), '-I' + os.path.join(BUILD, 'gen', 'stenos'), '-I' + os.path.join(HERE, 'harness')]
SAN = ['-fsanitize=address,undefined', '-fsanitize=float-cast-overflow', '-fno-sanitize-recover=all']
VARIANTS = {
    # name: (library flags, harness flags)
    'native': (['-O2', '-march=native'], ['-O2', '-march=native']),
    'avx2': (['-O2', '-mavx2', '-mbmi', '-mbmi2'], ['-O2']),
    'sse41': (['-O2', '-msse4.1'], ['-O2']),
    'generic': (['-O2'], ['-O2']),
    'asan': (['-O1', '-march=native'] + SAN, ['-O1', '-march=native'] + SAN),
    'asan-o2': (['-O2', '-march=native'] + SAN, ['-O1', '-march=native'] + SAN),
    'asan-sse41': (['-O1', '-msse4.1'] + SAN, ['-O1'] + SAN),
    'asan-generic': (['-O1'] + SAN, ['-O1'] + SAN),
    'tsan': (['-O1', '-march=native', '-fsanitize=thread'], ['-O1', '-march=native', '-fsanitize=thread']),
    'valgrind': (['-O1', '-mavx2'], ['-O1', '-mavx2']),
    'fuzz': (['-O1', '-march=native', '-fsanitize=fuzzer-no-link'] + SAN, ['-O1', '-march=native', '-fsanitize=fuzzer-no-link'] + SAN),
}
CXX = {'fuzz': 'clang++'}


def FUZZER():
    return subprocess.run(['clang++', '-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a'], stdout=subprocess.PIPE).stdout.decode().strip()

# run-time detection disabled in a full build
_SHIM = ['-O2', '-march=native', '-I' + os.path.join(HERE, 'harness', 'shim')]
VARIANTS['no-avx2'] = (_SHIM + ['-DVH_HIDE_AVX2'], ['-O2'])
VARIANTS['no-bmi2'] = (_SHIM + ['-DVH_HIDE_BMI2'], ['-O2'])
VARIANTS['no-sse41'] = (_SHIM + ['-DVH_HIDE_AVX2', '-DVH_HIDE_BMI2', '-DVH_HIDE_SSE41'], ['-O2'])
VARIANTS['no-simd'] = (_SHIM + ['-DVH_HIDE_AVX2', '-DVH_HIDE_BMI2', '-DVH_HIDE_SSE41', '-DVH_HIDE_SSE2'], ['-O2'])


class Builder:
    def __init__(self):
        os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
        os.makedirs(os.path.join(BUILD, 'bin'), exist_ok=True)
        gen_config()
        self.lib_hash = _hash_files(repo_sources())
        self.har_hash = _hash_files(glob.glob(HERE + '/harness/*.hpp') + glob.glob(HERE + '/harness/shim/*'))
        self.libsrc = sorted(set(glob.glob(REPO + '/stenos/**/*.cpp', recursive=True)))
        if not self.libsrc:
            raise CheckError('no sources in %s/stenos' % REPO)

    def obj(self, src, flags, salt):
        key = hashlib.sha256((self.lib_hash + salt + _hash_files([src]) + ' '.join(flags)).encode()).hexdigest()[:24]
        return os.path.join(BUILD, 'obj', os.path.basename(src) + '-' + key + '.o')

    def probe(self, names):
        """Compile small documented uses of the headers (harness/probe); those that do not compile are violations of their own, and the
        harnesses are compiled without them.  Nothing is concluded when the control probe does not compile either."""
        self.broken = {}
        if not names:
            return
        res = {}

        def one(n):
            src = os.path.join(HERE, 'harness', 'probe', n + '.cpp')
            fl = ['-std=c++17'] + COMMON + INC()
            o = self.obj(src, fl, 'probe') + 'k'
            if os.path.exists(o):
                res[n] = None
                return
            r = subprocess.run(['g++'] + fl + ['-fsyntax-only', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            res[n] = None
            if r.returncode:
                e = [l for l in r.stdout.decode(errors='replace').splitlines() if 'error' in l]
                res[n] = (e or ['compiler failure'])[0]
            else:
                open(o, 'w').close()
        th = [threading.Thread(target=one, args=(n,)) for n in names + ['control']]
        [t.start() for t in th]
        [t.join() for t in th]
        if res.pop('control'):
            raise CheckError('the control probe does not compile')
        self.broken = {n: e for n, e in res.items() if e}

    def build(self, wanted):
        """wanted: set of (harness, variant). Returns {(harness,variant): path}."""
        jobs, links = {}, {}
        self.probe(sorted({p for har, _ in wanted for p in U.HARNESS.get(har, {}).get('probes', [])}))
        for har, var in sorted(wanted):
            lf, hf = VARIANTS[var.split('+')[0]]
            cxx = CXX.get(var, 'g++')
            extra = []
            if '+shared' in var:
                extra = ['-fPIC', '-fvisibility=hidden', '-DVH_SHARED']
            objs = []
            spec = U.HARNESS.get(har, {})
            std = spec.get('std', '-std=c++17')
            if not spec.get('nolib'):
                for s in self.libsrc:
                    fl = ['-std=c++14'] + COMMON + lf + extra + INC()
                    o = self.obj(s, fl, cxx + 'lib' + (self.har_hash if any('shim' in f for f in fl) else ''))
                    jobs[o] = [cxx] + fl + ['-c', s]
                    objs.append(o)
            for s in [os.path.join(HERE, 'harness', x) for x in spec.get('src', [har + '.cpp'])]:
                fl = [std] + COMMON + hf + extra + INC() + spec.get('flags', []) + ['-DNO_' + p.upper() for p in spec.get('probes', []) if p in self.broken]
                cc = cxx
                if s.endswith('.c'):
                    cc, fl = 'gcc', [f for f in fl if f != std] + ['-std=c99']
                o = self.obj(s, fl, cc + 'har' + self.har_hash)
                jobs[o] = [cc] + fl + ['-c', s]
                objs.append(o)
            h = hashlib.sha256(('\n'.join(objs) + str(spec)).encode()).hexdigest()[:16]
            out = os.path.join(BUILD, 'bin', '%s-%s-%s' % (har, var, h)) + ('.so' if '+shared' in var else '')
            link = [cxx] + (['-shared', '-Wl,-Bsymbolic'] if '+shared' in var else []) + lf + objs + [FUZZER() if x == '{FUZZER}' else x for x in spec.get('link', [])] + ['-lzstd', '-lpthread', '-ldl']
            links[(har, var)] = (out, link)
        todo = [(o, c) for o, c in jobs.items() if not os.path.exists(o)]
        # biggest first
        todo.sort(key=lambda x: -os.path.getsize(x[1][-1]) * (3 if any('sanitize' in f for f in x[1]) else 1))
        self._run_all([(o, c) for o, c in todo])
        self._run_all([(o, c) for o, c in links.values() if not os.path.exists(o)])
        return {k: v[0] for k, v in links.items()}

    def _run_all(self, cmds):
        errs = []
        q = queue.Queue()
        for c in cmds:
            q.put(c)

        def work():
            while not errs:
                try:
                    out, cmd = q.get_nowait()
                except queue.Empty:
                    return
                tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
                r = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    errs.append(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-4000:])
                else:
                    os.rename(tmp, out)
        th = [threading.Thread(target=work) for _ in range(NCPU)]
        [t.start() for t in th]
        [t.join() for t in th]
        if errs:
            raise CheckError('build failed:\n' + errs[0])


# ------------------------------------------------------------------------------------------------ run
ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'exitcode=99:abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=12000:handle_abort=0:detect_odr_violation=0'
ENV['UBSAN_OPTIONS'] = 'exitcode=99:print_stacktrace=1:halt_on_error=1'
ENV['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:second_deadlock_stack=1:history_size=4'
ENV['LSAN_OPTIONS'] = 'exitcode=99'
ENV.pop('LD_PRELOAD', None)


def classify_stderr(txt):
    """Key of a sanitizer/valgrind/abort report, stable under line shifts."""
    kind = None
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', txt)
    if m:
        kind = 'asan:' + (m.group(2) if m.group(1) == 'AddressSanitizer' else 'leak')
    m2 = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', txt)
    if not kind and m2:
        kind = 'tsan:' + m2.group(1).replace(' ', '-')
    m3 = re.search(r'runtime error: (.*)', txt)
    if not kind and m3:
        kind = 'ubsan:' + re.sub(r'[0-9a-fx]{3,}|\d+', 'N', m3.group(1))[:60].strip().replace(' ', '-')
    if not kind and 'About to create a dangling reference' in txt:
        kind = 'abort:dangling'
    if not kind and 'terminate called' in txt:
        kind = 'terminate'
    m4 = re.search(r'==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Syscall param|Invalid free|Mismatched)', txt)
    if not kind and m4:
        kind = 'valgrind:' + m4.group(1).replace(' ', '-')
    fn = ''
    for l in txt.splitlines():
        m = re.search(r'(?:#\d+ 0x[0-9a-f]+ in|(?:at|by) 0x[0-9A-F]+:) (.+?) (?:\(|/|<)', l)
        if m and ('/stenos/' in l or 'stenos' in m.group(1)):
            fn = re.sub(r'[<(].*', '', m.group(1))
            break
    return kind, fn


class Runner:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viols = []   # (key, msg, replay dict)
        self.errors = []
        self.lock = threading.Lock()
        self.results = []
        self.logdir = os.path.join(BUILD, 'run', '%s-%d' % (pid, os.getpid()))
        os.makedirs(self.logdir, exist_ok=True)
        self.free = NCPU
        self.cond = threading.Condition()

    def cmd(self, unit, binary, shard, out, only=None):
        n = unit['cases_' + self.tier]
        c = list(unit.get('wrap', [])) + [binary, '--seed', str(self.seed), '--shard', str(shard), '--nshards', str(unit['shards']), '--cases', str(n), '--tier', self.tier, '--out', out]
        for k, v in unit.get('args', {}).items():
            c += ['--' + k, str(v).replace('{HERE}', HERE).replace('{BUILD}', BUILD).replace('{SCRATCH}', self.logdir)]
        for k, (har, var) in unit.get('libs', {}).items():
            c += ['--' + k, self.paths[(har, var)]]
        if only is not None:
            c += ['--only-case', str(only)]
        return c

    def execute(self, cmd, unit, out):
        env = dict(ENV)
        for k, v in unit.get('env', {}).items():
            env[k] = v
        for f in (out, out + '.cur'):
            if os.path.exists(f):
                os.unlink(f)
        err = out + '.err'
        with open(err, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=self.logdir, start_new_session=True)
            try:
                rc = p.wait(timeout=unit.get('timeout_' + self.tier, 780 if self.tier == 'quick' else 5400))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        with open(err, 'rb') as f:
            txt = f.read().decode(errors='replace')
        cur = ''
        if os.path.exists(out + '.cur'):
            with open(out + '.cur', 'rb') as f:
                cur = f.read().split(b'\0')[0].decode(errors='replace')
        return rc, txt, cur

    def replay(self, unit, shard, case, key, msg, txt=''):
        return dict(property=self.pid, unit=unit['name'], tier=self.tier, seed=self.seed, shard=shard, case=case, key=key, message=msg, report=txt[-12000:])

    def shard(self, unit, shard, binary):
        w = min(NCPU, unit.get('weight', 1))
        with self.cond:
            while self.free < w:
                self.cond.wait()
            self.free -= w
        try:
            self._shard(unit, shard, binary)
        except Exception as e:   # noqa
            with self.lock:
                self.errors.append('%s/%d: %r' % (unit['name'], shard, e))
        finally:
            with self.cond:
                self.free += w
                self.cond.notify_all()

    def _shard(self, unit, shard, binary):
        out = os.path.join(self.logdir, '%s-%d.json' % (unit['name'], shard))
        t = time.time()
        hung = 0
        while True:
            rc, txt, cur = self.execute(self.cmd(unit, binary, shard, out), unit, out)
            if rc == 98 and not hung:
                hung = 1
                log('no progress in', unit['name'], shard, '- running it once more')
                continue
            break
        case = None
        m = re.match(r'(\d+) ', cur)
        if m:
            case = int(m.group(1))
        dt = time.time() - t
        with self.lock:
            if rc == 0 and os.path.exists(out):
                with open(out) as f:
                    d = json.load(f)
                d['unit'], d['shard'], d['seconds'] = unit['name'], shard, dt
                self.results.append(d)
                for v in d['violations']:
                    self.viols.append((v['key'], v['msg'], self.replay(unit, shard, v['case'], v['key'], v['msg'])))
                return
            kind, fn = classify_stderr(txt)
            if rc == 97:
                self.viols.append(('deadlock', 'every thread asleep: ' + cur, self.replay(unit, shard, case, 'deadlock', cur, txt)))
            elif rc == 98:
                self.viols.append(('hang', 'no progress, twice: ' + cur, self.replay(unit, shard, case, 'hang', cur, txt)))
            elif rc == 99 and kind:
                self.viols.append((kind + ':' + fn, cur, self.replay(unit, shard, case, kind + ':' + fn, cur, txt)))
            elif isinstance(rc, int) and (rc < 0) and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL, signal.SIGTRAP):
                key = 'crash:' + signal.Signals(-rc).name + (':' + kind if kind else '')
                self.viols.append((key, cur, self.replay(unit, shard, case, key, cur, txt)))
            else:
                self.errors.append('%s shard %d: exit %s, case %s: %s' % (unit['name'], shard, rc, cur, txt[-1500:]))

    def run(self, units, paths):
        self.paths = paths
        th = []
        order = sorted(units, key=lambda u: -u.get('weight', 1))
        for u in order:
            for s in range(u['shards']):
                t = threading.Thread(target=self.shard, args=(u, s, paths[(u['harness'], u['variant'])]))
                th.append(t)
        [t.start() for t in th]
        [t.join() for t in th]


# ------------------------------------------------------------------------------------------------ findings
def load_findings():
    r = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) ?(.*)', l)
            if m:
                r.append(m.groups())
    return r


def check(pid, tier, seed):
    units = U.units(pid, tier)
    if not units:
        raise CheckError('unknown property ' + pid)
    b = Builder()
    wanted = {(u['harness'], u['variant']) for u in units}
    for u in units:
        wanted |= set(map(tuple, u.get('libs', {}).values()))
    paths = b.build(wanted)
    log('built', len(paths), 'binaries')
    tb = time.time()
    r = Runner(pid, tier, seed)
    for n, e in sorted(b.broken.items()):
        r.viols.append(('compile:' + n, 'the documented use of harness/probe/%s.cpp does not compile: %s' % (n, e), dict(property=pid, probe=n, key='compile:' + n, message=e)))
    r.run(units, paths)
    log('executed %d units in %.1f s' % (len(units), time.time() - tb))

    known = [(k, d) for p, k, d in load_findings() if p == pid]
    new, seen = [], {}
    for key, msg, rep in r.viols:
        for k, d in known:
            if key == k:
                seen[k] = d
                break
        else:
            new.append((key, msg, rep))
    # evidence
    counters, distinct, samples, ev, nv = {}, set(), [], 0, 0
    per_unit = {}
    for d in r.results:
        ev += d['evaluations']
        nv += d['violation_count']
        distinct.update(d['unit'].split('@')[0] + h for h in d['distinct'])
        for k, v in d['counters'].items():
            if k.startswith('max:'):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        pu = per_unit.setdefault(d['unit'], dict(evaluations=0, cpu_s=0.0))
        pu['evaluations'] += d['evaluations']
        pu['cpu_s'] = round(pu['cpu_s'] + d['seconds'], 1)
        for s in d['samples'][:2]:
            if len(samples) < 12:
                samples.append(d['unit'] + ': ' + s)
    for u in units:
        per_unit.setdefault(u['name'], dict(evaluations=0, cpu_s=0.0)).update(harness=u['harness'], variant=u['variant'])
    gaps = [k for k in U.EXPECT.get(pid, []) if not counters.get(k)]
    evd = dict(property=pid, tier=tier, seed=seed, level=U.LEVEL.get(pid, 'exploration'),
               coverage=dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=U.RULE[pid], samples=samples, observed=dict(sorted(counters.items())),
                             units=per_unit, expected_but_unseen=gaps, known_findings_seen=sorted(seen)),
               assumptions=U.ASSUME.get(pid, []) + U.ASSUME_ALL, wall_s=round(time.time() - T0, 2), violations=len(new))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evd, f, indent=1)
        f.write('\n')
    for k, d in seen.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, d or k))
    if new:
        rd = os.path.join(BUILD, 'replay')
        os.makedirs(rd, exist_ok=True)
        done = set()
        for key, msg, rep in new:
            if key in done:
                continue
            done.add(key)
            p = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(p, 'w') as f:
                json.dump(rep, f, indent=1)
            print('  %s: %s' % (key, msg[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
            if len(done) >= 5:
                break
        return 1
    if r.errors:
        for e in r.errors[:3]:
            log('ERROR', e)
        return 2
    if ev == 0:
        log('ERROR nothing was executed')
        return 2
    shutil.rmtree(r.logdir, ignore_errors=True)
    print('OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs%s' % (pid, tier, ev, len(distinct), time.time() - T0, (' unseen=' + ','.join(gaps)) if gaps else ''))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    b = Builder()
    if 'probe' in d:
        b.probe([d['probe']])
        print(b.broken)
        return 1 if b.broken else 0
    units = [u for u in U.units(d['property'], d['tier']) if u['name'] == d['unit']]
    u = units[0]
    paths = b.build({(u['harness'], u['variant'])} | set(map(tuple, u.get('libs', {}).values())))
    r = Runner(d['property'], d['tier'], d['seed'])
    r.paths = paths
    out = os.path.join(r.logdir, 'replay.json')
    rc, txt, cur = r.execute(r.cmd(u, paths[(u['harness'], u['variant'])], d['shard'], out, d['case']), u, out)
    print('exit', rc, 'at', cur)
    print(txt[-8000:])
    bad = rc != 0
    if os.path.exists(out):
        v = json.load(open(out))['violations']
        for x in v:
            print('violation', x)
        bad = bad or bool(v)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a or a[0] in ('-h', '--help'):
        print(__doc__)
        return 2
    if a[0] == '--list':
        print('\n'.join(sorted(U.TABLE)))
        return 0
    if a[0] == '--replay':
        return replay(a[1])
    if a[0] == '--setup':
        # warm nothing: checks rebuild from the current tree; only verify the toolchain
        b = Builder()
        print('sources:', len(b.libsrc), 'hash', b.lib_hash[:12])
        return 0
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    i = 1
    while i < len(a):
        if a[i] == '--tier':
            tier = a[i + 1]
            i += 1
        elif a[i] == '--seed':
            seed = int(a[i + 1])
            i += 1
        i += 1
    return check(pid, tier, seed)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except CheckError as e:
        log('ERROR', e)
        sys.exit(2)
