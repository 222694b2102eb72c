"""Shared machinery of the checks: building drivers, running TLC, judging traces."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 8)
TIER = os.environ.get('VERIF_TIER', 'quick')
CACHE = ['C%d' % i for i in range(20, 29)] + ['C31']
BOTH = ['C32']
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
T0 = time.time()


class CheckError(Exception):
    """The check itself failed: no verdict."""


class Violation(Exception):
    def __init__(self, replay, what):
        super().__init__(what)
        self.replay = replay
        self.what = what


def log(*a):
    print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
CFLAGS = ['-std=c++17', '-g', '-O1', '-fwrapv', '-Wno-everything', '-isystem', '/usr/include/android', '-I' + REPO,
          '-I' + os.path.join(VERIF, 'harness')]
ABSL = ['strings', 'strings_internal', 'time', 'time_zone', 'civil_time', 'int128', 'base', 'spinlock_wait',
        'throw_delegate', 'raw_logging_internal', 'log_severity', 'raw_hash_set', 'hash', 'city', 'low_level_hash',
        'bad_optional_access', 'bad_variant_access', 'synchronization', 'str_format_internal']
BORING = '/usr/lib/x86_64-linux-gnu/android'


ARGS = {'jwtdrv': [os.path.join(VERIF, 'harness', 'keys.json')]}
DRIVERS = {'cachedrv': (['cachedrv.cc'], False), 'jwtdrv': (['jwtdrv.cc'], True)}


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def status_names(d):
    """The enumerators of Status, for the driver to name."""
    text = open(REPO + '/jwt_verify_lib/status.h').read()
    text = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', text, flags=re.S)
    m = re.search(r'enum\s+class\s+Status\b[^{]*\{(.*?)\}', text, re.S)
    if not m:
        raise CheckError('no enum class Status in status.h')
    names = [re.split(r'[\s=]', x.strip())[0] for x in m.group(1).split(',') if x.strip()]
    with open(os.path.join(d, 'status_names.h'), 'w') as f:
        f.write('struct StatusName { int value; const char* name; };\nstatic const StatusName kStatusNames[] = {\n')
        for n in names:
            f.write('  {static_cast<int>(::google::jwt_verify::Status::%s), "%s"},\n' % (n, n))
        f.write('};\nstatic const int kStatusCount = %d;\n' % len(names))


def compile_objs(srcs, flags, outdir):
    def one(s):
        o = os.path.join(outdir, os.path.basename(s) + '.o')
        r = run([CXX] + flags + ['-c', s, '-o', o])
        if r.returncode != 0:
            raise CheckError('compiling %s failed:\n%s' % (s, r.stdout[-3000:]))
        return o
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, srcs))


# Reading or writing freed memory or beyond its end must not pass unnoticed:
# the drivers stop at once, which is reported as a call without an answer.
SANITIZE = {'': [], 'a': ['-fsanitize=address,bounds,return,unreachable', '-fno-sanitize-recover=all'],
            't': ['-fsanitize=thread']}
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_container_overflow=0:alloc_dealloc_mismatch=0:abort_on_error=0:exitcode=71',
           'TSAN_OPTIONS': 'halt_on_error=1:exitcode=72:report_thread_leaks=0:report_signal_unsafe=0'}


def build(name, sources, with_lib, san='a'):
    """Builds harness/<sources> with /repo's current sources; returns the binary."""
    repo_files = (glob.glob(REPO + '/src/*') + glob.glob(REPO + '/jwt_verify_lib/*') +
                  glob.glob(REPO + '/simple_lru_cache/*'))
    mine = glob.glob(os.path.join(VERIF, 'harness', '*'))
    key = tree_hash([f for f in repo_files + mine + [os.path.abspath(__file__)] if os.path.isfile(f)])
    d = os.path.join(BUILD, key)
    out = os.path.join(d, san, name)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = tempfile.mkdtemp(dir=d)
    try:
        t = time.time()
        srcs = [os.path.join(VERIF, 'harness', s) for s in sources]
        if with_lib:
            srcs += sorted(glob.glob(REPO + '/src/*.cc'))
        if with_lib:
            status_names(tmp)
        objs = compile_objs(srcs, CFLAGS + SANITIZE[san] + ['-I' + tmp], tmp)
        libs = [BORING + '/libcrypto.so', '-Wl,-rpath,' + BORING] if with_lib else []
        if with_lib:
            libs.append('-lprotobuf')
        libs += ['-labsl_' + a for a in ABSL] + ['-lpthread', '-rdynamic']
        r = run([CXX] + SANITIZE[san] + objs + ['-o', out + '.tmp'] + libs)
        if r.returncode != 0:
            raise CheckError('linking %s failed:\n%s' % (name, r.stdout[-3000:]))
        os.rename(out + '.tmp', out)
        log('built', name, 'in %.1fs' % (time.time() - t))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune(key)
    return out


def prune(keep):
    ds = sorted((d for d in glob.glob(BUILD + '/*') if os.path.isdir(d) and os.path.basename(d) != keep),
                key=os.path.getmtime)
    for d in ds[:-6]:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- TLC
def tlc(cfg, module, env=None, workers=1, timeout=800, heap='2g', fast=True, extra=()):
    meta = tempfile.mkdtemp(prefix='tlc', dir=WORK)
    cmd = ['java', '-Xmx' + heap, '-Xss512m']
    cmd += ['-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1'] if fast else ['-XX:+UseParallelGC']
    cmd += ['-Djava.io.tmpdir=' + meta, '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-config',
            os.path.join(SPEC, cfg) if not cfg.startswith('/') else cfg,
            '-workers', str(workers)] + list(extra) + [os.path.join(SPEC, module)]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = run(cmd, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired as x:
        raise CheckError('TLC timed out on %s %s' % (cfg, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


STATS = re.compile(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found')


def tlc_stats(out):
    m = None
    for m in STATS.finditer(out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


def model_check(cfg, module, workers=NPROC, timeout=800, heap='8g', extra=(), output=False):
    """Exhaustive model checking of the specification itself."""
    t = time.time()
    rc, out = tlc(cfg, module, workers=workers, timeout=timeout, heap=heap, fast=False, extra=extra)
    gen, dist = tlc_stats(out)
    if rc != 0 or 'No error has been found' not in out:
        raise CheckError('model checking %s failed (rc %d):\n%s' % (cfg, rc, out[-4000:]))
    log('TLC %s: %d transitions, %d distinct states, %.1fs' % (cfg, gen, dist, time.time() - t))
    r = dict(cfg=cfg, transitions=gen, states=dist)
    return (r, out) if output else r


# ---------------------------------------------------------------- traces
WORK = None


def workdir():
    global WORK
    WORK = tempfile.mkdtemp(prefix='vf', dir=os.environ.get('TMPDIR', '/tmp'))
    return WORK


def run_driver(binary, segments, name, timeout=240, env=None):
    """Runs one driver over the script segments.  Returns (trace path, failure):
    failure is None, or (kind, index of the segment in which it happened)."""
    sp = os.path.join(WORK, name + '.script')
    tp = os.path.join(WORK, name + '.trace')
    with open(sp, 'w') as f:
        for s in segments:
            for o in s:
                f.write(json.dumps(o) + '\n')
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    failure = None
    with open(sp) as fi, open(tp, 'w') as fo, open(tp + '.err', 'w') as fe:
        p = subprocess.Popen([binary] + ARGS.get(os.path.basename(binary), []), stdin=fi, stdout=fo, stderr=fe, env=e)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            failure = 'hang'
            rc = 0
    if rc == 97:
        raise CheckError('driver refused its script: ' + open(tp + '.err').read()[-1000:])
    if rc != 0:
        failure = 'crash (status %d): %s' % (rc, open(tp + '.err', errors='replace').read()[:1500].strip())
    return tp, failure


def read_trace(path, start_ops=('new',)):
    """Splits a trace into segments (lists of lines); incomplete last line dropped."""
    segs = []
    with open(path, encoding='ascii', errors='replace') as f:
        for line in f:
            if not line.endswith('}\n'):
                break
            op = line[7:line.index('"', 7)] if line.startswith('{"op":"') else ''
            if op in start_ops or not segs:
                segs.append([])
            segs[-1].append(line)
    return segs


def validate(path, module, cfg, lens, env=None, timeout=800):
    """TLC decides whether the trace is accepted. -> (accepted, number of lines matched, output)"""
    e = {'TRACE': path, 'LENS': lens}
    e.update(env or {})
    rc, out = tlc(cfg, module, env=e, workers=1, timeout=timeout, heap='3g', fast=True)
    gen, dist = tlc_stats(out)
    if rc == 0 and 'No error has been found' in out:
        return True, dist - 1, out
    if 'REJECT' in out and 'Postcondition' in out:
        return False, dist - 1, out
    raise CheckError('TLC failed on trace %s (rc %d):\n%s' % (path, rc, out[-3500:]))


def save_replay(prop, segments, trace_lines, out, note):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, '%s-%d' % (prop, int(time.time() * 1000) % 10**10))
    with open(base + '.script', 'w') as f:
        for s in segments:
            for o in s:
                f.write(json.dumps(o) + '\n')
    with open(base + '.trace', 'w') as f:
        f.writelines(trace_lines)
    with open(base + '.txt', 'w') as f:
        f.write(note + '\n')
        i = out.find('REJECT')
        f.write(out[max(0, i - 5):i + 6000] if i >= 0 else out[-3000:])
    return base + '.txt'


class Binding:
    """Drives the real code with script segments and has TLC judge the traces."""

    def __init__(self, prop, binary, module, cfg, lens, start_ops=('new',), env=None, tlc_env=None,
                 observe=None, mutate=None):
        self.prop, self.binary, self.module, self.cfg, self.lens = prop, binary, module, cfg, lens
        self.start_ops, self.env, self.tlc_env = start_ops, env, tlc_env
        self.events = 0
        self.traces = 0
        self.ops = {}
        self.sample = []
        self.observe, self.mutate = observe, mutate  # counting; making a wrong trace of a right one
        self.seen = {}
        self.wrong = []

    def judge(self, segments, label, shards=NPROC, timeout=800, driver_timeout=240):
        """Raises Violation when a rejected or unanswered call is confirmed."""
        t = time.time()
        segments = list(segments)
        if not segments:
            return
        n = max(1, min(shards, len(segments)))
        parts = [segments[i::n] for i in range(n)]
        def work(i):
            name = '%s-%s-%d' % (self.prop, label, i)
            tp, fail = run_driver(self.binary, parts[i], name, timeout=driver_timeout, env=self.env)
            segs = read_trace(tp, self.start_ops)
            if fail:
                return i, ('fail', fail, len(segs)), segs, None
            acc, matched, out = validate(tp, self.module, self.cfg, self.lens, self.tlc_env, timeout)
            return i, (None if acc else ('reject', matched, out)), segs, tp
        with cf.ThreadPoolExecutor(n) as ex:
            res = list(ex.map(work, range(n)))
        bad = []
        for i, verdict, segs, tp in res:
            if verdict is None:
                self.traces += len(segs)
                for s in segs:
                    self.events += len(s)
                    self.account(s)
                for f in (tp, tp[:-6] + '.script', tp + '.err'):
                    os.unlink(f)
            else:
                bad.append((i, verdict, segs))
        log('%s %s: %d shards, %d bad, %d events so far, %.1fs' % (self.prop, label, n, len(bad), self.events, time.time() - t))
        for i, verdict, segs in bad:
            self.confirm(parts[i], verdict, segs, label)
        # Not repeated, as with data races: what was recorded is proof enough,
        # unless the process was merely too slow or ended from outside.
        for i, verdict, segs in bad:
            lines = [x for s in segs for x in s]
            if verdict[0] == 'reject':
                raise Violation(save_replay(self.prop, parts[i], lines[:verdict[1] + 1], verdict[2],
                                            'rejected line %d (not repeated when run again)' % (verdict[1] + 1)),
                                lines[verdict[1]][:300] if verdict[1] < len(lines) else '?')
            if not (verdict[1] == 'hang' or 'status -9)' in verdict[1] or 'status -15)' in verdict[1]):
                raise Violation(save_replay(self.prop, parts[i], lines, '', 'the real code did not answer (not repeated '
                                            'when run again): ' + verdict[1]), 'no answer: ' + verdict[1][:200])
        if bad:
            raise CheckError('a rejection was not repeated: %r' % ([(v[0], str(v[1])[:300]) for _, v, _ in bad],))

    def account(self, seg):
        """Counts what an accepted segment contains; keeps samples."""
        want = len(self.wrong) < 6 and self.mutate
        for i, line in enumerate(seg):
            op = line[7:line.index('"', 7)]
            self.ops[op] = self.ops.get(op, 0) + 1
            e = json.loads(line) if (self.observe or want) else None
            if self.observe:
                for k in self.observe(e):
                    self.seen[k] = self.seen.get(k, 0) + 1
            if want:
                m = self.mutate(dict(e))
                if m is not None:
                    self.wrong.append((seg[:i], m))
                    want = False
                    if len(self.sample) < 2:
                        self.sample.append(json.loads(line))

    def corrupted(self):
        """Shows the binding: accepted traces with one field of the last event
        changed have to be rejected, at that event."""
        # A wrong trace may be one that the right code would give (on a tree
        # whose own answer was wrong in a way other properties judge), so a few
        # are tried and most have to be noticed.
        res = []
        for k, (pre, m) in enumerate(self.wrong):
            p = os.path.join(WORK, 'corrupt%d.trace' % k)
            with open(p, 'w') as f:
                f.writelines(pre)
                f.write(json.dumps(m) + '\n')
            acc, matched, out = validate(p, self.module, self.cfg, self.lens, self.tlc_env)
            res.append('accepted' if acc or matched != len(pre) else 'rejected')
        if res and res.count('rejected') * 2 < len(res):
            raise CheckError('corrupted traces were accepted: %s' % json.dumps([m for _, m in self.wrong])[:2000])
        return res

    def confirm(self, segments, verdict, segs, label):
        """Repeat the failing part alone; report when it fails again."""
        if verdict[0] == 'fail':
            k = max(0, min(len(segs) - 1, len(segments) - 1))
        else:
            matched = verdict[1]
            k = 0
            for k, s in enumerate(segs):
                if matched < len(s):
                    break
                matched -= len(s)
        # script segments and trace segments correspond, except that leading
        # clean-up lines of the next segment belong to the previous one
        for lo, hi in ((k, k + 1), (max(0, k - 1), k + 2), (0, len(segments))):
            sub = segments[lo:hi]
            tp, fail = run_driver(self.binary, sub, '%s-%s-confirm' % (self.prop, label), env=self.env)
            lines = open(tp, encoding='ascii', errors='replace').readlines()
            if fail:
                raise Violation(save_replay(self.prop, sub, lines, '', 'the real code did not answer: %s\n'
                                            'last line of the trace is the call that did not return' % fail),
                                'no answer: ' + fail[:200])
            acc, matched, out = validate(tp, self.module, self.cfg, self.lens, self.tlc_env)
            if not acc:
                what = lines[matched][:300] if matched < len(lines) else '?'
                raise Violation(save_replay(self.prop, sub, lines[:matched + 1], out,
                                            'rejected line %d: %s' % (matched + 1, what)), what)


# ---------------------------------------------------------------- ending
def emitted(out):
    res = []
    for line in out.splitlines():
        if line.startswith('"@C '):
            res.append(json.loads(json.loads(line)[3:]))
    return res


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> ...' of the committed file."""
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(line.strip())
    return out


def write_evidence(prop, coverage, assumptions, violations, level='model_checking'):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    e = dict(property=prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=level,
             coverage=coverage, assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=violations)
    tmp = os.path.join(d, prop + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
    os.rename(tmp, os.path.join(d, prop + '.json'))
