"""Driver: build guppy from /repo, enumerate a check's shards in crash-isolated
worker processes, gather violations, counts and samples, write the evidence.

A check is a module checks/<id>.py with

    LEVEL     'model_checking' | 'exploration' | 'fault_enumeration'
    RULE      how the cases are made (text for the evidence)
    ASSUME    list of assumptions
    def shards(tier): list of JSON-able shard descriptors
    def run(shard, ctx): enumerate every case of that shard

and run() brackets each case with `if ctx.case(desc): ...` (desc: any object, its
repr is only taken when needed).  The case number within the shard is written to a
shared page before the case runs, so when the code under test crashes or hangs the
parent still knows which case did it.  Enumeration is deterministic: a replay runs
the same shard and skips all other cases.
"""
import sys, os, json, time, subprocess, hashlib, shutil, struct, mmap, traceback, fcntl, signal, tempfile, re, itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
CFLAGS = "-g -O2 -fwrapv -Wall -UNDEBUG"
PY = '/opt/venv/bin/python'
HANG_S = float(os.environ.get('VERIF_HANG_S', '90'))
NPROC = int(os.environ.get('VERIF_NPROC', '8'))
MAXFAIL = 40          # distinct failing cases kept per shard


# ---------------------------------------------------------------- building

def _inputs():
    for top in ('src', 'guppy', 'setup.py', 'README.md'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            yield p
            continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            if '__pycache__' in ds:
                ds.remove('__pycache__')
            for f in sorted(fs):
                if not f.endswith(('.so', '.pyc')):
                    yield os.path.join(d, f)


def build(variant='plain'):
    """Stage /repo's current tree under .build/<hash> and compile it there."""
    h = hashlib.sha256((CFLAGS + variant).encode())
    files = list(_inputs())
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        with open(f, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    tag = h.hexdigest()[:20]
    dst = os.path.join(BUILD, variant + '-' + tag)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, 'ok')):
            os.utime(dst)
            return dst
        old = sorted((e for e in os.scandir(BUILD) if e.is_dir()), key=lambda e: e.stat().st_mtime)
        for e in old[:-6]:
            shutil.rmtree(e.path, ignore_errors=True)
        shutil.rmtree(dst, ignore_errors=True)
        for f in files:
            t = os.path.join(dst, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(f, t)
        env = dict(os.environ, CFLAGS=CFLAGS, HOME=os.environ.get('HOME', '/root'))
        if variant == 'asan':
            env['CFLAGS'] = CFLAGS + ' -fsanitize=address -fno-omit-frame-pointer'
            env['LDFLAGS'] = '-fsanitize=address'
        r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '--force', '--parallel', '4'],
                           cwd=dst, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-4000:])
            print('ERROR: /repo does not build')
            sys.exit(2)
        shutil.rmtree(os.path.join(dst, 'build'), ignore_errors=True)
        open(os.path.join(dst, 'ok'), 'w').close()
    return dst


# ---------------------------------------------------------------- worker side

class Ctx:
    def __init__(self, tier, seed, page, only=None):
        self.tier, self.seed, self.page, self.only = tier, seed, page, only
        self.index = -1
        self.desc = None
        self.fails = []
        self.counts = {}
        self.samples = []
        self.states = set()
        self.t0 = time.time()
        self.nsample = 0
        self.abort = False

    # -- enumeration
    def case(self, *desc):
        self.index += 1
        i = self.index
        if self.only is not None and i != self.only:
            return False
        self.desc = desc
        self.page[0:8] = struct.pack('q', i)
        if self.only is not None:
            print('replaying case %d: %s' % (i, short(desc, 3000)), flush=True)
        if i == self.nsample:
            self.nsample = max(1, self.nsample * 40)
            self.sample(desc)
        return True

    def sample(self, desc):
        if len(self.samples) < 4:
            self.samples.append(short(desc))

    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, key):
        """Record a distinct state/outcome (hashable); returns True when new."""
        k = hash(key) if not isinstance(key, int) else key
        if k in self.states:
            return False
        self.states.add(k)
        return True

    # -- verdicts
    def fail(self, msg, key=None):
        if len(self.fails) < MAXFAIL:
            self.fails.append(dict(index=self.index, case=short(self.desc, 1500),
                                   msg=short_text(msg, 3000), key=key))

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return cond

    def eq(self, got, want, what='', key=None):
        if got != want or type(got) is bool and type(want) is not bool:
            self.fail('%s: got %s, want %s' % (what, short(got, 800), short(want, 800)), key)
            return False
        return True

    def raises(self, exc, f, *a, **k):
        """f must raise exc (class or tuple); anything else is a failure."""
        try:
            r = f(*a, **k)
        except exc:
            return True
        except BaseException as e:
            self.fail('%s%r raised %r instead of %r' % (getattr(f, '__name__', f), a, e, exc))
            return False
        self.fail('%s%s returned %s instead of raising %r' % (getattr(f, '__name__', f), short(a), short(r), exc))
        return False

    @property
    def full(self):
        return len(self.fails) >= MAXFAIL

    def elapsed(self):
        return time.time() - self.t0


def short(o, n=400):
    try:
        s = o if isinstance(o, str) else repr(o)
    except Exception as e:
        s = '<unreprable %s: %r>' % (type(o).__name__, e)
    return short_text(s, n)


def short_text(s, n):
    return s if len(s) <= n else s[:n] + '...'


def load_check(pid):
    import importlib
    sys.path.insert(0, os.path.join(VERIF, 'lib'))
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    return importlib.import_module(pid)


def worker(argv):
    pid, dst, tier, seed, jobfile, pagefile, outfile, only = argv
    import faulthandler
    faulthandler.enable()
    sys.path.insert(0, dst)
    sys.setrecursionlimit(10000)
    with open(jobfile) as f:
        shard = json.load(f)
    fd = os.open(pagefile, os.O_RDWR)
    page = mmap.mmap(fd, 4096)
    ctx = Ctx(tier, int(seed), page, int(only) if only != '-' else None)
    err = None
    try:
        mod = load_check(pid)
        import guppy
        assert guppy.__file__.startswith(dst), guppy.__file__
        mod.run(shard, ctx)
    except Exception:
        # An exception no oracle expected: the code under test (or the harness) raised.
        err = traceback.format_exc()
        if ctx.index < 0:
            if dst not in err:      # nothing of the code under test was involved
                print(err)
                os._exit(3)
            ctx.case('setting up')
        ctx.fail('unexpected exception\n' + err, key='exception')
    out = dict(fails=ctx.fails, counts=ctx.counts, samples=ctx.samples, cases=ctx.index + 1,
               states=list(ctx.states)[:3000000], err=err)
    with open(outfile + '.tmp', 'w') as f:
        json.dump(out, f)
    os.rename(outfile + '.tmp', outfile)
    sys.stdout.flush()
    os._exit(0)     # no interpreter teardown: hidden/odd objects are not the subject here


# ---------------------------------------------------------------- parent side

class Job:
    def __init__(self, pid, dst, tier, seed, no, shard, tmp, only='-', env=None):
        self.no, self.shard = no, shard
        base = os.path.join(tmp, 's%d' % no)
        self.page, self.out, self.log = base + '.page', base + '.out', base + '.log'
        with open(base + '.job', 'w') as f:
            json.dump(shard, f)
        with open(self.page, 'wb') as f:
            f.write(struct.pack('q', -1) + b'\0' * 4088)
        with open(self.log, 'wb') as lg:
            e = dict(os.environ)
            e.update(env or {})
            e['VERIF_SHARD_TMP'] = tmp
            self.p = subprocess.Popen([PY, os.path.join(VERIF, 'lib', 'mc.py'), '--worker', pid, dst, tier, str(seed),
                                       base + '.job', self.page, self.out, str(only)],
                                      stdout=lg, stderr=lg, stdin=subprocess.DEVNULL, cwd=tmp, env=e,
                                      start_new_session=True)
        self.last = -1
        self.last_cpu, self.last_t = 0.0, time.time()
        self.hang = False
        self.killed = False

    def index(self):
        with open(self.page, 'rb') as f:
            return struct.unpack('q', f.read(8))[0]

    def cpu(self):
        try:
            with open('/proc/%d/stat' % self.p.pid) as f:
                a = f.read().rsplit(')', 1)[1].split()
            return (int(a[11]) + int(a[12])) / os.sysconf('SC_CLK_TCK')
        except Exception:
            return 0.0

    def poll(self):
        if self.p.poll() is not None:
            return True
        i = self.index()
        cpu = self.cpu()
        now = time.time()
        if i != self.last:
            self.last, self.last_cpu, self.last_t = i, cpu, now
        elif cpu - self.last_cpu > HANG_S or now - self.last_t > 4 * HANG_S:
            self.hang = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def result(self):
        rc = self.p.returncode
        try:
            with open(self.out) as f:
                return json.load(f)
        except Exception:
            pass
        with open(self.log, 'rb') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 6000))
            log = f.read().decode('utf8', 'replace')
        i = self.index()
        what = 'did not finish: hung' if self.hang else 'crashed, status %s' % rc
        if rc == -signal.SIGKILL and not self.hang:
            print('ERROR: worker of shard %d was killed (out of memory?)\n%s' % (self.no, log[-1500:]))
            return dict(error=1)
        if i < 0 and not self.hang and rc > 0:
            print('ERROR: worker of shard %d failed before its first case\n%s' % (self.no, log[-3000:]))
            return dict(error=1)
        return dict(fails=[dict(index=i, case='case %d of shard %s' % (i, short(self.shard)),
                                msg='worker %s in this case\n%s' % (what, log), key='crash')],
                    counts={}, samples=[], cases=i + 1, states=[], err=None, crashed=True)


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main():
    argv = sys.argv[1:]
    if argv and argv[0] == '--worker':
        return worker(argv[1:])
    if argv and argv[0] == '--setup':
        print('built', build())
        return 0
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        i = argv.index('--tier')
        tier = argv[i + 1]
        del argv[i:i + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED') or '1')
    except ValueError:
        seed = 1
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            a = json.load(f)
        return check(a['property'], a['tier'], a['seed'], replay=a)
    return check(argv[0], tier, seed)


def check(pid, tier, seed, replay=None):
    t0 = time.time()
    dst = build()
    os.environ['VERIF_TIER'] = tier
    sys.path.insert(0, dst)
    mod = load_check(pid)
    shards = mod.shards(tier)
    env = getattr(mod, 'ENV', None)
    only = '-'
    numbered = list(enumerate(shards))
    if replay:
        numbered = [(replay['shard_no'], replay['shard'])]
        only = replay['index']
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    todo = numbered[::-1]
    run, done = [], []
    nproc = getattr(mod, 'NPROC', NPROC)
    error = False
    ncrash = 0
    try:
        while todo or run:
            while todo and len(run) < nproc:
                no, sh = todo.pop()
                run.append(Job(pid, dst, tier, seed, no, sh, tmp, only, env))
            for j in run[:]:
                if j.poll():
                    run.remove(j)
                    r = j.result()
                    if r.get('error'):
                        error = True
                    else:
                        done.append((j, r))
                        ncrash += bool(r.get('crashed'))
                        if ncrash >= 6:
                            todo = []       # enough seen: every further shard may hang as well
            time.sleep(0.005)
    finally:
        for j in run:
            j.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    if error:
        return 2
    done.sort(key=lambda jr: jr[0].no)

    # verdicts
    kf = [k for k in known_findings() if k['property'] == pid and k.get('status') == 'known']
    viol, known = [], {}
    for j, r in done:
        for f in r['fails']:
            for k in kf:
                if f['key'] is not None and f['key'] in k['keys']:
                    known.setdefault(k['what'], 0)
                    known[k['what']] += 1
                    break
            else:
                viol.append((j, f))
    for what, n in known.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    nviol = len(viol)
    rdir = os.path.join(VERIF, 'replays')
    # one of each shape of message first
    shapes = {}
    for v in viol:
        shapes.setdefault(re.sub(r'0x[0-9a-f]+|[0-9]+|\[[^]]*\]', '', v[1]['msg'][-120:]), []).append(v)
    viol = [v for row in itertools.zip_longest(*shapes.values()) for v in row if v is not None]
    for n, (j, f) in enumerate(viol[:int(os.environ.get('VERIF_SHOW', '5'))]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (pid, n))
        with open(path, 'w') as fd:
            json.dump(dict(property=pid, tier=tier, seed=seed, shard_no=j.no, shard=j.shard, index=f['index'],
                           case=f['case'], msg=f['msg'], key=f['key']), fd, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case: %s\n  %s' % (f['case'], f['msg'].replace('\n', '\n  ')))
    # evidence
    counts, samples, cases, states = {}, [], 0, set()
    for j, r in done:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        cases += r['cases']
        states.update(r['states'])
        for s in r['samples']:
            if len(samples) < 8 and (len(r['samples']) < 2 or s != r['samples'][0] or len(samples) == 0):
                samples.append('shard %d: %s' % (j.no, s))
    wall = time.time() - t0
    if not replay:
        level = mod.LEVEL
        cov = dict(counts)
        cov['shards'] = len(shards)
        if level == 'model_checking':
            cov['states'] = counts.get('states', 0) + len(states)
            cov['transitions'] = counts.get('transitions', 0)
            cov['traces_validated_against_impl'] = cases
        else:
            cov['evaluations'] = counts.get('evaluations', 0) or cases
            cov['distinct_nontrivial'] = counts.get('distinct_nontrivial', 0) + len(states)
        cov['rule'] = mod.RULE
        cov['samples'] = samples or ['none']
        cov['exhaustive'] = True
        cov['bounds'] = mod.BOUNDS[tier] if isinstance(getattr(mod, 'BOUNDS', None), dict) else getattr(mod, 'BOUNDS', '')
        if hasattr(mod, 'evidence'):
            cov.update(mod.evidence(tier))
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=list(getattr(mod, 'ASSUME', [])), wall_s=round(wall, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.rename(p + '.tmp', p)
        print('%s %s: %d cases, %d states, %s, %d violations, %d known, %.1fs' % (
            pid, tier, cases, len(states) + counts.get('states', 0),
            ', '.join('%s=%d' % kv for kv in sorted(counts.items())), nviol, len(known), wall))
        # a run that explored nothing is no evidence of anything
        if not cases:
            print('ERROR: nothing explored')
            return 2
    return 1 if nviol else 0


if __name__ == '__main__':
    sys.exit(main())
