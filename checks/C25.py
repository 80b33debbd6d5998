"""Writing generated files keeps the previous version."""
import itertools, os, resource, shutil, signal, stat, sys, tempfile
import guppy

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of crash points, torn writes and I/O faults of the real implementation on a scratch directory'
RULE = ('all small directories (target and backup absent, empty, with content, with each permission, symbolic link, directory) and requests of one or two '
        'files; for each, the directory is captured at every bytecode boundary of the code under test and every torn state in between is derived; then each '
        'file operation fails in turn (audit hook), and each write stops after every possible number of bytes (file size limit)')
BOUNDS = dict(quick='1 and 2 files, contents up to 7 bytes, 8 permission combinations as an unprivileged user', thorough='the same with larger contents and 3 files')
ASSUME = ['the names in one request denote distinct files none of which is the backup of another', 'rename replaces its target atomically',
          'each request is judged by itself: a repeated request takes what the failed one left as the previous content']
NPROC = 8

gsl = guppy.Root().guppy.gsl
SUF = gsl.Filer.backup_suffix
gsl.SpecNodes.node_of_string('.a')
CODE = os.sep + os.path.join('guppy', 'gsl') + os.sep
OTHER = 'other'
NOBODY = 65534


class Fault(OSError):
    pass


STATE = dict(active=None)


def hook(event, args):
    s = STATE['active']
    if s is None or event not in ('open', 'os.rename', 'os.remove', 'os.truncate', 'os.link', 'os.symlink', 'os.chmod', 'os.mkdir', 'os.rmdir', 'shutil.copyfile', 'shutil.move', 'os.utime'):
        return
    if not any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(s['dir']) for a in args[:2]):
        return
    s['n'] += 1
    s['ops'].append(event)
    if s['n'] == s['fail']:
        raise s['error']


HOOKED = []


def capture(d):
    r = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            r[n] = ('link', os.readlink(p), st.st_ino)
        elif stat.S_ISDIR(st.st_mode):
            r[n] = ('dir', tuple(sorted(os.listdir(p))), st.st_ino)
        else:
            os.chmod(p, 0o600)
            with open(p, 'rb') as f:
                r[n] = ('file', f.read(), st.st_ino)
            os.chmod(p, stat.S_IMODE(st.st_mode))
    return r


def content(s, n, depth=0):
    e = s.get(n)
    if e is None or depth > 3:
        return None
    if e[0] == 'link':
        return content(s, os.path.basename(e[1]), depth + 1)
    return e[:2]


def torn(a, b):
    """The states that a stop between two captured states may leave."""
    yield b
    for n, e in b.items():
        o = a.get(n)
        if o is not None and o[2] == e[2] and o[0] == e[0] == 'file' and o[1] != e[1]:
            start = len(o[1]) if e[1].startswith(o[1]) else 0
            for k in range(start, len(e[1])):
                s = dict(a)
                s[n] = ('file', e[1][:k], e[2])
                yield s
        elif o is None and e[0] == 'file' and e[1] and not any(x[2] == e[2] for x in a.values()):
            for k in range(len(e[1])):
                s = dict(a)
                s[n] = ('file', e[1][:k], e[2])
                yield s


def build(d, spec):
    for n, (kind, data, mode) in spec.items():
        p = os.path.join(d, n)
        if kind == 'file':
            with open(p, 'wb') as f:
                f.write(data)
            os.chmod(p, mode)
        elif kind == 'link':
            os.symlink(os.path.join(d, data), p)
        elif kind == 'dir':
            os.mkdir(p)


def request(d, req):
    li = []
    for n, text in req:
        li.append('.write file: %s' % os.path.join(d, n))
        if text is not None:
            li.append('..text')
            li.append(text)
    li.append('.end' if 0 else '')
    return gsl.Filer.filer(gsl.SpecNodes.node_of_string('\n'.join(li[:-1])))


class Case:
    def __init__(self, ctx, base, spec, req):
        self.ctx, self.base, self.spec, self.req = ctx, base, spec, req
        self.targets = {n for n, _ in req}
        self.backups = {n + SUF for n, _ in req}

    def judge(self, init, s, where):
        """Nothing is lost in state s."""
        for n in self.targets:
            old = content(init, n)
            if old is not None and content(s, n) != old and content(s, n + SUF) != old:
                self.ctx.fail('%s: the previous content %r of %s is lost; now %s' % (where, old, n, {k: v[:2] for k, v in s.items()}))
                return False
        for n, e in init.items():
            if n not in self.targets and n not in self.backups and s.get(n) != e:
                self.ctx.fail('%s: %s was touched' % (where, n))
                return False
        return True

    def one(self, fail=0, limit=None, trace=False):
        d = tempfile.mkdtemp(dir=self.base)
        try:
            build(d, self.spec)
            filer = request(d, self.req)
            init = capture(d)
            states = [init]
            err = None
            error = Fault(5, 'injected')
            st = dict(dir=d, n=0, fail=fail, error=error, ops=[])

            def local(frame, event, arg):
                STATE['active'] = None
                try:
                    s = capture(d)
                    if s != states[-1]:
                        states.append(s)
                finally:
                    STATE['active'] = st
                return local

            def tracer(frame, event, arg):
                if CODE in frame.f_code.co_filename:
                    frame.f_trace_opcodes = True
                    return local
            STATE['active'] = st
            if limit is not None:
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            if trace:
                sys.settrace(tracer)
            try:
                filer.write()
            except BaseException as e:
                err = e
                tb = e.__traceback__
                e.__traceback__ = None
                tb = None
            finally:
                sys.settrace(None)
                STATE['active'] = None
                if limit is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            final = capture(d)
            if final != states[-1]:
                states.append(final)
            return init, states, final, err, error, st
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def check(self):
        ctx = self.ctx
        init, states, final, err, error, st = self.one(trace=True)
        nops = st['n']
        if len(states) < 2 and err is None:
            if any(content(init, n) != ('file', (t or '').encode()) for n, t in self.req):
                ctx.fail('nothing was written')
        n = 0
        for a, b in zip(states, states[1:]):
            for s in torn(a, b):
                n += 1
                if not self.judge(init, s, 'stopped after %d operations' % (states.index(b))):
                    return
        ctx.add('states', n)
        if err is None:
            for n, text in self.req:
                if content(final, n) != ('file', (text or '').encode()):
                    ctx.fail('%s: written %s, expected %r' % (n, final.get(n), text))
                    return
                old = content(init, n)
                if old is None:
                    if final.get(n + SUF) != init.get(n + SUF):
                        ctx.fail('%s: the backup was changed though there was nothing to back up' % n)
                elif content(final, n + SUF) != old:
                    ctx.fail('%s: completed, but the backup is %s' % (n, final.get(n + SUF)))
            extra = set(final) - set(init) - self.targets - self.backups - {e[1] for e in self.spec.values() if e[0] == 'link'}
            if extra:
                ctx.fail('extra files: %s' % extra)
        elif not isinstance(err, OSError):
            ctx.fail('%s: %s' % (type(err).__name__, err))
        elif self.plain():
            ctx.fail('failed: %s' % err)
        ctx.add('crash_points', len(states))
        for k in range(1, nops + 1):
            init, states, final, err, error, st = self.one(fail=k)
            if not self.judge(init, final, 'operation %d (%s) failed' % (k, st['ops'][-1])):
                return
            if err is not error:
                ctx.fail('operation %d (%s) failed, reported as %r' % (k, st['ops'][-1], err))
                return
            ctx.add('faults', 1)
        for lim in range(max(len((t or '').encode()) for n, t in self.req)):
            init, states, final, err, error, st = self.one(limit=lim)
            if not self.judge(init, final, 'no room after %d bytes' % lim):
                return
            if err is None:
                ctx.fail('no room after %d bytes, but no error' % lim)
                return
            ctx.add('faults', 1)

    def plain(self):
        return all(k in ('file', 'link') and m & 0o600 == 0o600 for k, _, m in self.spec.values())


def shards(tier):
    return [dict(part=p, k=k, of=8) for p in ('root', 'user') for k in range(8)] + [dict(part='misc', k=0, of=1)]


F = 'file'
ONE = [{}, dict(x=(F, b'', 0o644)), dict(x=(F, b'old', 0o644)), dict(x=('link', 'real', 0o777), real=(F, b'linked', 0o644)),
       dict(x=('link', 'gone', 0o777)), dict(x=('dir', None, 0o755))]
BK = [{}, {'x' + SUF: (F, b'older', 0o644)}, {'x' + SUF: (F, b'', 0o644)}, {'x' + SUF: ('dir', None, 0o755)}, {'x' + SUF: ('link', OTHER, 0o777)}]
TEXTS = [None, '', 'n', 'new\ntxt', 'old']
Y = [None, {}, dict(y=(F, b'oldy', 0o644)), {'y': (F, b'oldy', 0o644), 'y' + SUF: (F, b'oldery', 0o600)}]
# The name of one is what another may take for a backup or scratch name
NAMES = [('x', 'x.bak'), ('x', 'x.tmp'), ('x', 'x~'), ('x', 'x.new'), ('x', 'x,'), ('x', SUF)]
MODES = [0o600, 0o400, 0o200, 0o000]


def cases(shard, tier):
    if shard['part'] == 'root':
        for one, bk, text, y in itertools.product(ONE, BK, TEXTS, Y):
            spec = dict(one, **bk)
            spec[OTHER] = (F, b'other', 0o644)
            if y:
                spec.update(y)
            req = [('x', text)]
            if y is not None:
                for t2 in ([None, 'newy'] if tier == 'quick' else TEXTS):
                    yield spec, req + [('y', t2)]
                    yield spec, [('y', t2)] + req
            else:
                yield spec, req
    else:
        for mode, bk, text in itertools.product(MODES, [None] + MODES, ['', 'new']):
            spec = dict(x=(F, b'old', mode))
            if bk is not None:
                spec['x' + SUF] = (F, b'older', bk)
            spec[OTHER] = (F, b'other', 0o644)
            yield spec, [('x', text)]


def demote(shard, ctx, fn):
    """Run in a child that has given up its privileges."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        out = []
        try:
            os.close(r)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)

            class Sub:
                tier = ctx.tier

                def fail(self, msg, key=None):
                    out.append(msg)

                def add(self, *a):
                    pass
            fn(Sub())
            os.write(w, ('\0'.join(out) + '\n').encode()[:60000] + b'OK')
        except BaseException as e:
            os.write(w, ('%s: %s' % (type(e).__name__, e)).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        s = f.read().decode()
    os.waitpid(pid, 0)
    if not s.endswith('\nOK'):
        raise RuntimeError('unprivileged child: ' + s)
    return [m for m in s[:-3].split('\0') if m]


def run(shard, ctx):
    if not HOOKED:
        sys.addaudithook(hook)
        HOOKED.append(1)
    if shard['part'] == 'misc':
        return run_misc(ctx)
    base = tempfile.mkdtemp(prefix='c25-')
    os.chmod(base, 0o777)
    try:
        for i, (spec, req) in enumerate(cases(shard, ctx.tier)):
            if i % shard['of'] != shard['k'] or not ctx.case(shard['part'], sorted(spec.items()), req):
                continue
            if shard['part'] == 'user':
                for m in demote(shard, ctx, lambda c: Case(c, base, spec, req).check()):
                    ctx.fail('unprivileged: ' + m)
            else:
                Case(ctx, base, spec, req).check()
            ctx.state(repr((sorted(spec.items()), req)))
            if ctx.full:
                return
    finally:
        shutil.rmtree(base, ignore_errors=True)


def run_misc(ctx):
    base = tempfile.mkdtemp(prefix='c25-')
    try:
        # Names next to each other
        for names in NAMES:
            for t in TEXTS:
                for order in (0, 1):
                    spec = {n: (F, b'old ' + n.encode(), 0o644) for n in names}
                    spec['z.bak'] = (F, b'zz', 0o644)
                    req = [(n, t) for n in names]
                    if not ctx.case('names', names, t, order):
                        continue
                    Case(ctx, base, spec, req[::-1] if order else req).check()
        # A request for the same file twice writes nothing
        for t1, t2 in itertools.product(TEXTS, repeat=2):
            if not ctx.case('twice', t1, t2):
                continue
            d = tempfile.mkdtemp(dir=base)
            build(d, dict(x=(F, b'old', 0o644)))
            before = capture(d)
            try:
                request(d, [('x', t1), ('x', t2)]).write()
                ctx.fail('the same file twice: no error')
            except SyntaxError:
                pass
            if capture(d) != before:
                ctx.fail('the same file twice: something was written')
        # Several requests after each other: the backup is always the version before
        for seq in itertools.product(['', 'a', 'b\nc', None], repeat=4):
            if not ctx.case('history', seq):
                continue
            d = tempfile.mkdtemp(dir=base)
            prev = prevb = None
            for t in seq:
                request(d, [('x', t)]).write()
                s = capture(d)
                cur = ('file', (t or '').encode())
                if content(s, 'x') != cur or content(s, 'x' + SUF) != (prev or None) or set(s) - {'x', 'x' + SUF}:
                    ctx.fail('after %r: %s' % (t, s))
                    break
                prev = cur
                ctx.add('transitions', 1)
            shutil.rmtree(d)
        # The model file system used for testing does the same
        for seq in itertools.product(['', 'a', 'b\nc', None], repeat=3):
            if not ctx.case('model', seq):
                continue
            g = guppy.Root().guppy.gsl
            g.FileIO.set_test_mode()
            io = g.Filer.IO
            prev = None
            for t in seq:
                g.Filer.filer(g.SpecNodes.node_of_string('.write file: /x' + ('' if t is None else '\n..text\n' + t))).write()
                if io.files != dict([('/x', t or '')] + ([('/x' + SUF, prev)] if prev is not None else [])):
                    ctx.fail('test mode: after %r: %s' % (t, io.files))
                prev = t or ''
    finally:
        shutil.rmtree(base, ignore_errors=True)
