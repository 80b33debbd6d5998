"""The profile browser's reader: what was recorded is shown, sample for sample."""
import io, itertools, os, shutil, sys, tempfile, types

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of interleavings of a recorder and a reader of the real implementation, at every cut point of the file, against the list of completely written samples'
RULE = ('profiles of up to three samples with plain, empty, long, multi-line, non-ASCII and look-alike kinds, recorded by the real recorder: the reader opens the file at every '
        'byte, follows it at every later byte, and at its end; the recorder goes on at every line of the reading function; all histories of appending pieces, '
        'replacing, truncating, opening another or a bad file, clearing the cache and following; the rows of the largest kinds and the rest')
BOUNDS = dict(quick='2 samples: all pairs of cuts; 3 samples: every cut; 5 operations of 11; tables of up to 4 rows', thorough='2 samples: all triples of cuts at lines, pairs in 3 samples; 6 operations')
ASSUME = ['the recorder only appends, or the file is replaced as a whole by one of another size or time', 'graphical parts are replaced by stand-ins (tkinter is not installed)']
NPROC = 8

NAMES = '''TclError NO FALSE OFF YES TRUE ON N S W E NW SW NE SE NS EW NSEW CENTER NONE X Y BOTH LEFT TOP RIGHT BOTTOM RAISED SUNKEN FLAT RIDGE GROOVE SOLID HORIZONTAL VERTICAL
NUMERIC CHAR WORD BASELINE INSIDE OUTSIDE SEL SEL_FIRST SEL_LAST END INSERT CURRENT ANCHOR ALL NORMAL DISABLED ACTIVE HIDDEN CASCADE CHECKBUTTON COMMAND RADIOBUTTON
SEPARATOR SINGLE BROWSE MULTIPLE EXTENDED DOTBOX UNDERLINE PIESLICE CHORD ARC FIRST LAST BUTT PROJECTING ROUND BEVEL MITER MOVETO SCROLL UNITS PAGES TkVersion TclVersion
READABLE WRITABLE EXCEPTION EventType Event NoDefaultRoot Variable StringVar IntVar DoubleVar BooleanVar mainloop getint getdouble getboolean Misc CallWrapper XView YView Wm
Tk Tcl Pack Place Grid BaseWidget Widget Toplevel Button Canvas Checkbutton Entry Frame Label Listbox Menu Menubutton Message Radiobutton Scale Scrollbar Text OptionMenu
Image PhotoImage BitmapImage image_names image_types Spinbox LabelFrame PanedWindow'''.split()


def stand_in():
    """Modules with the names of tkinter, none of which does anything."""
    tk = types.ModuleType('tkinter')
    for n in NAMES:
        setattr(tk, n, n.lower() if n.isupper() else type(n, (), {}))
    tk.__all__ = list(NAMES)
    tk.__path__ = []
    sys.modules['tkinter'] = tk
    for n in 'filedialog', 'messagebox', 'font', 'simpledialog', 'colorchooser', 'ttk', 'constants', 'scrolledtext':
        m = sys.modules['tkinter.' + n] = types.ModuleType('tkinter.' + n)
        setattr(tk, n, m)


stand_in()
import guppy
hp = guppy.hpy()
Prof = guppy.Root().guppy.heapy.Prof
MOD = sys.modules['guppy.heapy.Prof']
KINDS = ['k', '', 'é€\U0001f600', 'two\nlines', '.end: .loader: _load_stat', '.loader: _load_stat', 'x' * 40, ' sp ace ', 'a\n.end: .loader: _load_stat\n', '\\', '.r: 1 1 z', 'cr\rlf\r\n']


def stat_of(rows):
    count = sum(r[0] for r in rows)
    size = sum(r[1] for r in rows)
    st = hp.load(['.loader: _load_stat', '.format: SetFormat', '.timemade: 1.5', '.kindname: ', '.count: %d' % count, '.size: %d' % size, '.kindheader: Kind', '.numrows: %d' % len(rows)] +
                 ['.r: %d %d %s' % (c, s, Q(n)) for c, s, n in rows])
    return st


def Q(n):
    from guppy.heapy import Part
    return Part.quote_name(n)


def recorded(rows):
    f = io.StringIO()
    stat_of(rows).dump(f)
    return f.getvalue().encode('utf-8')


def shown(st):
    return st.count, st.size, tuple((r.count, r.size, r.name) for r in st.get_rows())


def expected(rows):
    rows = [tuple(r) for r in rows]
    return sum(r[0] for r in rows), sum(r[1] for r in rows), tuple(rows)


class Reader:
    """The reader under test with the list of samples that it should show."""

    def __init__(self, ctx, where):
        self.ctx, self.where = ctx, where
        self.s = MOD.Stats(Prof)
        self.total = None

    def check(self, want, what):
        s = self.s
        got = [shown(x) for x in s.stats]
        if got != want or len(s) != len(want):
            self.ctx.fail('%s: %s: shows %d samples (%d) %s, want %d: %s' % (self.where, what, len(got), len(s), str(got)[:200], len(want), str(want)[:200]))
            return False
        if s.get_max_size() != max([w[1] for w in want], default=0):
            self.ctx.fail('%s: %s: largest size %s' % (self.where, what, s.get_max_size()))
            return False
        if any(shown(s[i]) != w for i, w in enumerate(want)):
            self.ctx.fail('%s: %s: by index' % (self.where, what))
            return False
        return True

    def open(self, fn, want, what):
        try:
            self.s.open(fn)
        except Exception as e:
            self.ctx.fail('%s: %s: opening raised %s: %s' % (self.where, what, type(e).__name__, e))
            return False
        return self.check(want, what)

    def collect(self, want, what, before=None):
        n = len(self.s)
        try:
            o, k = self.s.collect()
        except Exception as e:
            self.ctx.fail('%s: %s: collecting raised %s: %s' % (self.where, what, type(e).__name__, e))
            return False
        # What the browser makes of it: those shown, then the new ones
        if o + k != len(want) or o not in (0, n) or k < 0:
            self.ctx.fail('%s: %s: %d old and %d new samples, want %d' % (self.where, what, o, k, len(want)))
            return False
        return self.check(want, what)


def samples(n):
    """Profiles: samples with kinds of every sort in every position."""
    for i in range(len(KINDS)):
        a = [(1, 9 + i, KINDS[i])]
        b = [(2, 30, KINDS[(i + 1) % len(KINDS)]), (1, 5, KINDS[(i + 5) % len(KINDS)])]
        c = []
        yield [a, b, c][:n] if i % 2 else [b, c, a][:n]


def shards(tier):
    r = [dict(part='cuts', i=i) for i in range(len(KINDS))]
    r += [dict(part='meanwhile', k=k, of=4) for k in range(4)]
    r += [dict(part='histories', k=k, of=24) for k in range(24)]
    r += [dict(part='rows', k=k, of=4) for k in range(4)] + [dict(part='real', k=0)]
    return r


def run(shard, ctx):
    shard = dict(shard)
    d = tempfile.mkdtemp(prefix='c31-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        globals()['run_' + shard.pop('part')](shard, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ends(pieces):
    r = [0]
    for p in pieces:
        r.append(r[-1] + len(p))
    return r


def run_cuts(shard, ctx, d):
    fn = os.path.join(d, 'p')
    for n in (2, 3):
        prof = list(samples(n))[shard['i']]
        pieces = [recorded(s) for s in prof]
        data = b''.join(pieces)
        want = [expected(s) for s in prof]
        at = ends(pieces)

        def complete(k):
            return want[:max(i for i in range(len(at)) if at[i] <= k)]

        def write(k, prev=[None]):
            with open(fn, 'ab') as f:
                f.write(data[os.path.getsize(fn):k])
        lines = [i + 1 for i, c in enumerate(data) if c == 10]
        for a in range(len(data) + 1):
            if not ctx.case('cuts', n, shard['i'], a):
                continue
            if n == 2 or ctx.tier == 'thorough':
                seconds = range(a, len(data) + 1)
            else:
                seconds = [b for b in range(a, len(data) + 1) if b == len(data) or b in lines or b + 1 in lines]
            ctx.state((n, shard['i'], a))
            for b in seconds:
                thirds = [[]] if n == 3 or ctx.tier == 'quick' else [[c] for c in lines if c > b] + [[]]
                for c in thirds:
                    with open(fn, 'wb') as f:
                        f.write(data[:a])
                    r = Reader(ctx, 'kind %d, cut at %s of %d' % (shard['i'], [a, b] + c, len(data)))
                    if not r.open(fn, complete(a), 'opened'):
                        return
                    ok = True
                    for k in [b] + c + [len(data)]:
                        write(k)
                        ok = ok and r.collect(complete(k), 'at %d' % k)
                        ctx.add('transitions')
                    if not ok:
                        return


def run_meanwhile(shard, ctx, d):
    """The recorder goes on while the reader is at each line of its code; what it missed is seen next time."""
    fn = os.path.join(d, 'p')
    code = MOD.__file__
    for i, prof in enumerate(samples(3)):
        if i % shard['of'] != shard['k']:
            continue
        pieces = [recorded(s) for s in prof]
        data = b''.join(pieces)
        want = [expected(s) for s in prof]
        at = ends(pieces)
        cuts = sorted({0, at[1], at[1] + 1, at[1] + len(pieces[1]) // 2, at[2] - 1, at[2], at[2] + 7, at[3]})
        for what in 'open', 'collect':
            for a, b, c in itertools.combinations_with_replacement(cuts, 3):
                if not ctx.case('meanwhile', i, what, a, b, c):
                    continue
                line = 0
                ctx.state(('meanwhile', i, what, a, b, c))
                while True:
                    with open(fn, 'wb') as f:
                        f.write(data[:a])
                    r = Reader(ctx, 'kind %d, %s at %d, written to %d at event %d' % (i, what, b, c, line))
                    if what == 'collect':
                        r.s.open(fn)
                    with open(fn, 'ab') as f:
                        f.write(data[a:b])
                    count = [0]

                    def tracer(frame, event, arg):
                        if frame.f_code.co_filename != code:
                            return None
                        if event == 'line':
                            if count[0] == line:
                                with open(fn, 'ab') as f:
                                    f.write(data[b:c])
                            count[0] += 1
                        return tracer
                    sys.settrace(tracer)
                    try:
                        getattr(r.s, what)(*([fn] if what == 'open' else []))
                        err = None
                    except Exception as e:
                        err = e
                    finally:
                        sys.settrace(None)
                    if err is not None:
                        ctx.fail('%s: raised %s: %s' % (r.where, type(err).__name__, err))
                        return
                    got = [shown(x) for x in r.s.stats]
                    lo = max(k for k in range(4) if at[k] <= b)
                    hi = max(k for k in range(4) if at[k] <= max(b, c))
                    if got not in [want[:k] for k in range(lo, hi + 1)]:
                        ctx.fail('%s: shows %s' % (r.where, got))
                        return
                    if count[0] <= line:
                        break       # It was done before
                    if not r.collect(want[:hi], 'afterwards'):
                        return
                    ctx.add('transitions')
                    line += 1


def run_histories(shard, ctx, d):
    depth = 5 if ctx.tier == 'quick' else 6
    sets = list(samples(3))
    p1, p2 = sets[2], sets[7]
    A = [recorded(s) for s in p1]
    B = [recorded(s) for s in p2]
    wantof = {}
    for s, x in list(zip(p1, A)) + list(zip(p2, B)):
        wantof[x] = expected(s)
    a2 = len(A[1]) // 2
    pieces = [A[0], A[1][:a2], A[1][a2:-1], A[1][-1:] + A[2]]
    fn, fn2, bad = (os.path.join(d, n) for n in ('p', 'q', 'bad'))
    dataB = b''.join(B) + A[0][:20]
    OPS = ['append', 'truncate', 'other content', 'shorter content', 'replace', 'collect', 'open', 'open 2', 'open bad', 'open none', 'open missing', 'clear', 'damage']

    def complete(data):
        r = []
        while data:
            for x, w in wantof.items():
                if data.startswith(x):
                    r.append(w)
                    data = data[len(x):]
                    break
            else:
                break
        return r
    for idx, seq in enumerate(itertools.product(range(len(OPS)), repeat=depth)):
        if idx % shard['of'] != shard['k']:
            continue
        names = [OPS[o] for o in seq]
        # Only those that read after each change can tell
        if names[-1] not in ('collect', 'open', 'clear') or not {'append', 'other content', 'replace', 'clear', 'shorter content', 'damage'} & set(names):
            continue
        if not ctx.case('history', names):
            continue
        with open(bad, 'wb') as f:
            f.write(b'not a profile\n')
        with open(fn2, 'wb') as f:
            f.write(dataB)
        with open(fn, 'wb') as f:
            f.write(pieces[0])
        content = pieces[0]
        nextp = 1
        cur = fn
        cleared = False
        t = 1
        damaged = False
        r = Reader(ctx, 'history %s' % names)
        ctx.state(tuple(names))
        if not r.open(fn, complete(content), 'opened'):
            return
        have = complete(content)
        for j, o in enumerate(names):
            what = '%d: %s' % (j, o)
            ok = True
            ctx.add('transitions')
            if o == 'append':
                if nextp < len(pieces):
                    content += pieces[nextp]
                    with open(fn, 'ab') as f:
                        f.write(pieces[nextp])
                    nextp += 1
            elif o in ('truncate', 'other content', 'shorter content', 'replace', 'damage'):
                content = {'truncate': b'', 'other content': dataB, 'shorter content': B[0], 'replace': B[1] + A[0], 'damage': A[0] + b'garbage\n' + A[1]}[o]
                nextp = 9
                damaged = o == 'damage'
                if o == 'replace':
                    with open(fn + '.new', 'wb') as f:
                        f.write(content)
                    os.rename(fn + '.new', fn)
                else:
                    with open(fn, 'wb') as f:
                        f.write(content)
                t += 10
                os.utime(fn, (t, t))
            elif o == 'clear':
                if cleared or cur is None:
                    continue
                r.s.clear_cache()
                cleared = True
            elif o == 'open':
                try:
                    r.s.open(fn)
                except ValueError:
                    if not damaged:
                        ctx.fail('%s: %s: raised' % (r.where, what))
                        return
                else:
                    if damaged:
                        ctx.fail('%s: %s: a damaged file was accepted' % (r.where, what))
                        return
                    cur = fn
                    have = complete(content)
                    cleared = False
                    ok = r.check(have, what)
            elif o == 'open 2':
                ok = r.open(fn2, complete(dataB), what)
                have = complete(dataB)
                cur = fn2
                cleared = False
            elif o in ('open bad', 'open missing'):
                if cleared:
                    continue
                try:
                    r.s.open(bad if o == 'open bad' else fn + '.missing')
                    ctx.fail('%s: %s: accepted' % (r.where, what))
                    return
                except (ValueError, OSError):
                    pass
                ok = r.check(have, what)
            elif o == 'open none':
                ok = r.open(None, [], what) and r.s.collect() == (0, 0)
                cur = None
                have = []
                cleared = False
            elif o == 'collect':
                if cur == fn and damaged:
                    if cleared:
                        break
                    try:
                        r.s.collect()
                    except ValueError:
                        ok = r.check(have, what)
                    else:
                        # Unchanged since it was read
                        ctx.fail('%s: %s: a damaged file was accepted' % (r.where, what))
                        return
                else:
                    have = complete(content) if cur == fn else complete(dataB) if cur == fn2 else []
                    if cleared:
                        # It is opened again by this
                        try:
                            o_, k_ = r.s.collect()
                        except Exception as e:
                            ctx.fail('%s: %s: raised %s: %s' % (r.where, what, type(e).__name__, e))
                            return
                        ok = o_ + k_ == len(have) and r.check(have, what)
                        if not ok:
                            ctx.fail('%s: %s: %d old and %d new, want %d' % (r.where, what, o_, k_, len(have)))
                        cleared = False
                    else:
                        ok = r.collect(have, what)
            if not ok:
                return
        if cleared and cur == fn and not damaged:
            if not r.check(complete(content), 'opened again'):
                return


def run_rows(shard, ctx, d):
    """The largest kinds and the others, as drawn; kinds by name."""
    sizes = [(1, 0), (1, 1), (2, 1), (1, 5), (3, 5), (2, 9)]
    i = 0
    for n in range(5):
        for rows in itertools.product(sizes, repeat=n):
            i += 1
            if i % shard['of'] != shard['k'] or not ctx.case('rows', rows):
                continue
            rows = sorted([(c, s, 'k%d' % j) for j, (c, s) in enumerate(rows)], key=lambda r: -r[1])
            f = io.StringIO()
            stat_of(rows).dump(f)
            st = hp.load(f.getvalue().split('\n')[:-1])
            count, size = sum(r[0] for r in rows), sum(r[1] for r in rows)
            ctx.state(tuple(rows))
            for N in range(n + 2):
                for by in 'Size', 'Count':
                    k = 1 if by == 'Size' else 0
                    got = [(r.count, r.size, r.name) for r in st.get_rows_n_and_other(N, by)]
                    order = sorted(rows, key=lambda r: -r[k])
                    top = order[:N]
                    other = [r for r in got if r[2] == '<Other>']
                    main = [r for r in got if r[2] != '<Other>']
                    bad = None
                    if main != top:
                        bad = 'the largest are %s, want %s' % (main, top)
                    elif (len(rows) > N) != bool(other) or len(other) > 1:
                        bad = 'others: %s' % other
                    elif other and (other[0][0], other[0][1]) != (sum(r[0] for r in order[N:]), sum(r[1] for r in order[N:])):
                        bad = 'others: %s' % other
                    elif sum(r[0] for r in got) != count or sum(r[1] for r in got) != size:
                        bad = 'do not sum up'
                    elif [r[k] for r in got] != sorted([r[k] for r in got], reverse=True):
                        bad = 'not in order: %s' % got
                    if bad:
                        ctx.fail('%s, the %d largest by %s: %s' % (rows, N, by, bad))
                        return
                    ctx.add('transitions')
            for ask in itertools.permutations(['k0', 'k1', 'k3', 'none'], 3):
                got = [r and (r.count, r.size, r.name) for r in st.get_rows_of_kinds(list(ask))]
                want = [next((r for r in rows if r[2] == a), None) for a in ask]
                if got != want:
                    ctx.fail('%s: rows of %s: %s' % (rows, ask, got))
                    return


def run_real(shard, ctx, d):
    """Samples of a real heap, recorded to a file while it is read."""
    class Ünï:
        pass
    fn = os.path.join(d, 'p')
    objs = [[], {}, 'x', 1.5, Ünï(), (1,), hp]
    for eq in 'byclodo', 'bysize', 'byid', 'bytype', 'byvia', 'byrcs', 'bymodule', 'byunity':
        if not ctx.case('real', eq):
            continue
        r = None
        want = []
        for n in range(len(objs) + 1):
            p = getattr(hp.iso(*objs[:n]), eq).partition if n else None
            st = getattr(hp.iso(*objs[:n]), eq).stat
            st.dump(fn)
            want.append((st.count, st.size, tuple((x.count, x.size, x.name) for x in st.get_rows())))
            if r is None:
                r = Reader(ctx, eq)
                if not r.open(fn, want, 'opened'):
                    return
            elif not r.collect(want, 'sample %d' % n):
                return
            ctx.add('transitions')
        os.unlink(fn)
        ctx.state(eq)
