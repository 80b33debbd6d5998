"""Statistics survive subtraction and dump/load, even when cut short."""
import itertools, os, io, tempfile, shutil, sys
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of small statistics, pairs, files of several records, and every truncation point, against the figures by definition'
RULE = ('every pair of statistics over three kinds with repeated rows; every triple of small ones; every file of up to three records with awkward names, '
        'in each format, loaded in every documented way (file name, open file, iterator, sequence, readline, all); every truncation of files of two records')
BOUNDS = dict(quick='4 figures per kind, 3 kinds: 64 x 64 pairs, with repeated rows 25 x 25; files of up to 3 of 6 records; every byte of 40 two-record files',
              thorough='5 figures per kind (125 x 125); files of up to 3 of 9 records; every byte of all two-record files')
ASSUME = ['the figures of a statistic are count, size, name, index and cumulative size of every row, and the totals']

FIGS = [None, (1, 10), (2, 10), (1, 30), (3, -5)]


def trows(rows, fmt='SetFormat', header='Kind', name='', diff=False, time=12.5):
    t = ['.loader: _load_stat', '.format: %s' % fmt, '.timemade: %f' % time, '.count: %d' % sum(r[0] for r in rows), '.size: %d' % sum(r[1] for r in rows),
         '.kindname: %s' % name, '.kindheader: %s' % header, '.numrows: %d' % len(rows)]
    if fmt == 'DiffFormat':
        t += ['.b_count: 7', '.b_size: 100']
    for c, s, n in rows:
        t.append('.r: %d %s' % (s, n) if fmt == 'IdFormat' else '.r: %d %d %s' % (c, s, n))
    return t


def mk(rows, **kw):
    return hp.load(trows(rows, **kw))


def fig(st):
    """All figures of a statistic."""
    return (st.count, st.size, st.numrows, st.kindheader, st.kindname, st.format_name, st.timemade, getattr(st, 'b_count', None), getattr(st, 'b_size', None),
            tuple((r.count, r.size, r.name, r.index, r.cumulsize) for r in st.get_rows()))


def shards(tier):
    out = [dict(part='diff', k=k, of=16) for k in range(16)]
    out += [dict(part='dup', k=k, of=4) for k in range(4)]
    out += [dict(part='files', k=k, of=12) for k in range(12)]
    out += [dict(part='cut', k=k, of=16) for k in range(16)]
    out += [dict(part='real')]
    return out


def run(shard, ctx):
    d = tempfile.mkdtemp(prefix='c17-')
    try:
        globals()['run_' + shard['part']](shard, ctx, d)
    finally:
        shutil.rmtree(d)


def stats(n, figs):
    for f in itertools.product(figs, repeat=n):
        rows = [(c[0], c[1], 'k%d' % i) for i, c in enumerate(f) if c]
        rows.sort(key=lambda r: -r[1])
        yield rows


def total(rows):
    d = {}
    for c, s, n in rows:
        a = d.get(n, (0, 0))
        d[n] = a[0] + c, a[1] + s
    return d


def cdiff(ctx, A, B, ra, rb):
    what = '%s - %s: ' % (ra, rb)
    D = A - B
    ta, tb = total(ra), total(rb)
    want = {}
    for n in set(ta) | set(tb):
        a, b = ta.get(n, (0, 0)), tb.get(n, (0, 0))
        if a != b:
            want[n] = a[0] - b[0], a[1] - b[1]
    rows = list(D.get_rows())
    got = {}
    for r in rows:
        if r.name in got:
            ctx.fail(what + 'kind %s twice' % r.name)
        got[r.name] = r.count, r.size
    # a kind whose repeated rows cancel may be listed with zeros
    got0 = {n: v for n, v in got.items() if v != (0, 0)}
    if got0 != want:
        ctx.fail(what + '%s, want %s' % (got, want))
    A_, B_ = [sum(r[k] for r in ra) for k in (0, 1)], [sum(r[k] for r in rb) for k in (0, 1)]
    if [D.count, D.size, D.b_count, D.b_size, len(D)] != [A_[0] - B_[0], A_[1] - B_[1], B_[0], B_[1], len(rows)]:
        ctx.fail(what + 'totals %s' % [D.count, D.size, D.b_count, D.b_size, len(D)])
    cum = 0
    for k, r in enumerate(rows):
        cum += r.size
        if (r.index, r.cumulsize) != (k, cum):
            ctx.fail(what + 'row %d: index %r, cumulative %r' % (k, r.index, r.cumulsize))
        if k and abs(rows[k - 1].size) < abs(r.size):
            ctx.fail(what + 'rows not in order')
    if fig(A)[9] != fig(mk(ra))[9] or fig(B)[9] != fig(mk(rb))[9]:
        ctx.fail(what + 'an operand changed')
    str(D)
    return D


def run_diff(shard, ctx, d):
    figs = FIGS[:4] if ctx.tier == 'quick' else FIGS
    S = list(stats(3, figs))
    for i in range(shard['k'], len(S), shard['of']):
        for j in range(len(S)):
            if not ctx.case('diff', i, j):
                continue
            A, B = mk(S[i]), mk(S[j])
            D = cdiff(ctx, A, B, S[i], S[j])
            ctx.add('transitions', 1)
            # differences of differences
            if i % 5 == 0 and j % 7 == 0:
                for k in range(0, len(S), 9):
                    C = mk(S[k])
                    E = D - (C - B)
                    want = total(S[i])
                    for n, (c, s) in total(S[k]).items():
                        a = want.get(n, (0, 0))
                        want[n] = a[0] - c, a[1] - s
                    ctx.eq({r.name: (r.count, r.size) for r in E.get_rows()}, {n: v for n, v in want.items() if v != (0, 0)}, 'difference of differences')
        ctx.state(('diff', i))
        if ctx.full:
            return


def run_dup(shard, ctx, d):
    S = []
    for f in itertools.product([None, (1, 10), (2, 10), (1, 30), (3, 20)], repeat=3):
        rows = [(c[0], c[1], n) for n, c in zip(('x', 'x', 'y'), f) if c]
        rows.sort(key=lambda r: -r[1])
        if rows not in S:
            S.append(rows)
    for i in range(shard['k'], len(S), shard['of']):
        for j in range(0, len(S), 3 if ctx.tier == 'quick' else 1):
            if ctx.case('dup', i, j):
                cdiff(ctx, mk(S[i]), mk(S[j]), S[i], S[j])
                ctx.add('transitions', 1)
        ctx.state(('dup', i))


RECS = [([(1, 10, 'a b'), (2, 5, 'é')], {}),
        ([], {}),
        ([(3, 7, '.end: .loader: _load_stat'), (1, 2, '.r: 1 2 x')], dict(time=0.25)),
        ([(1, 9, 'x'), (1, 4, "'a\\n b'")], dict(fmt='IdFormat', name='<str>')),
        ([(-1, -9, 'x y  z'), (2, 4, ' lead'), (0, 1, 'trail ')], dict(fmt='DiffFormat')),
        ([(1, 1000000000000000000000, ''), (1, 1, '%s')], dict(header='A (b)')),
        ([(1, 5, 'two\nlines'), (1, 4, '\n'), (1, 3, 'x\n.r: 1 1 y'), (1, 2, '.: \n.: a'), (1, 1, 'end\n')], {}),
        ([(1, 5, 'a\x0bb\x1cc\u2028d'), (1, 4, 'tab\there')], {}),
        ([(1, 5, 'cr\rx')], {}),
        ]
ONLY = {8: 'carriage return'}


def rec(i):
    """A statistic with exactly the given rows, made the way the library makes it (so that names are quoted as it does)."""
    rows, kw = RECS[i]
    base = mk([(c, s, 'n%d' % k) for k, (c, s, n) in enumerate(rows)], **kw)
    for r, (c, s, n) in zip(base.get_rows(), rows):
        r.name = n
    return base[:]          # re-made from its rows


def ways(fn):
    """All documented ways to load all records of a file."""
    def next_all(f, **kw):
        out = []
        while 1:
            try:
                out.append(hp.load(f, **kw))
            except StopIteration:
                return out

    def with_file(g, **kw):
        with open(fn, **kw) as f:
            return g(f)
    yield 'load(open file)', lambda: with_file(next_all)
    yield 'load(open file, use_readline)', lambda: with_file(lambda f: next_all(f, use_readline=1))
    yield 'loadall(open file)', lambda: with_file(lambda f: list(hp.loadall(f)))
    yield 'loadall(name)', lambda: list(hp.loadall(fn))
    yield 'load(iterator of lines)', lambda: next_all(iter(open(fn).read().splitlines(True))) if all(x not in open(fn).read() for x in '\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\r') else with_file(next_all)


def run_files(shard, ctx, d):
    R = 7 if ctx.tier == 'quick' else len(RECS)
    fn = os.path.join(d, 'f')
    combos = [c for n in (1, 2, 3) for c in itertools.product(range(R), repeat=n)]
    if ctx.tier == 'quick':
        combos += [(7,), (8,)]
    for ci in range(shard['k'], len(combos), shard['of']):
        c = combos[ci]
        if not ctx.case('files', c):
            continue
        key = None
        if 8 in c:
            key = 'C17 name with carriage return'
        S = [rec(i) for i in c]
        want = [fig(s) for s in S]
        for i, w in zip(c, want):
            rows, kw = RECS[i]
            cnt = [1 if kw.get('fmt') == 'IdFormat' else r[0] for r in rows]
            if [(r[0], r[1], r[2]) for r in w[9]] != [(a, r[1], r[2]) for a, r in zip(cnt, rows)]:
                ctx.fail('rows of %s are %s before any dump' % (rows, w[9]))
        if os.path.exists(fn):
            os.unlink(fn)
        for k, s in enumerate(S):
            if k % 2:
                with open(fn, 'a') as f:
                    s.dump(f)
            else:
                s.dump(fn)
        for what, f in ways(fn):
            try:
                got = [fig(s) for s in f()]
            except Exception as e:
                got = repr(e)
            if got != want:
                ctx.fail('%s: %s, want %s' % (what, got, want), key=key)
            ctx.add('transitions', 1)
        # by name: the first record, lazily; then dumped again
        try:
            one = hp.load(fn)
            ctx.eq(one.count, S[0].count, 'count of the first record') if key is None else None
            got = fig(one)
            if got != want[0]:
                ctx.fail('load(name): %s, want %s' % (got, want[0]), key=key)
            o = io.StringIO()
            hp.load(fn).dump(o)
            o2 = io.StringIO()
            S[0].dump(o2)
            if o.getvalue() != o2.getvalue():
                ctx.fail('dumped again: %r, want %r' % (o.getvalue(), o2.getvalue()), key=key)
        except Exception as e:
            ctx.fail('load(name): %r' % e, key=key)
        # a sequence of lines, with and without line ends
        if not key and len(c) == 1:
            lines = o2.getvalue().split('\n')[:-1]
            for seq in (lines, [x + '\n' for x in lines], tuple(lines)):
                ctx.eq(fig(hp.load(seq)), want[0], 'load(sequence)')
                st = hp.load(seq)
                ctx.eq(fig(st[:]), want[0], 'slice of loaded') if RECS[c[0]][1].get('fmt') != 'DiffFormat' else None
            ctx.eq(fig(hp.load(iter(list(S[0].get_trows())))), want[0], 'load(iterator of rows)')
        # writing anew replaces
        S[0].dump(fn, 'w')
        if not key:
            ctx.eq([fig(s) for s in hp.loadall(fn)], want[:1], 'mode w')
        ctx.state(c)
        if ctx.full:
            return
    for bad in ([], ['x'], ['.loader: nosuch'], [''], 5, None):
        if ctx.case('bad', repr(bad)):
            try:
                hp.load(bad)
                ctx.fail('load(%r) succeeds' % (bad,))
            except (ValueError, TypeError, StopIteration):
                pass


def run_cut(shard, ctx, d):
    fn = os.path.join(d, 'g')
    R = 7 if ctx.tier == 'quick' else 8
    pairs = list(itertools.product(range(R), repeat=2))
    for pi in range(shard['k'], len(pairs), shard['of']):
        c = pairs[pi]
        if not ctx.case('cut', c):
            continue
        S = [rec(i) for i in c]
        want = [fig(s) for s in S]
        data = []
        for s in S:
            o = io.StringIO()
            s.dump(o)
            data.append(o.getvalue().encode('utf-8'))
        full = b''.join(data)
        ends = [0, len(data[0]), len(full)]
        for cut in range(len(full) + 1):
            with open(fn, 'wb') as f:
                f.write(full[:cut])
            complete = sum(1 for e in ends[1:] if cut >= e)
            for what, opener in (('file', lambda: open(fn)), ('name', lambda: None)):
                got = []
                err = None
                f = opener()
                try:
                    for st in hp.loadall(f or fn):
                        got.append(fig(st))
                except Exception as e:
                    err = e
                finally:
                    if f:
                        f.close()
                if got != want[:complete]:
                    ctx.fail('cut at %d of %s (%s): loaded %s (%r), want %d records' % (cut, ends, what, got, err, complete))
                if err is None and cut not in ends:
                    ctx.fail('cut at %d of %s (%s): no error for the incomplete record' % (cut, ends, what))
            # lazily by name
            try:
                st = hp.load(fn)
                h = (st.count, st.size, st.numrows, st.kindheader, st.kindname, st.format_name, st.timemade)
                rows = []
                try:
                    for k in range(st.numrows):
                        r = st.get_row(k)
                        rows.append((r.count, r.size, r.name, r.index, r.cumulsize))
                except Exception:
                    pass
                if h != want[0][:7] or tuple(rows) != want[0][9][:len(rows)] or complete and len(rows) != len(want[0][9]):
                    ctx.fail('cut at %d of %s: load(name) shows %s %s, want %s' % (cut, ends, h, rows, want[0]))
                if not complete:
                    try:
                        text = str(st.all)
                    except Exception:
                        text = None
                    if text is not None and text != str(S[0].all):
                        ctx.fail('cut at %d of %s: load(name) is shown as %r' % (cut, ends, text))
            except Exception as e:
                if complete:
                    ctx.fail('cut at %d of %s: load(name) raises %r although the first record is complete' % (cut, ends, e))
            ctx.add('transitions', 3)
        ctx.state(('cut', c))
        if ctx.full:
            return


class Cls(object):
    pass


def run_real(shard, ctx, d):
    """Statistics of real sets: difference, dump and load."""
    pool = [1000, 2.5, 'abc', b'x', (), Cls(), 10 ** 30, Cls]
    fn = os.path.join(d, 'r')
    for er in ('Type', 'Size', 'Clodo', 'Id', 'Type&Size', 'Unity'):
        for m1 in range(0, 256, 5):
            X = hp.iso(*[o for i, o in enumerate(pool) if m1 >> i & 1]).by(er)
            st = X.stat
            for m2 in range(0, 256, 37):
                if not ctx.case('real', er, m1, m2):
                    continue
                Y = hp.iso(*[o for i, o in enumerate(pool) if m2 >> i & 1]).by(er)
                if er == 'Id' and st.numrows and Y.stat.numrows and st.kindheader != Y.stat.kindheader:
                    ctx.raises(ValueError, lambda: X.diff(Y))
                    continue
                if not m1:
                    Y = Y.by(X.er)      # the other set is classified as the first one
                D = X.diff(Y)
                t = {}
                for z, q in ((X, 1), (Y, -1)):
                    for r in z.partition.get_rows():
                        a = t.get(r.name, (0, 0))
                        t[r.name] = a[0] + q * r.count, a[1] + q * r.size
                ctx.eq({r.name: (r.count, r.size) for r in D.get_rows() if r.count or r.size}, {n: v for n, v in t.items() if v != (0, 0)}, 'difference')
                if os.path.exists(fn):
                    os.unlink(fn)
                D.dump(fn)
                st.dump(fn)
                got = list(hp.loadall(fn))
                ctx.eq([fig(g) for g in got], [fig(D), fig(st)], 'dump and load')
                ctx.eq([str(g) for g in got], [str(D), str(st)], 'as shown')
                ctx.eq(fig(got[1] - Y.stat)[9], fig(D)[9], 'difference of the loaded')
                ctx.add('transitions', 2)
    ctx.state('real')
