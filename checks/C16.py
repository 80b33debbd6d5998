"""Partition tables add up."""
import itertools, sys, re
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of small multisets of types and sizes, and of all indices and slices, against tables computed by definition'
RULE = ('every multiset of up to two objects for each of the type/size combinations; every classifier; row figures, order, totals, percentages of the '
        'printed table, every index, every slice, row lookup by kind; the same for the statistics taken of the partition, whose rows are also '
        'selected, sliced, looked up by kind and cut off with an "other" row')
BOUNDS = dict(quick='2 types x 3 sizes and 3 types x 2 sizes with multiplicities 0..2 (1458 sets); all slices with |step| <= 3 for sets of up to 6 objects',
              thorough='2 types x 3 sizes, 3 types x 2 sizes, multiplicities 0..3; slices for up to 9 objects')
ASSUME = ['sizes are those the objects report through __sizeof__ (sys.getsizeof)']


class A(int):
    __slots__ = ()

    def __sizeof__(self):
        return int(self) % 100


class B(A):
    __slots__ = ()


class C(A):
    __slots__ = ()


def shards(tier):
    m = 16 if tier == 'quick' else 64
    out = [dict(part='table', u=u, k=k, of=m) for u in (0, 1) for k in range(m)]
    out += [dict(part='slices', u=u, k=k, of=8) for u in (0, 1) for k in range(8)]
    out += [dict(part='stat', u=u, k=k, of=8) for u in (0, 1) for k in range(8)]
    out += [dict(part='builtin')]
    return out


UNI = [[(A, 0), (A, 5), (A, 10), (B, 0), (B, 5), (B, 10)],
       [(A, 7), (A, 20), (B, 7), (B, 20), (C, 7), (C, 20)]]


def sets(u, top):
    for m in itertools.product(range(top + 1), repeat=len(UNI[u])):
        objs = [t(s + 100 * (k + 1)) for (t, s), c in zip(UNI[u], m) for k in range(c)]
        yield m, objs


ERS = ['Type', 'Size', 'Unity', 'Clodo', 'Id', 'Type&Size', 'Size&Type', 'Id&Type']


def keyof(er):
    size = sys.getsizeof
    return dict(Type=type, Size=size, Unity=lambda o: 0, Clodo=type, Id=id).get(er) or \
        {'Type&Size': lambda o: (type(o), size(o)), 'Size&Type': lambda o: (type(o), size(o)), 'Id&Type': id}[er]


def classes(objs, er):
    k = keyof(er)
    d = {}
    for o in objs:
        d.setdefault(k(o), []).append(o)
    return sorted((frozenset(map(id, v)) for v in d.values()), key=sorted)


def ids(s):
    return frozenset(id(o) for o in s.nodes)


def tables(ctx, objs, er, x):
    """The partition against the definition; returns the rows."""
    size = {id(o): sys.getsizeof(o) for o in objs}
    P = x.partition
    rows = list(P.get_rows())
    got = [ids(r.set) for r in rows]
    want = classes(objs, er)
    if sorted(got, key=sorted) != want:
        ctx.fail('%s: rows are not the classes' % er)
        return rows
    tot = sum(size.values())
    n = len(objs)
    ctx.eq((P.count, P.size, P.numrows, x.count, x.size, len(x)), (n, tot, len(rows), n, tot, len(rows)), er + ': totals')
    cum = 0
    last = None
    for k, r in enumerate(rows):
        s = sum(size[i] for i in got[k])
        cum += s
        if (r.count, r.size, r.index, r.cumulsize) != (len(got[k]), s, k, cum):
            ctx.fail('%s: row %d is %s, want %s' % (er, k, (r.count, r.size, r.index, r.cumulsize), (len(got[k]), s, k, cum)))
        if last is not None and (last[0] < s or last[0] == s and er not in ('Id', 'Id&Type') and last[1] > r.name):
            ctx.fail('%s: rows %d and %d are out of order: %s %s' % (er, k - 1, k, last, (s, r.name)))
        last = s, r.name
        if not er.startswith('Id'):
            # the kind of the row selects the row
            sel = x & r.kind
            if ids(sel) != got[k]:
                ctx.fail('%s: selecting kind %s gives other objects' % (er, r.kind))
    return rows


PART = re.compile(r'Partition of a set of (\d+) objects?\. Total size = (\d+) bytes\.')
IDP = re.compile(r'Set of (\d+) .* objects?\. Total size = (\d+) bytes\.')


def pct(a, b):
    return a * 100.0 / b if b else 0.0


def shown(ctx, text, rows, n, tot, ident, what):
    lines = text.split('\n')
    m = (IDP if ident else PART).match(lines[0])
    if not m:
        ctx.fail('%s: label %r' % (what, lines[0]))
        return
    ctx.eq((int(m.group(1)), int(m.group(2))), (n, tot), what + ': label')
    body = lines[2:] if len(lines) > 1 else []
    if len(body) != len(rows):
        ctx.fail('%s: %d lines for %d rows' % (what, len(body), len(rows)))
        return
    for line, r in zip(body, rows):
        f = line.split()
        if ident:
            want = [r.index, r.size, '%.1f' % pct(r.size, tot), r.cumulsize, '%.1f' % pct(r.cumulsize, tot)]
        else:
            want = [r.index, r.count, '%.0f' % pct(r.count, n), r.size, '%.0f' % pct(r.size, tot), r.cumulsize, '%.0f' % pct(r.cumulsize, tot)]
        if f[:len(want)] != list(map(str, want)):
            ctx.fail('%s: line %r, want %s' % (what, line, want))


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def run_table(shard, ctx):
    u = shard['u']
    for si, (m, objs) in enumerate(sets(u, 2 if ctx.tier == 'quick' else 3)):
        if si % shard['of'] != shard['k']:
            continue
        if not ctx.case('table', u, m):
            continue
        base = hp.iso(*objs)
        tot = sum(sys.getsizeof(o) for o in objs)
        ctx.eq(base.size, tot, 'size of the set')
        for er in ERS:
            x = base.by(er)
            rows = tables(ctx, objs, er, x)
            if not objs:
                continue
            shown(ctx, str(x.all), rows, len(objs), tot, er.startswith('Id') and er == 'Id', er)
            st = x.stat
            srows = list(st.get_rows())
            if [(r.count, r.size, r.name, r.index, r.cumulsize) for r in srows] != [(r.count, r.size, r.name, r.index, r.cumulsize) for r in rows]:
                ctx.fail('%s: rows of .stat differ' % er)
            ctx.eq((st.count, st.size, st.numrows, len(st)), (len(objs), tot, len(rows), len(rows)), er + ': stat totals')
            ctx.eq(str(st.all), str(x.all), er + ': stat as shown')
            n = len(rows)
            for i in range(-n - 2, n + 2):
                for what, f in (('x[i]', lambda i: x[i]), ('parts', lambda i: x.parts[i] if n < 4 else x[i])):
                    try:
                        r = f(i)
                    except IndexError:
                        r = None
                    want = ids(rows[i].set) if -n <= i < n else None
                    if (r if r is None else ids(r)) != want:
                        ctx.fail('%s: %s with i=%d gives other objects' % (er, what, i))
            ctx.add('transitions', 2 * n + 4)
        ctx.state((u, m))
        if ctx.full:
            return


def run_slices(shard, ctx):
    u = shard['u']
    lim = 6 if ctx.tier == 'quick' else 9
    for si, (m, objs) in enumerate(sets(u, 2)):
        if si % shard['of'] != shard['k'] or not 0 < len(objs) <= lim or (ctx.tier == 'quick' and si % 3):
            continue
        if not ctx.case('slices', u, m):
            continue
        base = hp.iso(*objs)
        for er in ('Id', 'Type&Size', 'Type'):
            # a fresh partition per bound, as the identity partition sorts lazily
            rows = [ids(r.set) for r in base.by(er).partition.get_rows()]
            n = len(rows)
            bounds = [None] + list(range(-n - 1, n + 2))
            x = hp.iso(*objs).by(er)
            for step in (None, 1, 2, 3):
                for a in bounds:
                    for b in bounds:
                        want = frozenset().union(*rows[a:b:step])
                        got = ids(x[a:b:step])
                        if got != want:
                            ctx.fail('%s: [%r:%r:%r] gives %d objects, want %d' % (er, a, b, step, len(got), len(want)))
            # the first question asked of a fresh partition
            for a in range(n):
                for b in range(a + 1, n + 1):
                    y = hp.iso(*objs).by(er)
                    if ids(y[a:b]) != frozenset().union(*rows[a:b]):
                        ctx.fail('%s: fresh [%d:%d]' % (er, a, b))
                    if ids(y[-1]) != rows[-1] or ids(y[0]) != rows[0]:
                        ctx.fail('%s: fresh [%d:%d] then ends' % (er, a, b))
            for step in (-1, 0, -2):
                ctx.raises(ValueError, lambda: x[::step])
            for k in range(n + 2):
                got = [ids(r.set) for r in x.partition.get_rows(k)]
                ctx.eq(got, rows[k:], er + ': get_rows(%d)' % k)
            ctx.eq([ids(s) for s in x.partition], rows, er + ': iteration')
            ctx.eq([ids(s) for s in x.parts], rows, er + ': parts')
            ctx.add('transitions', len(bounds) ** 2 * 4)
        ctx.state(('s', u, m))
        if ctx.full:
            return


def fig(r):
    return r.count, r.size, r.name


def run_stat(shard, ctx):
    u = shard['u']
    for si, (m, objs) in enumerate(sets(u, 2)):
        if si % shard['of'] != shard['k'] or not objs or (ctx.tier == 'quick' and si % 4):
            continue
        if not ctx.case('stat', u, m):
            continue
        x = hp.iso(*objs).by('Type&Size')
        for st in (x.stat, hp.load(list(x.stat.get_trows())), x.stat[:], x.diff(hp.iso().by('Type&Size'))):
            rows = [fig(r) for r in st.get_rows()]
            n = len(rows)
            size = sum(r[1] for r in rows)
            count = sum(r[0] for r in rows)
            ctx.eq((st.count, st.size, len(st)), (count, size, n), 'totals of stat')
            for i in range(-n - 2, n + 2):
                try:
                    got = [fig(r) for r in st[i].get_rows()]
                except IndexError:
                    got = None
                ctx.eq(got, [rows[i]] if -n <= i < n else None, 'stat[%d]' % i)
            bounds = [None, -n - 1, -2, -1, 0, 1, 2, n - 1, n, n + 1]
            for a in bounds:
                for b in bounds:
                    for step in (None, 1, 2, -1, -2):
                        s = st[a:b:step]
                        got = list(s.get_rows())
                        want = rows[a:b:step]
                        if [fig(r) for r in got] != want:
                            ctx.fail('stat[%r:%r:%r] = %s, want %s' % (a, b, step, [fig(r) for r in got], want))
                        cum = 0
                        for k, r in enumerate(got):
                            cum += r.size
                            if (r.index, r.cumulsize) != (k, cum):
                                ctx.fail('stat[%r:%r:%r]: row %d has index %r, cumulative size %r, want %r' % (a, b, step, k, r.index, r.cumulsize, cum))
                        if (s.count, s.size, len(s)) != (sum(r[0] for r in want), sum(r[1] for r in want), len(want)):
                            ctx.fail('stat[%r:%r:%r]: totals' % (a, b, step))
            for k in range(n + 2):
                ctx.eq([fig(r) for r in st.get_rows(k)], rows[k:], 'stat.get_rows(%d)' % k)
            for k in (n, n + 1):
                ctx.raises(IndexError, lambda: st.get_row(k))
            # lookup by kind
            kinds = [r[2] for r in rows] + ['no such']
            for q in range(1, 4):
                for sel in itertools.permutations(kinds, q):
                    got = st.get_rows_of_kinds(list(sel))
                    want = [next((r for r in rows if r[2] == k), None) for k in sel]
                    if [g and fig(g) for g in got] != want:
                        ctx.fail('rows of kinds %s: %s, want %s' % (sel, got, want))
                if len(kinds) > 5:
                    break
            ctx.eq(st.get_rows_of_kinds([]), [], 'no kinds')
            # other
            for N in range(n + 2):
                for by, f in (('Size', 1), ('Count', 0)):
                    got = [fig(r) for r in st.get_rows_n_and_other(N, by)]
                    srt = sorted(rows, key=lambda r: -r[f]) if by == 'Count' else rows
                    want = srt[:N]
                    if N < n:
                        o = (sum(r[0] for r in srt[N:]), sum(r[1] for r in srt[N:]), '<Other>')
                        at = next((k for k, r in enumerate(want) if r[f] < o[f]), len(want))
                        want = want[:at] + [o] + want[at:]
                    if got != want:
                        ctx.fail('%d rows and other by %s: %s, want %s' % (N, by, got, want))
            ctx.raises(ValueError, lambda: st.get_rows_n_and_other(1, 'Name'))
            ctx.add('transitions', 500)
        ctx.state(('stat', u, m))
        if ctx.full:
            return


def run_builtin(shard, ctx):
    """Order and figures for built-in values, and rows at the borders of pages and clusters."""
    pools = [[float(k) for k in range(6)], ['', 'a', 'b', 'ab', 'ba', 'abc'], [10 ** 3, 10 ** 4, 10 ** 5, 2 ** 40, 2 ** 70, 2 ** 71],
             [b'', b'x', b'y', b'xy'], [1j, 2j, 3 + 1j, 1 + 3j], [(), (1,), (2,), (1, 2)], [None, True, Ellipsis], [1.5, 'a', 1000, b'x', 2j, ()],
             [float('nan'), 1.0, float('inf'), -0.0]]
    for pi, pool in enumerate(pools):
        for k in range(1, len(pool) + 1):
            for sub in itertools.combinations(range(len(pool)), k):
                if not ctx.case('builtin', pi, sub):
                    continue
                objs = [pool[i] for i in sub]
                for er in ('Id', 'Size', 'Type', 'Type&Size'):
                    x = hp.iso(*objs).by(er)
                    rows = tables(ctx, objs, er, x)
                    tot = sum(map(sys.getsizeof, objs))
                    if not any(type(o) is str for o in objs):
                        shown(ctx, str(x.all), rows, len(objs), tot, er == 'Id', er)
                    if er == 'Id' and pi < 4:
                        got = [r.set.theone for r in rows]
                        want = sorted(objs, key=lambda o: (-sys.getsizeof(o), o))
                        ctx.eq(got, want, 'order by identity')
                    for i in range(-len(rows) - 2, len(rows) + 2):
                        try:
                            got = ids(x[i])
                        except IndexError:
                            got = None
                        ctx.eq(got, ids(rows[i].set) if -len(rows) <= i < len(rows) else None, '%s: [%d]' % (er, i))
                    ctx.add('transitions', 1)
    ctx.state('builtin')
