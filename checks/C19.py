"""Reference patterns are the tree of the referrers by kind."""
import itertools, re
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small graphs and options, and of sequences of requests, on the real patterns, against a tree that a model derives from the graph'
RULE = ('for every graph, kinds of the nodes, target set and options the rows of the pattern, with their sets, order, depths, marks, back references and names, must be those of the tree that the model derives; '
        'each row is asked for by its number and by its name; every sequence of requests for rows, pages and names gives what was given before and what a fresh pattern gives; '
        'names are those of all short sequences of row numbers from a choice that has all borders')
BOUNDS = dict(quick='all graphs on 3 nodes of 2 kinds, targets of 1 and 2 nodes, depths 0..4; graphs of real objects on 3 nodes; up to 130 rows on a level; 4 requests',
              thorough='all graphs on 3 nodes with 4 classifications, all targets and stop conditions; graphs on 4 nodes with 2 kinds; 5 requests')
ASSUME = ['rows of one size may come in any order', 'a name that is an attribute of the pattern itself, such as bf, is a known finding']

RP = hp._parent.RefPat


class K0:
    __slots__ = 'a', 'b', 'c', 'd', '__weakref__'


class K1:
    __slots__ = 'a', 'b', 'c', 'd', 'e', '__weakref__'


KINDS = K0, K1
FIELDS = 'abcd'


class Graph:
    """Nodes, their kinds, and who refers to whom."""

    def __init__(self, kinds, edges):
        self.objs = [KINDS[k]() for k in kinds]
        self.kinds = kinds
        self.no = {id(x): i for i, x in enumerate(self.objs)}
        n = len(kinds)
        self.preds = [frozenset(i for i in range(n) if (i, j) in edges) for j in range(n)]
        self.calls = 0

    def set(self, xs):
        return hp.idset([self.objs[i] for i in xs])

    def nums(self, s):
        return frozenset(self.no[id(x)] for x in s.nodes)

    def image(self, xs):
        return frozenset(p for x in xs for p in self.preds[x])

    def relimg(self, s):
        self.calls += 1
        return self.set(self.image(self.nums(s)))

    def close(self):
        self.objs = None


def by_kind(g):
    return lambda i: g.kinds[i]


ERS = dict(clodo=(lambda: hp.Clodo, by_kind), id=(lambda: hp.Id, lambda g: lambda i: i), unity=(lambda: hp.Unity, lambda g: lambda i: 0))


def name_of(path):
    """The name of the row that is reached by those numbers."""
    s = ''
    for k, row in itertools.groupby(path):
        n = len(list(row))
        c = chr(ord('a') + k)
        s += c * n if n < 3 else c + str(n)
    return s or '_'


MARK = re.compile(r'\[(\^ (\d+)|R|S|-|\+)\] ')


def verify(rp, g, start, depth, key, stop, nocyc, image, ctx, sizes=None):
    """Compare the rows with the tree; returns the names."""
    rows = []
    while True:
        try:
            rows.append(rp.get_row_indexed(len(rows)))
        except IndexError:
            break
        if len(rows) > 3000:
            ctx.fail('there is no end of rows')
            return []
    sets = [g.nums(r.set) for r in rows]
    at = [0]
    first = {}
    paths = []

    def tree(want, path, above):
        """The rows from here on must be this row and those below."""
        i = at[0]
        if i >= len(rows):
            ctx.fail('the row for %s at %s is missing' % (sorted(want), path))
            raise IndexError
        at[0] += 1
        r = rows[i]
        paths.append(path)
        ctx.check(sets[i] == want, lambda: 'row %d is %s, want %s' % (i, sorted(sets[i]), sorted(want)))
        ctx.check(r.index == i and r.depth == len(path) and r.ixlstr == name_of(path), lambda: 'row %d at %s has index %r, depth %r and name %r' % (i, path, r.index, r.depth, r.ixlstr))
        seen = first.get(want)
        if seen is None:
            first[want] = i
        ctx.check((r.seenline and r.seenline.index) == seen, lambda: 'row %d: seen %r, want %r' % (i, r.seenline and r.seenline.index, seen))
        below = image(want)
        if nocyc:
            below -= want
            for a in above:
                below -= a
        parts = {}
        for x in below:
            parts.setdefault(key(x), set()).add(x)
        stopped = bool(path) and want <= stop
        mark = '^ %d' % seen if seen is not None else 'R' if not below else 'S' if stopped else '-' if len(path) < depth else '+'
        if seen == 0 or mark[0] == '^' and seen == 0:
            mark = '^ 0'
        t = str(r)
        m = MARK.search(t)
        ctx.check(m and m.group(1) == mark, lambda: 'row %d is shown as %r, want the mark %r' % (i, t, mark))
        ctx.check(t.startswith('%2d: %s ' % (i, name_of(path))), lambda: 'row %d is shown as %r' % (i, t))
        c = re.match(r'(\d+) ', t[m.end():]) if m else None
        if c:
            ctx.check(int(c.group(1)) == len(want), lambda: 'row %d is shown as %r, want %d objects' % (i, t, len(want)))
        else:
            ctx.add('rows without a count')
        if seen is None and len(path) < depth and not stopped:
            left = [frozenset(p) for p in parts.values()]
            k = 0
            last = None
            while left:
                if at[0] >= len(rows):
                    ctx.fail('rows %s at %s are missing' % ([sorted(p) for p in left], path))
                    raise IndexError
                p = sets[at[0]]
                if p not in left:
                    ctx.fail('row %d is %s, want one of %s' % (at[0], sorted(p), [sorted(p) for p in left]))
                    raise IndexError
                left.remove(p)
                size = rows[at[0]].set.size
                ctx.check(last is None or size <= last, lambda: 'row %d is bigger than the one before' % at[0])
                last = size
                tree(p, path + (k,), above + (want,))
                k += 1
    try:
        tree(frozenset(start), (), ())
    except IndexError:
        return paths
    ctx.check(at[0] == len(rows), lambda: 'there are %d rows, want %d' % (len(rows), at[0]))
    ctx.add('rows', len(rows))
    ctx.check(len(rp) == len(rows), lambda: 'length %d, want %d' % (len(rp), len(rows)))
    # by number and name
    for i, p in enumerate(paths):
        n = name_of(p)
        for how, s in (('number', rp[i]), ('name', getattr(rp, n)), ('iteration', None)):
            if s is not None:
                ctx.check(g.nums(s) == sets[i], lambda: 'row %d by its %s is %s' % (i, how, sorted(g.nums(s))))
        ctx.check(rp.get_row(n) is rows[i] and rp.get_row(i) is rows[i], lambda: 'row %d is not %r' % (i, n))
        ctx.check(g.nums(rp[i - len(rows)]) == sets[i], lambda: 'row %d is not %d' % (i, i - len(rows)))
    ctx.check([g.nums(s) for s in rp] == sets, 'the iteration is different')
    for bad in [len(rows), len(rows) + 7, -len(rows) - 1]:
        try:
            rp[bad]
        except IndexError:
            pass
        else:
            ctx.fail('there is a row %d' % bad)
    # names that are not there
    have = set(paths)
    for p in paths:
        k = 0
        while p + (k,) in have:
            k += 1
        try:
            x = getattr(rp, name_of(p + (k,)))
        except AttributeError:
            pass
        else:
            ctx.fail('there is a row %r' % name_of(p + (k,)))
    return paths


def edges_of(n, m):
    es = [(i, j) for i in range(n) for j in range(n)]
    return frozenset(e for k, e in enumerate(es) if m >> k & 1)


def graphs(shard, ctx):
    full = ctx.tier == 'thorough'
    for n in (3, 4):
        if n == 4 and not full:
            continue
        for m in range(1 << n * n):
            if m % shard['of'] != shard['k']:
                continue
            if n == 4 and m >> 4 & 0xf0f0 & ~m & 0x0f0f:
                continue        # (a half of them)
            es = edges_of(n, m)
            for kinds in (((0, 0, 1), (0, 1, 1), (0, 0, 0), (0, 1, 0)) if full and n == 3 else ((0, 0, 1), (0, 1, 0)) if n == 3 else ((0, 1, 0, 1),)):
                for start in (((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)) if full and n == 3 else ((0,), (1,), (0, 2), (0, 1, 2)) if n == 3 else ((0,),)):
                    for depth in ((0, 1, 2, 3, 5) if full and n == 3 else (m % 3, 4) if n == 3 else (4,)):
                        for stop in ((None, 0, 1) if full and n == 3 else (None, m & 1) if depth == 4 else (None,)):
                            for nocyc in (False, True):
                                for er in ERS if full and n == 3 else ('clodo', 'id') if depth == 4 and stop is None else ('clodo',):
                                    if ctx.case('graph', m, kinds, start, depth, stop, nocyc, er):
                                        graph(n, es, kinds, start, depth, stop, nocyc, er, ctx)


def graph(n, es, kinds, start, depth, stop, nocyc, er, ctx):
    g = Graph(kinds, es)
    sk = hp.Nothing if stop is None else hp.Type(KINDS[stop])
    rp = RP.rp(g.set(start), depth=depth, er=ERS[er][0](), stopkind=sk, nocyc=nocyc, ref=g.relimg)
    verify(rp, g, start, depth, ERS[er][1](g), frozenset(i for i in range(n) if kinds[i] == stop), nocyc, g.image, ctx)
    g.close()


# ------------------------------------------------------------- real objects

def real(shard, ctx):
    n = 3
    for m in range(1 << n * n):
        if m % shard['of'] != shard['k']:
            continue
        es = edges_of(n, m)
        for kinds in ((0, 0, 1), (0, 1, 1)) if (ctx.tier == 'thorough') else ((0, 0, 1),):
            for start in ((0,), (1,), (0, 2)) if (ctx.tier == 'thorough') else ((1,), (0, 2)):
                for how in ('referrers', 'gc', 'imdom', 'attribute'):
                    if ctx.case('real', m, kinds, start, how):
                        real_graph(n, es, kinds, start, how, ctx)


def direct(n, succ, root, refs):
    """The referrers that are reached without any other of them."""
    seen = set()
    todo = [root]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x not in refs:
                todo += succ[x]
    return frozenset(seen & refs)


def real_graph(n, es, kinds, start, how, ctx):
    g = Graph(kinds, es)
    for i, x in enumerate(g.objs):
        for j in range(n):
            if (i, j) in es:
                setattr(x, FIELDS[j], g.objs[j])
    # The root is a tuple with the first two of them
    root = (g.objs[0], g.objs[1])
    g.no[id(root)] = n
    objs = g.objs + [root]
    g.objs = objs
    succ = [[j for j in range(n) if (i, j) in es] for i in range(n)] + [[0, 1]]
    live = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x not in live:
            live.add(x)
            todo += succ[x]
    old = V.root
    V.root = root
    try:
        X = g.set(start)
        kw = dict(depth=4, stopkind=hp.Nothing)
        if how == 'imdom':
            rp = RP.rp(X, imdom=1, **kw)

            def image(xs):
                return direct(n + 1, succ, n, frozenset(i for i in live for x in xs if x in succ[i]))
        elif how == 'gc':
            def ref(s):
                return s.referrers_gc & hp.idset(g.objs)
            rp = RP.rp(X, ref=ref, **kw)

            def image(xs):
                return frozenset(i for i in range(n + 1) for x in xs if x in succ[i])
        else:
            if how == 'attribute':
                rp = X.rp
                rp.depth, rp.stopkind = 4, hp.Nothing
                rp.reset()
            else:
                rp = RP.rp(X, **kw)

            def image(xs):
                return frozenset(i for i in live for x in xs if x in succ[i])
        verify(rp, g, start, 4, lambda i: 2 if i == n else kinds[i], frozenset(), False, image, ctx)
        rp = X = None
        V.clear_retainers() if hasattr(V, 'clear_retainers') else None
    finally:
        V.root = old
        for x in g.objs[:n]:
            for f in FIELDS:
                if hasattr(x, f):
                    delattr(x, f)
        g.close()


# ------------------------------------------------------------------- names

class Node:
    __slots__ = 'path', 'size', '__weakref__'


OWN = set()


def names(shard, ctx):
    """A tree whose rows have all the names."""
    wide = [1, 2, 3, 4, 10, 26, 27, 60, 82, 83, 89, 90, 95, 110, 130]
    if shard['k'] == 0:
        for w in wide:
            for w2 in (1, 2, 12):
                if ctx.case('wide', w, w2):
                    wide_tree(w, w2, ctx)
        for d in range(0, 131 if (ctx.tier == 'thorough') else 40):
            if ctx.case('deep', d):
                deep_tree(d, ctx)
    pick = [0, 1, 5, 25, 26, 76, 81, 82, 88, 90]
    from guppy.heapy.RefPat import str_as_ixl, ixl_as_str
    for n in range(7 if (ctx.tier == 'thorough') else 6):
        for seq in itertools.product(pick, repeat=n):
            if hash(seq) % shard['of'] != shard['k']:
                continue
            if not ctx.case('name', seq):
                return
            s = ixl_as_str(list(seq))
            ctx.check(s == name_of(seq), lambda: 'the name is %r' % s)
            ctx.check(str_as_ixl(s) == list(seq), lambda: 'the name %r leads to %r' % (s, str_as_ixl(s)))
    for k in range(1, 40):
        for a in (0, 1, 82):
            for j in (0, 1, 2, 3, 9, 10, 11, 12, 100, 123):
                seq = (a,) * k + (a + 1,) * j
                if k % shard['of'] == shard['k'] and ctx.case('long name', seq):
                    s = ixl_as_str(list(seq))
                    ctx.check(s == name_of(seq) and str_as_ixl(s) == list(seq), lambda: 'the name %r leads to %r' % (s, str_as_ixl(s)))


class Tree:
    def __init__(self, widths):
        self.nodes = [Node()]
        self.nodes[0].path = ()
        self.kids = {(): []}
        level = [()]
        for w in widths:
            nxt = []
            for p in level:
                for i in range(w(p) if callable(w) else w):
                    x = Node()
                    x.path = p + (i,)
                    self.nodes.append(x)
                    self.kids[p].append(x)
                    self.kids[x.path] = []
                    nxt.append(x.path)
            level = nxt

    def relimg(self, s):
        return hp.idset([y for x in s.nodes for y in self.kids[x.path]])


def tree_names(t, depth, ctx):
    rp = RP.rp(hp.iso(t.nodes[0]), depth=depth, er=hp.Id, stopkind=hp.Nothing, ref=t.relimg)
    n = len(rp)
    ctx.check(n == len(t.nodes), lambda: '%d rows, want %d' % (n, len(t.nodes)))
    seen = set()
    for i in range(n):
        row = rp.get_row_indexed(i)
        name = row.ixlstr
        ctx.check(name not in seen, lambda: 'there are two rows %r' % name)
        seen.add(name)
        ctx.check(rp.get_row_named(name) is row, lambda: 'row %d is not %r' % (i, name))
        key = None
        if name in ('er', 'bf', 'lg'):
            key = 'row-name-is-attribute'
        try:
            s = getattr(rp, name)
            ok = s.nodes == row.set.nodes
        except (AttributeError, TypeError):
            ok = False
        ctx.check(ok, lambda: 'row %d is not the attribute %r' % (i, name), key=key)
        ctx.check(str(row).startswith('%2d: %s ' % (i, name)), lambda: 'row %d is shown as %r' % (i, str(row)))
    ctx.add('names', n)


def wide_tree(w, w2, ctx):
    tree_names(Tree([w, lambda p: w2 if p[-1] in (0, 1, 4, 11, 81, 82, 88) else 0]), 3, ctx)


def deep_tree(d, ctx):
    t = Tree([1] * d)
    tree_names(t, d, ctx)
    if d:
        rp = RP.rp(hp.iso(t.nodes[0]), depth=d - 1, er=hp.Id, stopkind=hp.Nothing, ref=t.relimg)
        ctx.check(len(rp) == d, lambda: '%d rows at depth %d' % (len(rp), d - 1))


# ---------------------------------------------------------------- requests

REQUESTS = dict(
    first=lambda s: s.rp[0], fourth=lambda s: s.rp[3], last=lambda s: s.rp[-1], name=lambda s: s.rp.aa, deep=lambda s: s.rp.aaa, other=lambda s: s.rp.b, none=lambda s: s.rp.aaab,
    show=lambda s: s.page(str(s.rp)), more=lambda s: s.page(str(s.pages[-1].more)) if s.pages else s.page(str(s.rp.more)), step=lambda s: next(s.it), step2=lambda s: next(s.it2),
    length=lambda s: len(s.rp), reset=lambda s: s.rp.reset())


class Session:
    def __init__(self, m):
        self.g = Graph((0, 1, 0), edges_of(3, m))
        self.rp = RP.rp(self.g.set((0,)), depth=5, er=hp.Clodo, stopkind=hp.Nothing, ref=self.g.relimg)
        self.rp.printer.max_more_lines = 3 if hasattr(self.rp, 'printer') else None
        self.it = iter(self.rp)
        self.it2 = iter(self.rp)
        self.pages = []

    def page(self, t):
        return t


def plain(g, t):
    t = re.sub('0x[0-9a-f]+', lambda m: '#%d' % g.no[int(m.group(), 16)], t)
    return re.sub('#\\d(, #\\d)+', lambda m: ', '.join(sorted(m.group().split(', '))), t)


def norm(g, x):
    if x is None or isinstance(x, (int, str)):
        return x
    return g.nums(x)


def requests(shard, ctx):
    depth = 5 if (ctx.tier == 'thorough') else 4
    for m in (0o421, 0o777, 0o124, 0o672, 0o356):
        ref = Session(m)
        rows = [ref.g.nums(s) for s in ref.rp]
        lines = [plain(ref.g, str(r)) for r in ref.rp.lines]
        byname = {r.ixlstr: s for r, s in zip(ref.rp.lines, rows)}
        ref.g.close()
        for seq in itertools.product([r for r in REQUESTS if r != 'more'], repeat=depth if m == 0o777 or (ctx.tier == 'thorough') else 3):
            if hash_of(seq) % shard['of'] != shard['k']:
                continue
            if ctx.case('requests', m, seq):
                s = Session(m)
                at = {'step': 0, 'step2': 0}
                for r in seq:
                    try:
                        x = norm(s.g, REQUESTS[r](s))
                    except (IndexError, AttributeError, StopIteration) as e:
                        x = type(e)
                    if r in at:
                        w = rows[at[r]] if at[r] < len(rows) else StopIteration
                        at[r] += 1
                    elif r in ('first', 'fourth', 'last'):
                        k = dict(first=0, fourth=3, last=-1)[r]
                        w = rows[k] if k < len(rows) else IndexError
                    elif r in ('name', 'deep', 'other', 'none'):
                        w = byname.get(name_of(dict(name=(0, 0), deep=(0, 0, 0), other=(1,), none=(0, 0, 0, 1))[r]), AttributeError)
                    elif r == 'length':
                        w = len(rows)
                    elif r == 'reset':
                        w = None
                    else:
                        got = [l for l in plain(s.g, x).split('\n') if MARK.search(l)]
                        ctx.check(got == lines[:len(got)], lambda: 'shown %r, want %r' % (got, lines))
                        continue
                    ctx.check(x == w, lambda: '%s gives %r, want %r' % (r, x, w))
                have = [plain(s.g, str(r)) for r in s.rp.lines]
                ctx.check(have == lines[:len(have)], lambda: 'rows %r, want %r' % (have, lines))
                s.g.close()
                ctx.add('requests', len(seq))


def hash_of(seq):
    return sum((i + 1) * (i + 3) * len(r) * ord(r[0]) for i, r in enumerate(seq))


def shards(tier):
    return ([dict(part='graphs', k=k, of=16) for k in range(16)] + [dict(part='real', k=k, of=8) for k in range(8)] +
            [dict(part='names', k=k, of=4) for k in range(4)] + [dict(part='requests', k=k, of=8) for k in range(8)])


def run(shard, ctx):
    gc.freeze()
    globals()[shard['part']](shard, ctx)
