"""Paged output is the whole output, in order."""
import itertools, re
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of row counts, page sizes and navigation sequences on the real printers, against the list of rows'
RULE = ('every number of rows and page size up to a bound, with every navigation sequence of more/prev/top/all up to a depth, every node of the navigation '
        'shown in every order of a choice; clients with every combination of optional header, label and message functions; the real clients '
        '(partitions, identity sets, statistics, differences, path sets, reference patterns) with row counts around the page border')
BOUNDS = dict(quick='0..20 rows x page sizes 1..7, navigation depth 6; real clients with 0..34 rows',
              thorough='0..35 rows x page sizes 1..11, navigation depth 8; real clients with 0..60 rows')
ASSUME = ['a page with one single row left after it shows that row as well (as the code documents by doing so for every client)',
          '.prev is asked for on pages reached by .more only; what follows after .all is not defined']


def shards(tier):
    out = [dict(part='nav', k=k, of=8) for k in range(8)]
    out += [dict(part='told', k=k, of=4) for k in range(4)]
    out += [dict(part='clients', k=k, of=8) for k in range(8)]
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


OH = hp._parent.OutputHandling


class Client:
    def __init__(self, rows, page, log=None, **kw):
        self.mod = OH
        self.nlines = 0

        def get_line_iter():
            for r in rows:
                self.nlines += 1
                yield r
        OH.setup_printing(self, get_line_iter=get_line_iter, max_more_lines=page, **kw)


def pages(n, page):
    """Cut n rows into pages: a last single row joins its page."""
    out = []
    at = 0
    while True:
        rest = n - at
        k = rest if rest <= page + 1 else page
        out.append((at, at + k))
        at += k
        if at >= n:
            return out


def run_nav(shard, ctx):
    N, M, D = (21, 8, 6) if ctx.tier == 'quick' else (36, 12, 8)
    cfg = list(itertools.product(range(N), range(1, M), range(4)))
    for n, m, opt in cfg[shard['k']::shard['of']]:
        if not ctx.case('nav', n, m, opt):
            continue
        rows = ['row %d' % k for k in range(n)]
        kw = {}
        if opt & 1:
            kw['get_num_lines'] = lambda: n
            kw['get_label'] = lambda: 'LABEL'
            kw['get_row_header'] = lambda: 'HEAD'
        if opt & 2:
            kw['get_empty_msg'] = lambda: 'EMPTY'
        pg = pages(n, m)

        def expect(k, top, all_=False):
            """Text of page k."""
            if all_:
                a, b = 0, n
            elif k < len(pg):
                a, b = pg[k]
            else:
                a = b = n
            lines = []
            if opt & 1 and top:
                lines.append('LABEL')
            if a == b:
                if opt & 2:
                    lines.append('EMPTY')
            else:
                if opt & 1:
                    lines.append('HEAD')
                lines += rows[a:b]
                if b < n:
                    lines.append("<Lines %d..%d%s. Type e.g. '_.more' for more.>" % (a, b - 1, ' of %d' % n if opt & 1 else ''))
            return '\n'.join(lines)

        # depth-first through all navigation sequences on one client, and again with a fresh client per sequence
        def walk(node, k, path, top):
            want = expect(k, top)
            if repr(node) != want:
                ctx.fail('%s: page %s shows %r, want %r' % (path, k, repr(node), want))
                return
            ctx.add('transitions', 1)
            if repr(node.all) != expect(0, True, True):
                ctx.fail('%s.all shows %r' % (path, repr(node.all)))
            if len(path) == D:
                return
            walk(node.more, k + 1, path + ('more',), False)
            if k:
                walk(node.prev, k - 1, path + ('prev',), k == 1)
                walk(node.top, 0, path + ('top',), True)
        walk(Client(rows, m, **kw), 0, (), True)
        for seq in itertools.product(('more', 'prev', 'top', 'all'), repeat=3):
            c = node = Client(rows, m, **kw)
            k = 0
            al = False
            ok = True
            for s in seq:
                if s == 'prev' and (k == 0 or al) or s == 'more' and al or s == 'top' and node is c:
                    ok = False
                    break
                node = getattr(node, s)
                al = s == 'all'
                k = dict(more=k + 1, prev=k - 1, top=0, all=k)[s]
            if not ok:
                continue
            # only the last page is shown: the ones in between have not been
            want = expect(0, True, True) if al else expect(k, k == 0)
            if str(node) != want:
                ctx.fail('%s unseen: shows %r, want %r' % (seq, str(node), want))
            if c.nlines > n:
                ctx.fail('%s: %d lines taken from the iterator of %d' % (seq, c.nlines, n))
            ctx.eq(repr(c), expect(0, True), '%s then first page' % (seq,))
            ctx.add('transitions', 1)
        ctx.state((n, m, opt))
        # attributes of the client are reached through the pages
        c = Client(rows, m, **kw)
        c.attr = object()
        ctx.check(c.more.attr is c.attr and c.more.more.attr is c.attr and c.all.attr is c.attr, 'attribute of the client')
        ctx.raises(AttributeError, lambda: c.more.nosuch)


def run_told(shard, ctx):
    """Pages that end only where the client says so."""
    N = 8
    for n in range(N):
        for mask in range(1 << n):
            if mask % shard['of'] != shard['k']:
                continue
            for m in (1, 2, 3):
                if not ctx.case('told', n, mask, m):
                    continue
                rows = [('STOP_AFTER', 'row %d' % k) if mask >> k & 1 else 'row %d' % k for k in range(n)]
                c = Client(rows, m, stop_only_when_told=True)
                seen = []
                node = c
                at = 0
                for step in range(n + 1):
                    text = repr(node)
                    lines = text.split('\n') if text else []
                    more = bool(lines) and lines[-1].startswith('<')
                    body = lines[:-1] if more else lines
                    seen += body
                    at += len(body)
                    if more:
                        mm = re.match(r'<Lines (\d+)\.\.(\d+)\. ', lines[-1])
                        if not mm or (int(mm.group(1)), int(mm.group(2))) != (at - len(body), at - 1):
                            ctx.fail('announces %r at rows %d..%d' % (lines[-1], at - len(body), at - 1))
                        if len(body) < m or not mask >> (at - 1) & 1:
                            ctx.fail('page ends after row %d, where it may not' % (at - 1))
                        node = node.more
                    else:
                        break
                    if not body:
                        ctx.fail('empty page')
                        break
                ctx.eq(seen, ['row %d' % k for k in range(n)], 'rows over all pages')
                ctx.eq(repr(c.all).split('\n') if n else [], ['row %d' % k for k in range(n)], 'all rows')
                ctx.add('transitions', 1)
            ctx.state((n, mask))


class L(list):
    __slots__ = ()


def clients(n):
    """Real things with n rows: (name, object, rows, kind of announcement)."""
    yield 'set by id', hp.iso(*[float(k + .5) for k in range(n)]).byid if n != 1 else hp.iso(.5).byid, n
    if n:
        objs = [b'x' * k for k in range(n)]
        yield 'set by size', hp.iso(*objs).bysize, n
        yield 'partition', hp.iso(*objs).bysize.partition, n
        yield 'stat', hp.iso(*objs).bysize.stat, n
        if n > 1:
            yield 'diff', hp.iso(*objs).bysize.diff(hp.iso(objs[0]).bysize), n - 1
        yield 'idstat', hp.iso(*objs).byid.stat, n
        dst = []
        src = [dst] * n
        yield 'paths', hp._parent.Path.shpaths(V.idset(imm([dst])), V.idset(imm([src]))), n
        d = {}
        yield 'loaded', hp.load(list(hp.iso(*objs).bysize.stat.get_trows())), n


def run_clients(shard, ctx):
    N = 35 if ctx.tier == 'quick' else 61
    for n in range(shard['k'], N, shard['of']):
        if not ctx.case('clients', n):
            continue
        for what, c, rows in clients(n):
            first = repr(c)
            # collect by following more
            seen = []
            node = c
            left = None
            for step in range(n + 2):
                lines = repr(node).split('\n') if repr(node) else []
                more = bool(lines) and lines[-1].startswith('<')
                tail = lines.pop() if more else None
                body = [x for x in lines if re.match(r' *\d+[: ]', x)]
                seen += body
                if tail is None:
                    break
                mm = re.match(r"<(\d+) more rows?\. Type e\.g\. '_\.more' to view\.>|<\.\.\. (\d+) more paths \.\.\.>", tail)
                if not mm:
                    ctx.fail('%s of %d rows: ends in %r' % (what, n, tail))
                    break
                left = int(mm.group(1) or mm.group(2))
                if left != rows - len(seen):
                    ctx.fail('%s of %d rows: announces %d more after %d' % (what, n, left, len(seen)))
                if len(body) != 10:
                    ctx.fail('%s of %d rows: page of %d rows' % (what, n, len(body)))
                prev = node
                node = node.more
                ctx.eq(repr(node.prev), repr(prev), what + ': prev')
            nums = [int(re.match(r' *(\d+)', x).group(1)) for x in seen]
            if nums != list(range(rows)):
                ctx.fail('%s of %d rows: rows shown %s' % (what, n, nums))
            al = [x for x in repr(c.all).split('\n') if re.match(r' *\d+[: ]', x)]
            ctx.eq(al, seen, what + ': all')
            if node is not c:
                ctx.eq(repr(node.top), first, what + ': top')
            ctx.eq(repr(c), first, what + ': first page again')
            ctx.add('transitions', 1)
        ctx.state(n)
