"""Shortest paths are exactly the shortest paths."""
import itertools, types, sys
from collections import Counter
from gr import World, iso_classes, names, graphs, KEYS, Inst, Slot, SubList
from hps import *
from guppy.sets import ImmNodeSet

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of labelled multigraphs x sources x destinations x avoided nodes and edges, against breadth-first layers computed on the model'
RULE = ('object graphs with parallel edges over several container types; every source set, destination set and avoided set of nodes; every '
        'avoided single edge and edge pair; the path list, count, positive and negative indices, slices, validity of every link and the '
        'value of every printed expression are compared; next longer paths for every choice of levels; ladders with 2**k paths; awkward keys and names')
BOUNDS = dict(quick='3 nodes: multiplicity 0..2 without loops (all src/dst/avoid); 4 nodes: all simple graphs up to isomorphism, single src and all dst; ladders to 2**200',
              thorough='3 nodes: two more type assignments, multiplicity 0..2 with loops; 4 nodes: all src, dst and avoided nodes')
ASSUME = ['classes of the nodes are avoided, so that a search does not leave the small graph',
          'relations that are not Python expressions (->attr, keys()[k]) are exempt from evaluation']




PATH = hp._parent.Path


class LWorld(World):
    """A world whose edges carry the names the paths should print."""

    def __init__(self, n, edges, kinds):
        self.lab = {}
        self.isets = None
        World.__init__(self, n, edges, kinds)
        self.lab = {}
        for i in range(n):
            self._label(i, kinds[i], self.out[i])

    def L(self, i, j, s):
        self.lab.setdefault((i, j), []).append(s)

    def _label(self, i, kind, tgts):
        o = self.objs[i]
        if kind in ('list', 'sublist'):
            for k, j in enumerate(tgts):
                self.L(i, j, '[%d]' % k)
            if kind == 'sublist':
                self.L(i, self.index[id(SubList)], '->ob_type')
        elif kind == 'dict':
            for k, j in enumerate(tgts):
                self.L(i, j, '[%r]' % KEYS[k])
        elif kind == 'nset':
            ids = [id(x) for x in o]
            for j in set(tgts):
                self.L(i, j, ('list', ids.index(id(self.objs[j]))))
        elif kind == 'inst':
            d = self.index[id(o.__dict__)]
            self.L(i, d, '.__dict__')
            self.L(i, self.index[id(Inst)], '->ob_type')
            for k, j in enumerate(tgts):
                self.L(d, j, '[%r]' % KEYS[k])
        elif kind == 'slot':
            self.L(i, self.index[id(Slot)], '->ob_type')
            for k, j in enumerate(tgts):
                self.L(i, j, '.s%d' % k)
        elif kind == 'celllist':
            if len(tgts) == 1:
                self.L(i, tgts[0], '.cell_contents')
            elif tgts:
                l = self.index[id(o.cell_contents)]
                self.L(i, l, '.cell_contents')
                for k, j in enumerate(tgts):
                    self.L(l, j, '[%d]' % k)


def put(s, lab):
    if type(lab) is tuple:
        return 'list(%s)[%d]' % (s, lab[1])
    return s + lab


def mpaths(w, D, S, A=0, AE=()):
    """Shortest paths on the model: (list of (string, nodes), layers, used edges per level)."""
    front = S & ~A
    seen = front | A
    layers = [front]
    while front:
        new = 0
        for u in bits(front):
            for v in bits(w.adj[u] & ~seen):
                if (u, v) not in AE:
                    new |= 1 << v
        seen |= new
        layers.append(new)
        if new & D:
            break
        front = new
    else:
        return [], []
    # backwards
    need = new & D
    lv = []
    for k in range(len(layers) - 2, -1, -1):
        es = [(u, v) for u in bits(layers[k]) for v in bits(w.adj[u] & need) if (u, v) not in AE]
        lv.append(es)
        need = 0
        for u, v in es:
            need |= 1 << u
    lv.reverse()
    ps = [('%s', (u,)) for u in bits(need)]
    for es in lv:
        ps = [(put(s, l), nn + (v,)) for s, nn in ps for u, v in es if u == nn[-1] for l in w.lab[u, v]]
    return ps, lv


def obs(w, p):
    """What is observed of a path."""
    ix = w.index
    nn = []
    for x in p.path[::2]:
        if len(x.nodes) != 1:
            return None
        for o in x.nodes:
            nn.append(ix.get(id(o), -1))
    return p.stra(safe=False), tuple(nn)


def cmp(ctx, w, P, D, S, A=0, AE=(), deep=True, what=''):
    want, lv = mpaths(w, D, S, A, AE)
    got = [obs(w, p) for p in P]
    tag = '%sdst %s src %s avoid %s edges %s: ' % (what, names(w, D), names(w, S), names(w, A), sorted(AE))
    if len(got) != len(want) or Counter(got) != Counter(want):
        ctx.fail(tag + 'paths %s, want %s' % (sorted(map(str, got))[:6], sorted(map(str, want))[:6]))
        return want, lv
    if P.numpaths != len(want):
        ctx.fail(tag + 'numpaths %d, want %d' % (P.numpaths, len(want)))
    n = len(want)
    if deep:
        for k, p in enumerate(P):
            if p.index != k:
                ctx.fail(tag + 'path number %d has index %d' % (k, p.index))
            if len(p) != len(lv):
                ctx.fail(tag + 'length %d, want %d' % (len(p), len(lv)))
            s = p.stra(safe=False)
            src = [o for o in p.src.nodes][0]
            tgt = [o for o in p.tgt.nodes][0]
            if '->' not in s:
                try:
                    v = eval(s.replace('%s', 'SRC', 1), {'SRC': src})
                except Exception as e:
                    v = e
                if v is not tgt:
                    ctx.fail(tag + '%s gives %.60r' % (s, v))
        for k in range(-n, n):
            q = P[k]
            if obs(w, q) != got[k] or q.index != k % n:
                ctx.fail(tag + 'path [%d] is %s (index %d), iteration gives %s' % (k, obs(w, q), q.index, got[k]))
        for k in (n, -n - 1):
            try:
                P[k]
                ctx.fail(tag + '[%d] of %d paths exists' % (k, n))
            except IndexError:
                pass
        for a in range(n + 1):
            for b in (None, a, n, n + 1) if n > 4 else list(range(n + 2)) + [None]:
                r = [obs(w, p) for p in P.iter(a, b)]
                if r != got[a:b]:
                    ctx.fail(tag + 'iter(%r, %r) gives %s' % (a, b, r))
    return want, lv


def sp(w, D, S, A=0, AE=()):
    c = w.isets
    if c is None:
        c = w.isets = {}
    for m in (D, S, A):
        if m not in c:
            c[m] = V.idset(imm(w.objects(m)))
    if AE:
        g = V.nodegraph([(w.objs[u], w.objs[v]) for u, v in AE])
        return PATH.shpaths(c[D], c[S], c[A], g)
    return PATH.shpaths(c[D], c[S], c[A])


def shards(tier):
    m = 32 if tier == 'quick' else 96
    out = [dict(part='multi', k=k, of=m) for k in range(m)]
    out += [dict(part='four', k=k, of=16) for k in range(16)]
    out += [dict(part='edges', k=k, of=16) for k in range(16)]
    out += [dict(part='avoided', k=k, of=16) for k in range(16)]
    out += [dict(part='inst', k=k, of=4) for k in range(4)]
    out += [dict(part='special')]
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def multis(n, loops=False, m=3):
    P = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for mm in itertools.product(range(m), repeat=len(P)):
        yield [p for p, k in zip(P, mm) for _ in range(k)]


def run_multi(shard, ctx):
    n = 3
    kinds = [('list', 'list', 'list'), ('dict', 'celllist', 'list'), ('slot', 'dict', 'sublist')]
    if ctx.tier == 'thorough':
        kinds += [('celllist', 'slot', 'dict'), ('sublist', 'list', 'slot')]
    gs = list(multis(n))
    if ctx.tier == 'thorough':
        gs += [E + [(i, i) for i in range(n)] for E in gs]
    for gi in range(shard['k'], len(gs), shard['of']):
        E = gs[gi]
        for ki, K in enumerate(kinds):
            if not ctx.case('multi', E, K):
                continue
            w = LWorld(n, E, K)
            full = ki == 0 or ctx.tier == 'thorough'
            for S in range(1, 8):
                for D in range(1, 8):
                    for A in ((0, 1, 2, 4, 3, 6) if ctx.tier == 'quick' else range(8)) if full else (0, 2):
                        if not full and S & (S - 1) and D & (D - 1):
                            continue
                        P = sp(w, D, S, A | w.cls)
                        cmp(ctx, w, P, D, S, A | w.cls, deep=A == 0 and (gi + S + D) % 3 == 0 or ctx.tier == 'thorough')
                        ctx.add('transitions', 1)
            ctx.state((tuple(E), K))
            w.dissolve()
            if ctx.full:
                return


def run_four(shard, ctx):
    n = 4
    for E in iso_classes(n, False, True)[shard['k']::shard['of']]:
        for K in (('list',) * 4, ('nset', 'inst', 'slot', 'nset')):
            if not ctx.case('four', E, K):
                continue
            w = LWorld(n, E, K)
            srcs = [1] if ctx.tier == 'quick' else range(1, 16)
            for S in srcs:
                for D in range(1, 16):
                    for A in (0,) if ctx.tier == 'quick' else (0, 1, 2, 4, 8, 6, 12):
                        P = sp(w, D, S, A | w.cls)
                        cmp(ctx, w, P, D, S, A | w.cls)
                        ctx.add('transitions', 1)
            ctx.state((tuple(E), K))
            w.dissolve()
            if ctx.full:
                return


def run_edges(shard, ctx):
    """Avoided edges, one and two of them; parallel edges are avoided together."""
    n = 4
    gs = iso_classes(n, False, True)
    if ctx.tier == 'quick':
        gs = gs[::3]
    for E in gs[shard['k']::shard['of']]:
        if not ctx.case('edges', E):
            continue
        E2 = E + E[::2]
        w = LWorld(n, E2, ('list', 'dict', 'list', 'dict'))
        es = sorted(set(E))
        for k in (1, 2):
            for AE in itertools.combinations(es, k):
                for D in (2, 4, 8, 10, 12, 14):
                    cmp(ctx, w, sp(w, D, 1, 0, AE), D, 1, 0, set(AE), deep=False)
                    ctx.add('transitions', 1)
        ctx.state(('edges', tuple(E)))
        w.dissolve()
        if ctx.full:
            return


def run_avoided(shard, ctx):
    n = 4
    gs = iso_classes(n, False, True)
    if ctx.tier == 'quick':
        gs = gs[1::3]
    for E in gs[shard['k']::shard['of']]:
        if not ctx.case('avoided', E):
            continue
        w = LWorld(n, E, ('list', 'dict', 'list', 'slot'))
        for D in (2, 6, 8):
            for S in (1, 3):
                for A in (0, 4):
                    A |= w.cls
                    chase(ctx, w, sp(w, D, S, A), D, S, A, set(), 0)
                    ctx.add('transitions', 1)
        ctx.state(('avoided', tuple(E)))
        w.dissolve()
        if ctx.full:
            return


def chase(ctx, w, P, D, S, A, AE, depth):
    """Compare, then avoid every choice of levels, repeatedly."""
    want, lv = cmp(ctx, w, P, D, S, A, AE, deep=False, what='level %d: ' % depth)
    if not want or depth == 3:
        return
    used = 0
    ends = 0
    for s, nn in want:
        used |= 1 << nn[0]
        ends |= 1 << nn[-1]
    if (w.mask(P.Src.nodes), w.mask(P.Dst.nodes)) != (used, ends):
        ctx.fail('Src %s Dst %s, want %s %s' % (names(w, w.mask(P.Src.nodes)), names(w, w.mask(P.Dst.nodes)), names(w, used), names(w, ends)))
    for k in range(len(lv)):
        ea = set(tuple(w.index[id(o)] for o in e) for e in P.edges_at(k))
        if ea != set(lv[k]):
            ctx.fail('edges at %d: %s, want %s' % (k, ea, lv[k]))
    choices = [(k,) for k in range(len(lv))] + [(-1,)] + ([(0, len(lv) - 1)] if len(lv) > 1 else [])
    for c in choices:
        AE2 = AE | set(e for k in c for e in lv[k])
        chase(ctx, w, P.avoided(*c), ends, used, A, AE2, depth + 1)
    # the first paths are what they were
    cmp(ctx, w, P, D, S, A, AE, deep=False, what='again: ')


def run_inst(shard, ctx):
    """Instances whose dictionary can be seen along with themselves."""
    n = 3
    for E in list(multis(n, False, 2))[shard['k']::shard['of']]:
        if not ctx.case('inst', E):
            continue
        w = LWorld(n, E, ('inst', 'inst', 'list'))
        d = [w.index[id(w.objs[i].__dict__)] for i in (0, 1)]
        for D in (1, 2, 4, 1 << d[0], 1 << d[1], 1 << d[1] | 4):
            for S in (1, 2, 5):
                for A in (0, 1 << d[0], 2):
                    cmp(ctx, w, sp(w, D, S, A | w.cls), D, S, A | w.cls)
                    ctx.add('transitions', 1)
        ctx.state(('inst', tuple(E)))
        w.dissolve()


def check_all(ctx, what, P, n, dst, src, evaluable=True):
    """A path set on objects outside a World: count, indices, printed lines, evaluation."""
    got = [(p.stra(safe=False), tuple(id(o) for x in p.path[::2] for o in x.nodes)) for p in P]
    ctx.eq(len(got), n, what + ': number of paths')
    ctx.eq(len(set(got)), n, what + ': distinct paths')
    ctx.eq(P.numpaths, n, what + ': numpaths')
    for k in range(-n, n):
        q = P[k]
        ctx.eq((q.stra(safe=False), q.index), (got[k][0], k % n), what + ': path [%d]' % k)
    if evaluable:
        for s, nn in got:
            if '->' in s or 'keys()' in s:
                continue
            try:
                v = eval(s.replace('%s', 'SRC', 1), {'SRC': src})
            except Exception as e:
                v = e
            if v is not dst:
                ctx.fail(what + ': %s gives %.60r' % (s, v))
    try:
        text = str(P)
    except Exception as e:
        ctx.fail(what + ': showing the paths raises %r' % e)
    else:
        ctx.eq(len(text.split('\n')), n if n <= 10 else 11, what + ': lines')
        for k, line in enumerate(text.split('\n')[:10]):
            ctx.eq(line, '%2d: %s' % (k, put('Src', P[k].stra(safe=True)[2:])) if P[k].stra().startswith('%s')
                   else '%2d: %s' % (k, P[k].stra().replace('%s', 'Src', 1)), what + ': line')
    return got


def run_special(shard, ctx):
    H = PATH
    one = lambda o: V.idset(imm([o]))
    # ladders
    for width in (1, 2, 3):
        for k in (1, 2, 3, 5, 64, 200):
            if width == 1 and k > 5:
                continue
            if not ctx.case('ladder', width, k):
                continue
            objs = [[] for _ in range(k + 1)]
            for a, b in zip(objs, objs[1:]):
                a.extend([b] * width)
            P = H.shpaths(one(objs[-1]), one(objs[0]))
            n = width ** k
            ctx.eq(P.numpaths, n, 'numpaths of a ladder')
            probe = sorted(set(x % n for x in [0, 1, 2, n - 1, n - 2, n // 2, n // 2 - 1, n // 3, 12345 % n] + [width ** j for j in range(k)] + [width ** j - 1 for j in range(k)]))
            for x in probe:
                digits = []
                y = x
                for _ in range(k):
                    digits.append(y % width)
                    y //= width
                want = '%s' + ''.join('[%d]' % dgt for dgt in reversed(digits))
                for ix in (x, x - n):
                    q = P[ix]
                    ctx.eq((q.stra(), q.index), (want, x), 'path [%d] of a ladder' % ix)
                it = P.iter(x)
                next(it)
                if x + 1 < n:
                    ctx.eq(next(it).index, x + 1, 'the path after [%d]' % x)
                else:
                    ctx.eq(list(it), [], 'after the last path')
            for ix in (n, -n - 1, n * 2):
                ctx.raises(IndexError, lambda: P[ix])
            ctx.eq(len(list(P.iter(n - 1))), 1, 'iter from the last')
            ctx.add('transitions', 2 * len(probe))
    # unequal branches: sub-counts of different size
    for a, b, c in itertools.product((1, 2, 3), repeat=3):
        if not ctx.case('branch', a, b, c):
            continue
        dst = []
        mids = [[dst] * k for k in (a, b, c)]
        src = list(mids)
        P = H.shpaths(one(dst), one(src))
        got = check_all(ctx, 'branches', P, a + b + c, dst, src)
        ctx.eq([s for s, n in got], ['%%s[%d][%d]' % (i, j) for i, k in enumerate((a, b, c)) for j in range(k)], 'order')
    # awkward names
    dst = []
    for key in ['%', '%s', '%d', '%%', '100%', "a'b", '"', '\n', '', 'x' * 60, '{}', '%(a)s', '[', ']', '.', 'a b', 'é', '\x00']:
        for where in ('dict', 'inst', 'deep', 'instdict'):
            if not ctx.case('key', key, where):
                continue
            if where == 'dict':
                src, n, ev = {key: dst, 'other': dst}, 2, True
            elif where == 'deep':
                src, n, ev = [{key: {key: dst}}], 1, True
            elif where == 'inst':
                src = Inst()
                setattr(src, key, [dst])
                n, ev = 1, True
            else:
                src = Inst()
                setattr(src, key, dst)
                src, n, ev = src.__dict__, 1, True
            avoid = V.idset(imm([Inst]))
            P = H.shpaths(one(dst), one(src), avoid)
            check_all(ctx, 'key %r' % key, P, n, dst, src, ev)
    for name in ['%', '%s', '%%s', 'a%db']:
        if not ctx.case('attr', name):
            continue
        class Ty(object):
            pass
        setattr(Ty, name, dst)
        P = H.shpaths(one(dst), one(Ty))
        check_all(ctx, 'attribute %r' % name, P, P.numpaths, dst, Ty, False)
        m = types.ModuleType('m')
        setattr(m, name, dst)
        P = H.shpaths(one(dst), one(m))
        check_all(ctx, 'module attribute %r' % name, P, 1, dst, m, False)
    # non-string keys, in order
    for keys in itertools.permutations([3, 1, 2]):
        if not ctx.case('keys', keys):
            continue
        src = {k: dst for k in keys}
        got = check_all(ctx, 'int keys', H.shpaths(one(dst), one(src)), 3, dst, src)
        ctx.eq([s for s, n in got], ['%s[1]', '%s[2]', '%s[3]'], 'order')
    for keys in [(1, 'a', (1, 2)), (None, 1.5, 'x', b'y'), (1j, 2j), (frozenset([1]), frozenset([2])), (True, 2)]:
        if not ctx.case('mixed', repr(keys)):
            continue
        src = {k: dst for k in keys}
        check_all(ctx, 'mixed keys', H.shpaths(one(dst), one(src)), len(keys), dst, src)
    # self-containing namespaces
    if ctx.case('selfdict'):
        x = Inst()
        x.me = x.__dict__
        x.v = dst
        avoid = V.idset(imm([Inst]))
        for d, n in ((x.__dict__, None), (dst, None)):
            P = H.shpaths(one(d), one(x), avoid)
            got = [p.stra() for p in P]
            check_all(ctx, 'self-containing dict', P, len(got), d, x)
        m = types.ModuleType('m')
        m.me = m.__dict__
        m.v = dst
        for d in (m.__dict__, dst):
            P = H.shpaths(one(d), one(m))
            check_all(ctx, 'self-containing module', P, len(list(P)), d, m)
        f = types.FunctionType((lambda: 0).__code__, {'__builtins__': {}})
        f.__globals__['__builtins__'] = f.__globals__
        f = types.FunctionType((lambda: 0).__code__, f.__globals__)
        P = H.shpaths(one(f.__globals__), one(f))
        check_all(ctx, 'function', P, len(list(P)), f.__globals__, f)
        c = {}
        c['a'] = c['b'] = c
        c['d'] = dst
        check_all(ctx, 'cyclic dict', H.shpaths(one(dst), one(c)), 1, dst, c)
    # sets
    for n in (1, 2, 3, 5, 9):
        if not ctx.case('set', n):
            continue
        ms = [Inst() for _ in range(n)]
        for s in (set(ms), frozenset(ms), type('S', (set,), {'__slots__': ()})(ms)):
            for m in ms:
                r0 = sys.getrefcount(m)
                P = H.shpaths(one(m), one(s), V.idset(imm([Inst])))
                got = check_all(ctx, 'set', P, 1, m, s)
                ctx.eq([x for x, y in got], ['list(%%s)[%d]' % list(s).index(m)], 'set element')
                del P
                gc.collect()
                ctx.eq(sys.getrefcount(m), r0, 'references after path queries')
    # several destination sets at once are found independently
    for n, E in ((3, [(0, 1), (1, 2)]), (4, [(0, 1), (0, 2), (1, 3), (2, 3)]), (4, [(0, 1), (1, 2), (2, 3), (3, 0)])):
        for D1 in range(1, 1 << n):
            for D2 in range(1, 1 << n):
                if not ctx.case('sets', n, E, D1, D2):
                    continue
                w = LWorld(n, E, ('list',) * n)
                G = H.shpgraph([V.idset(imm(w.objects(D1))), V.idset(imm(w.objects(D2)))], one(w.objs[0]))
                ctx.eq(len(G), 2, 'number of path sets')
                cmp(ctx, w, G[0], D1, 1)
                cmp(ctx, w, G[1], D2, 1)
                w.dissolve()
    # source names
    if ctx.case('names'):
        a = []
        src = [a, a]
        P = PATH.shpgraph([one(a)], one(src), srcname='N%s')[0]
        ctx.eq(str(P), ' 0: N%s[0]\n 1: N%s[1]', 'source name')
        src2 = [a]
        P = PATH.shpaths(one(a), V.idset(imm([src, src2])))
        ctx.eq(P.numpaths, 3, 'two sources')
        ctx.eq(sorted(str(P).split('\n'))[0][:4], ' 0: ', 'first line')
    ctx.state('special')
