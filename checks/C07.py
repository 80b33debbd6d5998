"""A node graph is the multimap of its edges."""
import itertools
from ns import universe, subsets, gen, Boom, BadIter, H
from guppy.heapy.heapyc import NodeGraph
from guppy.sets import ImmNodeSet, MutNodeSet

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of operation histories on the real node graph against an edge-set model'
RULE = ('every operation sequence up to the depth (edge additions in every form, assignment, inversion, clearing, lookups and '
        'iteration, which trigger the lazy sort), every edge relation over 3 nodes in several insertion orders with every '
        'derived operation and argument set, every vector of per-source edge counts; answers compared with a set of edges')
BOUNDS = dict(quick='histories: depth 4 over 2 nodes, depth 3 over 3 nodes; all 512 relations over 3 nodes; region shapes {0..2}^6',
              thorough='histories: depth 5 over 2 nodes, depth 4 over 3 nodes; all 512 relations over 3 nodes; region shapes {0..3}^7')
ASSUME = ['a tuple assigned with repeated targets may be counted with or without the repetition until the next sort',
          'as_flat_list lists the edges as stored and may repeat an edge']


class SubNG(NodeGraph):
    pass


def shards(tier):
    q = tier == 'quick'
    out = []
    for k in range(8):
        out.append(dict(part='hist', n=2, depth=4 if q else 5, k=k, of=8))
        out.append(dict(part='hist', n=3, depth=3 if q else 4, k=k, of=8))
        out.append(dict(part='rel', k=k, of=8))
        out.append(dict(part='shape', n=6 if q else 7, m=3 if q else 4, k=k, of=8))
    out.append(dict(part='grow'))
    out.append(dict(part='bad'))
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def idx(U):
    return {id(o): i for i, o in enumerate(U)}


def edges_of(ng, U):
    d = idx(U)
    return [(d[id(a)], d[id(b)]) for a, b in ng]


def nodes_of(ns, U):
    d = idx(U)
    r = [d[id(a)] for a in ns]
    assert len(r) == len(set(r))
    return frozenset(r)


def check_graph(ctx, ng, E, U, what, mapping=False, loose=False):
    es = edges_of(ng, U)
    ok = ctx.check(frozenset(es) == E and (loose or len(es) == len(E)), lambda: '%s: edges %s, want %s' % (what, es, sorted(E)))
    ctx.check(loose or len(ng) == len(E), lambda: '%s: len %d, want %d' % (what, len(ng), len(E)))
    ctx.check(bool(ng.is_mapping) == mapping, 'is_mapping')
    for i, o in enumerate(U):
        w = sorted(b for a, b in E if a == i)
        if mapping:
            if len(w) == 1:
                ctx.check(ng[o] is U[w[0]], lambda: '%s: lookup of %d' % (what, i))
            else:
                ctx.raises(ValueError if w else KeyError, ng.__getitem__, o)
        else:
            t = ng[o]
            g = sorted(idx(U)[id(x)] for x in t)
            ctx.check(type(t) is tuple and (g == w or loose and sorted(set(g)) == w), lambda: '%s: lookup of %d gives %s, want %s' % (what, i, g, w))
    return ok


def alphabet(n):
    ops = [('clear',), ('invert',), ('len',), ('iter',), ('copy',), ('inverted',), ('self',), ('list',)]
    for i in range(n):
        ops.append(('get', i))
        ops.append(('n1', tuple(range(n)), i))
        ops.append(('upd', tuple((i, j) for j in range(n))))
        ops.append(('set', i, 'rot'))
        ops.append(('set', i, 'all0'))
        ops.append(('set', i, 'long'))
        for j in range(n):
            ops.append(('add', i, j))
    ops.append(('updfail', ((0, 0), (n - 1, 0))))
    return ops


class R:
    def __init__(self, ctx, U, mapping):
        self.ctx, self.U, self.mapping = ctx, U, mapping
        self.ng = NodeGraph([], mapping)
        self.E = frozenset()
        self.snaps = []
        self.iters = []
        self.loose = False

    def step(self, op):
        ctx, U, ng, E = self.ctx, self.U, self.ng, self.E
        k = op[0]
        grew = True
        if k == 'add':
            r = ng.add_edge(U[op[1]], U[op[2]])
            ctx.check(r is None, 'result')
            self.E = E | {(op[1], op[2])}
        elif k == 'n1':
            ng.add_edges_n1(gen([U[i] for i in op[1]]), U[op[2]])
            self.E = E | {(i, op[2]) for i in op[1]}
        elif k == 'upd':
            ng.update([(U[a], U[b]) for a, b in op[1]])
            self.E = E | set(op[1])
        elif k == 'updfail':
            ctx.raises(Boom, ng.update, gen([(U[a], U[b]) for a, b in op[1]], 1))
            self.E = E | {op[1][0]}
        elif k == 'clear':
            ng.clear()
            self.E = frozenset()
            self.loose = False
        elif k == 'invert':
            ng.invert()
            self.E = frozenset((b, a) for a, b in E)
        elif k == 'len':
            n = len(ng)
            ctx.check(n == len(E) or self.loose, lambda: 'len %d' % n)
            grew = False
        elif k == 'list':
            l = ng.as_flat_list()
            d = idx(U)
            ctx.check(len(l) % 2 == 0 and {(d[id(l[2 * i])], d[id(l[2 * i + 1])]) for i in range(len(l) // 2)} == E, 'as_flat_list')
            grew = False
        elif k == 'iter':
            it = iter(ng)
            self.iters.append((it, len(ng)))
            grew = False
        elif k == 'copy':
            self.snaps.append((ng.copy(), E))
            grew = False
        elif k == 'inverted':
            self.snaps.append((ng.inverted(), frozenset((b, a) for a, b in E)))
            grew = False
        elif k == 'self':
            # updating a graph with itself either is refused while iterating or changes nothing
            try:
                ng.update(ng)
            except RuntimeError:
                pass
        elif k == 'get':
            w = [b for a, b in E if a == op[1]]
            if self.mapping:
                if len(w) == 1:
                    ctx.check(ng[U[op[1]]] is U[w[0]], 'lookup')
                else:
                    ctx.raises(ValueError if w else KeyError, ng.__getitem__, U[op[1]])
            else:
                ctx.check({idx(U)[id(x)] for x in ng[U[op[1]]]} == set(w), 'lookup')
            grew = False
        elif k == 'set':
            i = op[1]
            w = sorted(b for a, b in E if a == i)
            n = len(U)
            if self.mapping:
                if len(w) == 1:
                    t = (w[0] + 1) % n
                    ng[U[i]] = U[t]
                    self.E = E - {(i, w[0])} | {(i, t)}
                else:
                    ctx.raises(ValueError, ng.__setitem__, U[i], U[0])
            else:
                m = len(w if not self.loose else ng[U[i]])
                if op[2] == 'rot':
                    new = [(b + 1) % n for b in range(m)][::-1] if m <= n else [0] * m
                elif op[2] == 'all0':
                    new = [0] * m
                else:
                    ctx.raises(ValueError, ng.__setitem__, U[i], tuple([U[0]] * (m + 1)))
                    ctx.raises(TypeError, ng.__setitem__, U[i], [U[0]] * m)
                    ctx.raises(NotImplementedError, ng.__delitem__, U[i])
                    return
                ng[U[i]] = tuple(U[j] for j in new)
                self.E = frozenset(e for e in E if e[0] != i) | {(i, j) for j in new}
                if len(set(new)) != len(new):
                    self.loose = True
        if grew and k in ('add', 'n1', 'upd', 'updfail'):
            pass

    def verify(self, what):
        check_graph(self.ctx, self.ng, self.E, self.U, what, self.mapping, self.loose)
        for g, e in self.snaps:
            check_graph(self.ctx, g, e, self.U, 'copy taken earlier', self.mapping, self.loose)
        d = idx(self.U)
        for it, n in self.iters:
            try:
                m = 0
                for a, b in it:
                    m += 1
                    self.ctx.check((d[id(a)], d[id(b)]) in self.E, 'iterator gave an edge that is not there')
                self.ctx.check(m <= n + 100, 'runaway iterator')
            except RuntimeError:
                pass


def run_hist(shard, ctx):
    n, depth = shard['n'], shard['depth']
    U = universe(max(n, 2))[:n]
    alpha = alphabet(n)
    for mapping in (False, True):
        for seq in itertools.product(alpha[shard['k']::shard['of']], *[alpha] * (depth - 1)):
            if not ctx.case(mapping, seq):
                continue
            r = R(ctx, U, mapping)
            for op in seq:
                r.step(op)
            ctx.add('transitions', depth)
            ctx.state((n, mapping, r.E, r.ng.is_sorted, len(r.snaps)))
            r.verify('after %s' % (seq,))
            if ctx.full:
                return


def run_rel(shard, ctx):
    n = 3
    U = universe(4)
    P = list(itertools.product(range(n), repeat=2))
    for m in range(shard['k'], 1 << len(P), shard['of']):
        E = [P[i] for i in range(len(P)) if m >> i & 1]
        for order in ('up', 'down', 'dup', 'mid'):
            for mapping in (False, True):
                if not ctx.case('rel', E, order, mapping):
                    continue
                L = dict(up=E, down=E[::-1], dup=E + E[::2] + E, mid=E[len(E) // 2:] + E[:len(E) // 2])[order]
                ng = (SubNG if order == 'mid' else NodeGraph)([(U[a], U[b]) for a, b in L], mapping)
                F = frozenset(E)
                d = idx(U)
                if order == 'down':
                    check_graph(ctx, ng, F, U, 'built', mapping)
                ctx.check(nodes_of(ng.get_domain(), U) == {a for a, b in F}, 'get_domain')
                ctx.check(nodes_of(ng.get_range(), U) == {b for a, b in F}, 'get_range')
                for X in subsets(4):
                    for kind in ('list', 'imm', 'mut', 'gen', 'dup'):
                        def mk():
                            xs = [U[i] for i in X]
                            return dict(list=lambda: xs, imm=lambda: ImmNodeSet(xs), mut=lambda: MutNodeSet(xs),
                                        gen=lambda: gen(xs), dup=lambda: xs + xs)[kind]()
                        ctx.check(nodes_of(ng.relimg(mk()), U) == {b for a, b in F if a in X}, lambda: 'relimg %s' % X)
                        ctx.check(ng.domain_covers(mk()) is all(any(a == x for a, b in F) for x in X), lambda: 'domain_covers %s' % X)
                        r = ng.domain_restricted(mk())
                        check_graph(ctx, r, frozenset(e for e in F if e[0] in X), U, 'domain_restricted', mapping)
                        ctx.add('transitions', 3)
                check_graph(ctx, ng.inverted(), frozenset((b, a) for a, b in F), U, 'inverted', mapping)
                check_graph(ctx, ng.copy(), F, U, 'copy', mapping)
                for e in P + [(3, 3)]:
                    check_graph(ctx, ng.updated([(U[e[0]], U[e[1]])]), F | {e}, U, 'updated', mapping)
                check_graph(ctx, ng.updated(NodeGraph([(U[0], U[1]), (U[3], U[0])])), F | {(0, 1), (3, 0)}, U, 'updated with a graph', mapping)
                check_graph(ctx, ng, F, U, 'afterwards', mapping)
                ctx.state(('rel', m, order, mapping))
                if ctx.full:
                    return


def run_shape(shard, ctx):
    n, m = shard['n'], shard['m']
    pool = sorted([H() for i in range(2 * n + 1)] + [H() for i in range(4)], key=id)
    for i, o in enumerate(pool):
        o.n = i
    src = pool[1:2 * n + 1:2][:n]           # keys with absent neighbours on both sides
    tgt = pool[-m - 1:]
    for c in list(itertools.product(range(m), repeat=n))[shard['k']::shard['of']]:
        if not ctx.case('shape', c):
            continue
        for rev in (False, True):
            L = [(i, j) for i in range(n) for j in range(c[i])]
            if rev:
                L.reverse()
            ng = NodeGraph([(src[i], tgt[j]) for i, j in L])
            for o in pool:
                t = ng[o]
                i = [k for k, s in enumerate(src) if s is o]
                w = c[i[0]] if i else 0
                ctx.check(len(t) == w and all(any(x is tgt[j] for x in t) for j in range(w)), lambda: 'lookup of node %d: %r' % (o.n, t))
            ctx.add('transitions', len(pool))
        ctx.state(('shape', c))
        if ctx.full:
            return


def run_grow(shard, ctx):
    pool = [H() for i in range(400)]
    for i, o in enumerate(pool):
        o.n = i
    for n in range(400):
        for stride in (1, 7, 399):
            if ctx.case('grow', n, stride):
                ng = NodeGraph()
                for i in range(n):
                    ng.add_edge(pool[i * stride % 400 if stride != 399 else 399 - i], pool[i])
                    if i == n // 2:
                        len(ng)
                ctx.eq(len(ng), len({(i * stride % 400 if stride != 399 else 399 - i, i) for i in range(n)}), 'len')
                bad = [i for i in range(n) if not any(t is pool[i] for t in ng[pool[i * stride % 400 if stride != 399 else 399 - i]])]
                ctx.check(not bad, lambda: 'lost edges %s' % bad)
                ctx.add('transitions', n)
                ctx.state(('grow', n, stride))


class BadBool:
    def __bool__(self):
        raise Boom('bool')


def run_bad(shard, ctx):
    U = universe(3)
    P = [(0, 1), (0, 2), (2, 2)]
    E = frozenset(P)
    bads = [None, 3, object(), [1], [()], [(1,)], [(1, 2, 3)], ['ab'], [[U[0], U[1]]], BadIter(), gen([(U[0], U[1])], 1)]
    for bi, b in enumerate(bads):
        if ctx.case('bad', bi):
            ng = NodeGraph([(U[a], U[c]) for a, c in P])
            for f in (ng.update, ng.updated, ng.relimg, ng.domain_covers, ng.domain_restricted):
                ex = (TypeError, Boom)
                if f in (ng.relimg, ng.domain_covers, ng.domain_restricted) and isinstance(b, list):
                    f(b)
                    continue
                if bi != len(bads) - 1:
                    ctx.raises(ex, f, b)
            if bi not in (0, len(bads) - 1):
                ctx.raises((TypeError, Boom), NodeGraph, b)
            ctx.raises(TypeError, ng.add_edge)
            ctx.raises(TypeError, ng.add_edge, U[0])
            ctx.raises(TypeError, ng.add_edges_n1, 3, U[0])
            ctx.raises(TypeError, ng.add_edges_n1, [])
            ctx.raises(Boom, NodeGraph, [], BadBool())
            ctx.raises(NotImplementedError, ng.__delitem__, U[0])
            check_graph(ctx, ng, E, U, 'after failures')
            ctx.add('transitions', 12)
            ctx.state(('bad', bi))
