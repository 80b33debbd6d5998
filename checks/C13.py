"""Dominators and dominated sizes match their definition."""
import itertools, sys
from gr import World, iso_classes, names, graphs
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of object graphs and query sets, against reachability with the set removed'
RULE = ('every rooted digraph up to isomorphism (unreachable nodes included) with several assignments of container types, hung under a '
        'private root; dominos, domisize and imdom of every subset, as node set or identity set, by view and by attribute, twice; '
        'dominos_tuple and domisize_tuple of every pair of subsets; the graph compared before and after')
BOUNDS = dict(quick='4 nodes (no loops) x 3 kinds, 3 nodes with loops x 4; pairs of subsets on 4 nodes',
              thorough='4 nodes with loops x 4 kinds; 5 nodes (no loops) up to isomorphism')
ASSUME = ['classes of instances are kept reachable by the root list']

KINDS = [('list',) * 4, ('list', 'dict', 'inst', 'slot'), ('slot', 'celllist', 'sublist', 'dict'), ('dict', 'inst', 'list', 'sublist')]


def shards(tier):
    out = [dict(part='dom', n=4, k=k, of=24) for k in range(24)]
    out += [dict(part='dom', n=3, k=k, of=4) for k in range(4)]
    if tier == 'thorough':
        out += [dict(part='dom', n=5, k=k, of=32) for k in range(32)]
    return out


class W13(World):
    """A world whose root list also holds the classes."""
    def __init__(self, *a):
        World.__init__(self, *a)
        self.root = root = [self.objs[0]] + self.objects(self.cls)
        r = self.node(root)
        self.rootbit = 1 << r
        self.adj[r] = 1 | self.cls
        self.N = len(self.objs)
        self.all = (1 << self.N) - 1


def run(shard, ctx):
    n = shard['n']
    if n == 5:
        gs, kinds = iso_classes(5, False, True), [('list',) * 5]
    else:
        gs, kinds = iso_classes(n, n == 3 or ctx.tier == 'thorough', True), KINDS if n == 3 or ctx.tier == 'thorough' else KINDS[:3]
    for E in gs[shard['k']::shard['of']]:
        for K in kinds:
            if not ctx.case('dom', E, K[:n]):
                continue
            dom_case(ctx, n, E, K[:n])
            ctx.state((tuple(E), K[:n]))
            if ctx.full:
                return


def dom_case(ctx, n, E, K):
    w = W13(n, E, K)
    V.root = w.root
    heap = w.reach(w.rootbit)
    # classes lead out of the world: everything they reach is also reached from the root list
    size = [sys.getsizeof(o) for o in w.objs]

    def doms(Xs):
        D = 0
        for X in Xs:
            D |= X
        allr = w.reach(w.rootbit | D)
        r = []
        for X in Xs:
            r.append(allr & ~w.reach((w.rootbit | D) & ~X, X))
        return r

    def cmp(what, r, want):
        got = w.mask(r.nodes)
        if got != want:
            ctx.fail('%s = %s, want %s' % (what, names(w, got), names(w, want)))

    def total(m):
        return sum(size[i] for i in bits(m))
    subsets = list(range(1 << n))
    for X in subsets:
        obj = imm(w.objects(X))
        ids = V.idset(obj)
        want = doms((X,))[0]
        for rep in range(2):
            cmp('dominos(%s)' % names(w, X), V.dominos(obj), want)
            cmp('idset(%s).dominos' % names(w, X), ids.dominos, want)
            ctx.eq(V.domisize(obj), total(want), 'domisize(%s)' % names(w, X))
            ctx.eq(ids.domisize, total(want), 'idset(%s).domisize' % names(w, X))
            ctx.eq(V.indisize(obj), total(X), 'indisize(%s)' % names(w, X))
            # immediate dominators
            if X:
                pred = 0
                for i in bits(heap):
                    if w.adj[i] & X:
                        pred |= 1 << i
                want_im = pred & w.reach_x(w.rootbit, pred)
                cmp('imdom(%s)' % names(w, X), V.imdom(obj), want_im)
                cmp('idset(%s).imdom' % names(w, X), ids.imdom, want_im)
    if len(E) % 2 or n < 4 or ctx.tier == 'thorough' and n == 4:
        for X, Y in itertools.product(subsets[1:], repeat=2):
            obj = (imm(w.objects(X)), V.idset(w.objects(Y)))
            want = doms((X, Y))
            got = V.dominos_tuple(obj)
            for a, b, c in zip(got, want, 'xy'):
                cmp('dominos_tuple(%s, %s)[%s]' % (names(w, X), names(w, Y), c), a, b)
            ctx.eq(V.domisize_tuple(obj), tuple(map(total, want)), 'domisize_tuple(%s, %s)' % (names(w, X), names(w, Y)))
        ctx.add('transitions', 2 * len(subsets) ** 2)
    # nothing changed
    for i in range(n):
        got = w.mask(V.referents(imm([w.objs[i]])).nodes)
        ctx.eq(got, w.adj[i], 'referents of %d afterwards' % i)
    ctx.add('transitions', 12 * len(subsets))
    w.dissolve()
