"""Reachability is exactly the closure of the referents relation."""
import itertools
from gr import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all small object graphs, realised as real objects, against graph closure'
RULE = ('every digraph on 4 nodes (one per isomorphism class; thorough: every labelled one) realised with several assignments of '
        'container types, with every start set and every avoid set, for reachable and reachable_x; relimg of every set; heap() '
        'from every root set; edge multiplicities; deep chains; answers compared with the closure computed on the model graph')
BOUNDS = dict(quick='4 nodes up to isomorphism (3044 graphs) x 9 type assignments x 16 starts x 16 avoids; heap roots: 512 graphs on 3 nodes',
              thorough='all 65536 labelled graphs on 4 nodes x 3 type assignments x 256; 5 nodes without loops up to isomorphism')
ASSUME = ['objects of the kinds list, dict, cell, node set, plain instance, slotted instance, list subclass',
          'instance dicts count as nodes, classes are put in the avoid set']

KINDS4 = [('list',) * 4, ('dict',) * 4, ('nset',) * 4, ('inst',) * 4, ('slot',) * 4, ('celllist',) * 4,
          ('list', 'dict', 'inst', 'slot'), ('slot', 'nset', 'sublist', 'celllist'), ('inst', 'sublist', 'dict', 'nset')]
BIG = [('list',) * 4, ('slot', 'nset', 'inst', 'celllist'), ('dict', 'sublist', 'list', 'inst')]


def shards(tier):
    out = []
    if tier == 'quick':
        out += [dict(part='reach', n=4, k=k, of=16) for k in range(16)]
    else:
        out += [dict(part='reach', n=4, k=k, of=64, labelled=1) for k in range(64)]
        out += [dict(part='reach', n=5, k=k, of=32) for k in range(32)]
    out += [dict(part='heap', k=k, of=8) for k in range(8)]
    out += [dict(part='mult', k=k, of=4) for k in range(4)]
    out += [dict(part='misc')]
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def run_reach(shard, ctx):
    n = shard['n']
    if shard.get('labelled'):
        gs = list(graphs(n))
        kinds = BIG
    elif n == 5:
        gs = iso_classes(5, False)
        kinds = [('list',) * 5, ('slot', 'nset', 'inst', 'celllist', 'dict')]
    else:
        gs = iso_classes(n)
        kinds = KINDS4
    hv = new_hv()
    for E in gs[shard['k']::shard['of']]:
        for K in kinds:
            if not ctx.case('reach', E, K):
                continue
            w = World(n, E, K)
            cls = w.objects(w.cls)
            starts = [(s, w.nodes(s) if s % 2 else MutNodeSet(w.objects(s))) for s in range(1 << n)]
            avoids = [(a | w.cls, MutNodeSet(w.objects(a) + cls) if a % 2 else w.nodes(a | w.cls)) for a in range(1 << n)]
            for a, A in avoids:
                R1 = [w.reach(1 << i, a) for i in range(n)]
                for s, S in starts:
                    want = 0
                    for i in range(n):
                        if s >> i & 1:
                            want |= R1[i]
                    r = hv.reachable(S, A)
                    got = w.mask(r)
                    if got != want or len(r) != bin(want).count('1'):
                        ctx.fail('reachable(%s, %s) = %s, want %s' % (names(w, s), names(w, a), names(w, got), names(w, want)))
                    want = w.reach_x(s, a)
                    r = hv.reachable_x(S, A)
                    got = w.mask(r)
                    if got != want or len(r) != bin(want).count('1'):
                        ctx.fail('reachable_x(%s, %s) = %s, want %s' % (names(w, s), names(w, a), names(w, got), names(w, want)))
                # the argument sets are not changed
                ctx.check(w.mask(A) == a, 'avoid set changed')
            for s, S in starts:
                ctx.check(w.mask(S) == s, 'start set changed')
                r = hv.relimg(S)
                got, want = w.mask(r), w.succ(s)
                if got != want:
                    ctx.fail('relimg(%s) = %s, want %s' % (names(w, s), names(w, got), names(w, want)))
                r = hv.relimg(w.objects(s))
                if w.mask(r) != want:
                    ctx.fail('relimg(list %s) = %s, want %s' % (names(w, s), names(w, w.mask(r)), names(w, want)))
            ctx.add('transitions', 2 * len(avoids) * len(starts) + 2 * len(starts))
            ctx.state(('reach', tuple(E), K))
            w.dissolve()
            if ctx.full:
                return


def run_heap(shard, ctx):
    n = 3
    kinds = list(itertools.product(['list', 'dict', 'nset', 'celllist'], repeat=3))
    for gi, E in enumerate(list(graphs(n))[shard['k']::shard['of']]):
        for K in kinds if ctx.tier == 'thorough' else kinds[gi % 4::4]:
            if not ctx.case('heap', E, K):
                continue
            w = World(n, E, K)
            for s in range(1 << n):
                for rootkind in ('list', 'tuple', 'node'):
                    if rootkind == 'node':
                        if bin(s).count('1') != 1:
                            continue
                        root = w.objects(s)[0]
                    else:
                        root = w.objects(s) if rootkind == 'list' else tuple(w.objects(s))
                        if root == ():
                            continue
                    hv = new_hv(root)
                    r = hv.heap()
                    want = w.reach(s)
                    objs = [o for o in r if o is not root] if rootkind != 'node' else list(r)
                    got = w.mask(objs)
                    if got != want or root not in r or len(r) != bin(want).count('1') + (rootkind != 'node'):
                        ctx.fail('heap() from %s %s = %s, want %s' % (rootkind, names(w, s), names(w, got), names(w, want)))
                    import sys
                    tot = sum(map(sys.getsizeof, r)) if 'nset' not in K else None
                    if tot is not None:
                        ctx.eq(hv.indisize_sum(r), tot, 'indisize_sum')
                    ctx.add('transitions')
            ctx.state(('heap', tuple(E), K))
            w.dissolve()
            if ctx.full:
                return


def run_mult(shard, ctx):
    """Parallel edges."""
    hv = new_hv()
    n = 2
    P = [(i, j) for i in range(n) for j in range(n)]
    for m in list(itertools.product(range(4), repeat=4))[shard['k']::shard['of']]:
        E = [p for p, c in zip(P, m) for _ in range(c)]
        for K in itertools.product(['list', 'dict', 'inst', 'sublist', 'slot'], repeat=2):
            if 'slot' in K and max(m[0] + m[1], m[2] + m[3]) > 5:
                continue
            if not ctx.case('mult', E, K):
                continue
            w = World(n, E, K)
            for i in range(w.N):
                if w.cls >> i & 1:
                    continue
                for j in range(w.N):
                    ctx.eq(hv.numedges(w.objs[i], w.objs[j]), w.mult.get((i, j), 0), 'numedges(%d, %d)' % (i, j))
            ctx.add('transitions', w.N * w.N)
            ctx.state(('mult', m, K))
            w.dissolve()


def run_misc(shard, ctx):
    # long chains and wide fans: no recursion limit, nothing lost
    for n in (1, 2, 63, 64, 65, 1000, 100000):
        for shape in ('chain', 'fan', 'ring', 'tuplechain'):
            if not ctx.case('deep', n, shape):
                continue
            if shape == 'chain':
                a = last = []
                for i in range(n):
                    b = []
                    last.append(b)
                    last = b
                want = n + 1
            elif shape == 'fan':
                a = [[] for i in range(n)]
                want = n + 1
            elif shape == 'ring':
                a = last = []
                for i in range(n):
                    b = []
                    last.append(b)
                    last = b
                last.append(a)
                want = n + 1
            else:
                a = []
                for i in range(n):
                    a = (a,)
                want = n + 1
            hv = new_hv(a)
            ctx.eq(len(hv.heap()), want, 'heap()')
            ctx.eq(len(hv.reachable(ImmNodeSet([a]), ImmNodeSet())), want, 'reachable')
            ctx.eq(len(hv.reachable_x(ImmNodeSet([a]), ImmNodeSet())), want, 'reachable_x')
            if shape in ('chain', 'ring'):
                while a:
                    a = a.pop()
            ctx.add('transitions', 3)
            ctx.state((n, shape))
    hv = new_hv()
    for bad in (None, [], 3, object()):
        if ctx.case('bad', type(bad).__name__):
            ctx.raises(TypeError, hv.reachable, bad, ImmNodeSet())
            ctx.raises(TypeError, hv.reachable, ImmNodeSet(), bad)
            ctx.raises(TypeError, hv.reachable_x, bad, ImmNodeSet())
            ctx.raises(TypeError, hv.reachable_x, ImmNodeSet(), bad)
            if bad != []:
                ctx.raises(TypeError, hv.relimg, bad)
