"""Referrers are the inverse of referents, whatever was asked before."""
import itertools, gc
from gr import World, iso_classes, names, graphs, ALLKINDS, new_hv
from hps import *
from guppy.heapy import heapyc
from guppy.sets import ImmNodeSet, MutNodeSet

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of object graphs x query histories, against the inverted edge relation of the reachable graph'
RULE = ('every rooted digraph up to isomorphism with several assignments of container types; every sequence of two or three queries '
        'for sets of nodes, from fresh caches, with mutations of the graph and each way of dropping the caches in between; nodes held '
        'by the harness or by the graph alone; the incremental graph updated in place for several targets; the complete form')
BOUNDS = dict(quick='4 nodes (no loops), 3 nodes (loops): all pairs of queries; mutation: 3 nodes, one toggled edge; complete form: 20 graphs',
              thorough='4 nodes with loops; triples of queries on 3 nodes; two mutations; complete form: 3 nodes, all graphs')
ASSUME = ['the root itself is not asked for; the answer is about the objects reachable from the root']

KINDS = [('list',) * 4, ('list', 'dict', 'inst', 'slot'), ('slot', 'nset', 'sublist', 'celllist'), ('dict', 'inst', 'list', 'nset')]


def shards(tier):
    m = 16 if tier == 'quick' else 64
    out = [dict(part='pairs', n=4, k=k, of=m) for k in range(m)]
    out += [dict(part='pairs', n=3, k=k, of=4) for k in range(4)]
    out += [dict(part='mutate', k=k, of=12) for k in range(12)]
    out += [dict(part='bare', k=k, of=8) for k in range(8)]
    out += [dict(part='raw', k=k, of=8) for k in range(8)]
    out += [dict(part='complete', k=k, of=4) for k in range(4)]
    out += [dict(part='gcref', k=k, of=2) for k in range(2)]
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def model(w, heap, X):
    """Reachable nodes with an edge into X."""
    r = 0
    for i in bits(heap):
        if w.adj[i] & X:
            r |= 1 << i
    return r


def ask(ctx, w, X, heap, what):
    arg = imm(w.objects(X)) if X % 3 else V.idset(imm(w.objects(X)))
    r = V.referrers(arg)
    got = w.mask(r.nodes)
    want = model(w, heap, X)
    if got != want:
        ctx.fail('%s: referrers of %s are %s, want %s' % (what, names(w, X), names(w, got), names(w, want)))
        return False
    return True


def run_pairs(shard, ctx):
    n = shard['n']
    loops = n == 3 or ctx.tier == 'thorough'
    gs = iso_classes(n, loops, True)
    kinds = KINDS if ctx.tier == 'thorough' or n == 3 else KINDS[:3]
    for E in gs[shard['k']::shard['of']]:
        for K in kinds:
            if not ctx.case('pairs', E, K[:n]):
                continue
            w = World(n, E, K[:n])
            V.root = w.objs[0]
            heap = w.reach(1)
            sets = [X << 1 for X in range(1, 1 << (n - 1))]
            depth = 3 if n == 3 and ctx.tier == 'thorough' else 2
            with captured() as out:
                for h in itertools.product(sets, repeat=depth):
                    V.clear_retainers()
                    for k, X in enumerate(h):
                        ask(ctx, w, X, heap, 'history %s, step %d' % ([names(w, x) for x in h], k))
            if out.getvalue():
                ctx.fail('printed %r' % out.getvalue())
            ctx.add('transitions', depth * len(sets) ** depth)
            ctx.state((tuple(E), K[:n]))
            w.dissolve()
            if ctx.full:
                return


def run_mutate(shard, ctx):
    n = 3
    P = [(i, j) for i in range(n) for j in range(n)]
    sets = [X << 1 for X in range(1, 1 << (n - 1))]
    drops = ['clear', 'gc', 'root']
    for E in iso_classes(n, True, True)[shard['k']::shard['of']]:
        for muts in itertools.product(P, repeat=1 if ctx.tier == 'quick' else 2):
            for drop in drops:
                if not ctx.case('mutate', E, muts, drop):
                    continue
                E2 = list(E)
                w = World(n, E2, ('list',) * n)
                V.root = w.objs[0]
                for X1, X2 in itertools.product(sets, repeat=2):
                    ask(ctx, w, X1, w.reach(1), 'before')
                    for m in muts:
                        i, j = m
                        if m in E2:
                            E2.remove(m)
                            w.objs[i].remove(w.objs[j]) if 0 else w.objs[i].pop([k for k, o in enumerate(w.objs[i]) if o is w.objs[j]][0])
                            w.adj[i] &= ~(1 << j)
                        else:
                            E2.append(m)
                            w.objs[i].append(w.objs[j])
                            w.adj[i] |= 1 << j
                    if drop == 'clear':
                        V.clear_retainers()
                    elif drop == 'gc':
                        V.clear_check()
                        gc.collect()
                    else:
                        V.root = w.objs[0]
                    ask(ctx, w, X2, w.reach(1), 'after %s, %s' % (muts, drop))
                ctx.add('transitions', 2 * len(sets) ** 2)
                ctx.state((tuple(E), muts, drop))
                w.dissolve()
                if ctx.full:
                    return


def run_bare(shard, ctx):
    """Nodes held by the graph alone, so that the traversal's reference count shortcuts are taken."""
    n = 4
    for E in iso_classes(n, False, True)[shard['k']::shard['of']]:
        for K in (('list',) * 4, ('list', 'inst', 'dict', 'slot')):
            w = World(n, E, K)
            heap = w.reach(1)
            if heap & 15 != 15:
                continue
            if not ctx.case('bare', E, K):
                continue
            root = w.objs[0]
            keep = w.objs
            for X in range(2, 1 << n, 2):
                w.objs = None
                targets = [keep[i] for i in bits(X)]
                held, keep = keep, None
                V.root = root
                ids = w.index
                arg = imm(targets)
                # drop all but the graph's own references
                del targets
                backup = {}
                held_weak = None
                walk = held
                held = None
                for i in range(len(walk)):
                    if not w.cls >> i & 1 and i:
                        walk[i] = None
                r = V.referrers(arg)
                got = 0
                for o in r.nodes:
                    k = ids.get(id(o))
                    got |= 1 << (w.N if k is None else k)
                want = model(w, heap, X)
                if got != want:
                    ctx.fail('referrers of %s are %s, want %s' % (names(w, X), names(w, got), names(w, want)))
                # find the objects again
                del r
                stack = [root]
                seen = {}
                while stack:
                    o = stack.pop()
                    k = ids.get(id(o))
                    if k is None or k in seen:
                        continue
                    seen[k] = o
                    stack.extend(gc.get_referents(o))
                for k, o in seen.items():
                    walk[k] = o
                keep = walk
            w.objs = keep
            ctx.add('transitions', 7)
            ctx.state(('bare', tuple(E), K))
            w.dissolve()


def run_raw(shard, ctx):
    """The low-level graph, updated several times without being cleared."""
    n = 4
    gs = iso_classes(n, False, True)
    for E in gs[shard['k']::shard['of']]:
        for K in (('list',) * 4, ('slot', 'inst', 'dict', 'list')):
            if not ctx.case('raw', E, K):
                continue
            w = World(n, E, K)
            cls = ImmNodeSet(w.objects(w.cls))
            heap = w.reach(1)
            hv = new_hv(w.objs[0])
            sets = [X << 1 for X in range(1, 8)]
            for X1 in sets:
                for X2 in sets:
                    rg = heapyc.NodeGraph()
                    hv.update_referrers(rg, ImmNodeSet(w.objects(X1)))
                    n1 = known(w, rg)
                    hv.update_referrers(rg, MutNodeSet(w.objects(X2)))
                    edges = known(w, rg)
                    for a, b in edges:
                        if not (heap >> b & 1 and w.adj[b] >> a & 1):
                            ctx.fail('edge %s in the referrer graph of %s' % ((b, a), names(w, X1 | X2)))
                    if not n1 <= edges:
                        ctx.fail('edges lost')
                    # every edge on a way from the root to a target is there
                    T = X1 | X2
                    for a in range(w.N):
                        if a == 0:
                            continue
                        # a leads to a target without passing the root
                        leads = w.reach(1 << a, 1) & T
                        if not leads:
                            continue
                        for b in bits(heap):
                            if w.adj[b] >> a & 1 and (b, a) and (a, b) not in edges and not (w.cls >> b & 1):
                                if path_within(w, X1, a) or path_within(w, X2, a):
                                    ctx.fail('edge %s missing in the referrer graph of %s, %s' % ((b, a), names(w, X1), names(w, X2)))
            ctx.add('transitions', len(sets) ** 2)
            ctx.state(('raw', tuple(E), K))
            w.dissolve()
            if ctx.full:
                return


def known(w, rg):
    ix = w.index
    r = set((ix[id(a)], ix[id(b)]) for a, b in rg if id(a) in ix and id(b) in ix)
    return set((a, b) for a, b in r if not w.cls >> b & 1)


def path_within(w, X, a):
    return w.reach(1 << a, 1) & X


def run_complete(shard, ctx):
    """The complete referrer graph, built from the collector's objects."""
    n = 3
    gs = iso_classes(n, True, True)
    if ctx.tier == 'quick':
        gs = gs[::14]
    kinds = [('list',) * 3, ('inst', 'dict', 'slot'), ('sublist', 'inst', 'list')]
    for gi, E in enumerate(gs[shard['k']::shard['of']]):
        for K in kinds:
            if not ctx.case('complete', E, K):
                continue
            w = World(n, E, K)
            untracked = [o for o in w.objs if not gc.is_tracked(o)]
            rg = heapyc.NodeGraph()
            V.hv.update_referrers_completely(rg)
            for j in range(n):
                got = w.mask(o for o in rg[w.objs[j]] if id(o) in w.index)
                want = model(w, w.all, 1 << j)
                want &= ~w.mask(untracked)
                if got & ~w.cls != want & ~w.cls:
                    ctx.fail('complete: referrers of %d are %s, want %s' % (j, names(w, got), names(w, want)))
            if gi % 4 == 0 or ctx.tier == 'thorough':
                V.root = heapyc.RootState
                V.is_rg_update_all = True
                try:
                    V.clear_retainers()
                    for X in (1, 2, 4, 7):
                        r = V.referrers(imm(w.objects(X)))
                        got = w.mask(o for o in r.nodes if id(o) in w.index)
                        want = model(w, w.all, X) & ~w.mask(untracked)
                        if got & ~w.cls != want & ~w.cls:
                            ctx.fail('update_all: referrers of %s are %s, want %s' % (names(w, X), names(w, got), names(w, want)))
                finally:
                    V.is_rg_update_all = False
                V.clear_retainers()
                with captured() as out:
                    for X in (1, 2, 4, 7):
                        r = V.referrers(imm(w.objects(X)))
                        got = w.mask(o for o in r.nodes if id(o) in w.index)
                        want = model(w, w.all, X)
                        if got & ~w.cls != want & ~w.cls:
                            ctx.fail('RootState: referrers of %s are %s, want %s' % (names(w, X), names(w, got), names(w, want)))
                ctx.eq(out.getvalue(), '', 'printed')
            ctx.add('transitions', 8)
            ctx.state(('c', tuple(E), K))
            w.dissolve()


def run_gcref(shard, ctx):
    n = 3
    for E in iso_classes(n, True)[shard['k']::shard['of']]:
        for K in (('list',) * 3, ('inst', 'slot', 'sublist'), ('dict', 'celllist', 'nset')):
            if not ctx.case('gcref', E, K):
                continue
            w = World(n, E, K)
            tracked = w.mask(o for o in w.objs if gc.is_tracked(o))
            for X in range(1, 1 << n):
                r = V.referrers_gc(imm(w.objects(X)))
                got = w.mask(o for o in r.nodes if id(o) in w.index) & ~w.cls
                want = model(w, w.all, X) & tracked & ~w.cls
                if got != want:
                    ctx.fail('referrers_gc(%s) = %s, want %s' % (names(w, X), names(w, got), names(w, want)))
            ctx.add('transitions', (1 << n) - 1)
            ctx.state(('gc', tuple(E), K))
            w.dissolve()
