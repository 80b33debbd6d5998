"""Hidden objects never show up and hide nothing else."""
import itertools, types
import gr
from gr import World, iso_classes, names
from guppy.sets import MutNodeSet, ImmNodeSet, setsc
from guppy.heapy import heapyc

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of object graphs x hiding assignments x registration orders, against closure of the visible subgraph'
RULE = ('every rooted digraph up to isomorphism, each non-root node being hidden in one of the documented ways (exact type, tagged slot, '
        'tagged slot of a subtype, tagged instance dict, tagged dict of an object with slots), hidden from another view only, opaque '
        '(tagged dict, node set, node graph) or ordinary; two views with different tags ask for heap, reachable, reachable_x, relimg, '
        'referrer graphs (incremental and complete) and the steps of a path search; registrations before or after first use')
BOUNDS = dict(quick='3 nodes: all 12^2 assignments; 4 nodes: assignments with at most one non-plain node plus fixed mixtures; 2 views',
              thorough='4 nodes: all 12^3 assignments; 2 views')
ASSUME = ['the dict carrying the tag of a hidden object is opaque, not hidden itself']

T1, T2 = ['tag1'], ['tag2']


class HS(object):           # registered: hidden by slot
    __slots__ = ('_hiding_tag_', 's0', 's1', 's2', 's3')


class HSub(HS):             # subtype without registration of its own
    __slots__ = ('extra',)


class HX(object):           # hidden exact type
    __slots__ = ('s0', 's1', 's2', 's3')


class HXSub(HX):            # subtype of it: visible
    __slots__ = ()


class SD(object):           # slots and an instance dict
    __slots__ = ('s0', 's1', 's2', 's3', '__dict__')


class Plain(object):
    __slots__ = ('s0', 's1', 's2', 's3')


SLOTTED = dict(hs1=HS, hs2=HS, hsub1=HSub, hx=HX, hxsub=HXSub, sd1=SD, sd2=SD, plain=Plain)
# kind -> hidden from views
HIDDEN = dict(hs1={1}, hs2={2}, hsub1={1}, hx={1, 2}, hxsub=(), sd1={1}, sd2={2}, plain=(), inst1={1}, odict1=(), onset1=(), ograph1=(), list=())
OPAQUE = dict(odict1={1}, onset1={1}, ograph1={1})
KINDS = ['list', 'hs1', 'hsub1', 'hx', 'hxsub', 'inst1', 'sd1', 'odict1', 'onset1', 'ograph1', 'hs2', 'sd2']


class W9(World):
    def __init__(self, n, edges, kinds):
        self.hid = {1: 0, 2: 0}
        self.opq = {1: 0, 2: 0}
        World.__init__(self, n, edges, kinds)
        for v in (1, 2):
            for i, k in enumerate(kinds):
                if v in HIDDEN.get(k, ()):
                    self.hid[v] |= 1 << i
                if v in OPAQUE.get(k, ()):
                    self.opq[v] |= 1 << i

    def new(self, kind):
        if kind in SLOTTED:
            return SLOTTED[kind]()
        if kind == 'inst1':
            return gr.Inst()
        if kind == 'odict1':
            return {}
        if kind == 'onset1':
            s = MutNodeSet()
            s._hiding_tag_ = T1
            return s
        if kind == 'ograph1':
            g = heapyc.NodeGraph()
            g._hiding_tag_ = T1
            return g
        return gr.fresh(kind)

    def _wire(self, i, kind, tgts):
        o, O = self.objs[i], self.objs
        tag = T2 if kind.endswith('2') else T1
        if kind in SLOTTED:
            c = self.node(type(o))
            self.cls |= 1 << c
            self.edge(i, c)
            if kind[:2] == 'hs':
                o._hiding_tag_ = tag
                t = self.node(tag)
                self.cls |= 1 << t
                self.edge(i, t)
            elif kind[:2] == 'sd':
                o._hiding_tag_ = tag
                d = self.node(o.__dict__)
                self.edge(i, d)
                t = self.node(tag)
                self.cls |= 1 << t
                self.edge(d, t)
                self.tagdict(d, tag)
            for k, j in enumerate(tgts):
                setattr(o, 's%d' % k, O[j])
                self.edge(i, j)
        elif kind == 'inst1':
            World._wire(self, i, 'inst', tgts)
            o._hiding_tag_ = T1
            d = self.node(o.__dict__)
            t = self.node(T1)
            self.cls |= 1 << t
            self.edge(d, t)
            self.tagdict(d, T1)
        elif kind in ('odict1', 'onset1', 'ograph1'):
            t = self.node(T1)
            self.cls |= 1 << t
            self.edge(i, t)
            if kind == 'odict1':
                World._wire(self, i, 'dict', tgts)
                o['_hiding_tag_'] = T1
            else:
                for j in tgts:
                    if kind == 'onset1':
                        o.add(O[j])
                    else:
                        o.add_edge(O[j], O[j])
                    self.edge(i, j)
        else:
            World._wire(self, i, kind, tgts)

    def tagdict(self, d, tag):
        self.opq[1 if tag is T1 else 2] |= 1 << d

    # visible relations of view v
    def vsucc(self, v, mask):
        return self.succ(mask & ~self.hid[v] & ~self.opq[v])

    def vclose(self, v, start, avoid=0, x=False):
        h = self.hid[v]
        seen = front = start if x else start & ~avoid
        while front:
            front = self.vsucc(v, front & ~avoid) & ~seen
            if not x:
                front &= ~avoid
            seen |= front
        return seen & ~h


def mkworld(n, E, K):
    w = W9.__new__(W9)
    old = gr.fresh
    gr.fresh = lambda kind: NEW(w, kind, old)
    try:
        w.__init__(n, E, K)
    finally:
        gr.fresh = old
    return w


def NEW(w, kind, old):
    if kind in SLOTTED or kind in ('inst1', 'odict1', 'onset1', 'ograph1'):
        return w.new(kind)
    return old(kind)


def views(root, order=0):
    out = {}
    for v, tag in ((1, T1), (2, T2)):
        hv = heapyc.HeapView(root, (setsc._NyHeapDefs_,))
        hv._hiding_tag_ = tag
        if order == 1:          # use the types before they are registered
            hv.relimg([HS(), HSub(), HX(), HXSub()])
        if order == 2:
            hv.relimg([HSub()])
        hv.register__hiding_tag__type(HS)
        hv.register_hidden_exact_type(HX)
        out[v] = hv
    return out


MIX = [('hs1', 'list', 'inst1'), ('sd1', 'list', 'hx'), ('list', 'hsub1', 'odict1'), ('onset1', 'sd1', 'list'), ('hxsub', 'hx', 'list'),
       ('inst1', 'inst1', 'list'), ('sd2', 'sd1', 'list'), ('hs2', 'hs1', 'list')]


def shards(tier):
    out = [dict(part='graph', n=3, k=k, of=8) for k in range(8)]
    m = 16 if tier == 'quick' else 64
    out += [dict(part='graph', n=4, k=k, of=m) for k in range(m)]
    out += [dict(part='misc')]
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def assignments(n, tier):
    if n == 3:
        return list(itertools.product(KINDS, repeat=2))
    if tier == 'thorough':
        return list(itertools.product(KINDS, repeat=3))
    out = set()
    for k in KINDS:
        for pos in range(3):
            a = ['list'] * 3
            a[pos] = k
            out.add(tuple(a))
    return sorted(out) + MIX


def run_graph(shard, ctx):
    n = shard['n']
    loops = n == 3
    gs = [E for E in iso_classes(n, loops, True)]
    if n == 4 and ctx.tier == 'quick':
        # every node reachable from the root: the others are covered by fewer nodes
        gs = [E for E in gs if rooted(n, E)]
    As = assignments(n, ctx.tier)
    for gi, E in enumerate(gs[shard['k']::shard['of']]):
        for ai, K in enumerate(As):
            if not ctx.case('graph', E, K):
                continue
            graph_case(ctx, n, E, ('list',) + K, (gi + ai) % 3, full=n == 3 or ctx.tier == 'thorough')
            ctx.state(('g', tuple(E), K))
            if ctx.full:
                return


def rooted(n, E):
    seen = {0}
    while 1:
        new = {j for i, j in E if i in seen} - seen
        if not new:
            return len(seen) == n
        seen |= new


def graph_case(ctx, n, E, K, order, full):
    w = mkworld(n, E, K)
    O = w.objs
    root = O[0]
    hv = views(root, order)
    cls = w.objects(w.cls)
    for v in (1, 2):
        h = hv[v]
        r = h.heap()
        # classes and tags are outside of the model: ignore what is reached through them only
        got = w.mask(o for o in r if id(o) in w.index) & ~w.cls
        want = w.vclose(v, 1) & ~w.cls
        if got != want:
            ctx.fail('view %d: heap() has %s, want %s' % (v, names(w, got), names(w, want)))
        for o in r:
            if type(o) is HX:
                ctx.fail('view %d: hidden exact type in heap' % v)
        A = w.cls
        AN = MutNodeSet(cls)
        for s in range(1, 1 << n) if full else [1, 2, 4, 8, 15]:
            S = MutNodeSet(w.objects(s))
            got = w.mask(h.reachable(S, AN))
            want = w.vclose(v, s, A)
            if got != want:
                ctx.fail('view %d: reachable(%s) = %s, want %s' % (v, names(w, s), names(w, got), names(w, want)))
            got = w.mask(h.reachable_x(S, AN))
            want = w.vclose(v, s, A, True)
            if got != want:
                ctx.fail('view %d: reachable_x(%s) = %s, want %s' % (v, names(w, s), names(w, got), names(w, want)))
            got = w.mask(h.relimg(S))
            want = w.vsucc(v, s) & ~w.hid[v]
            if got != want:
                ctx.fail('view %d: relimg(%s) = %s, want %s' % (v, names(w, s), names(w, got), names(w, want)))
        ctx.add('transitions', 20)
        # referrers, incremental
        heap = w.vclose(v, 1)
        rg = heapyc.NodeGraph()
        h.update_referrers(rg, ImmNodeSet(O[:n]))
        for j in range(1, n):
            got = w.mask(o for o in rg[O[j]] if id(o) in w.index) & ~w.cls
            want = 0
            for i in range(w.N):
                if heap >> i & 1 and not w.opq[v] >> i & 1 and not w.cls >> i & 1 and w.adj[i] >> j & 1:
                    want |= 1 << i
            if got != want:
                ctx.fail('view %d: update_referrers: referrers of %d are %s, want %s' % (v, j, names(w, got), names(w, want)))
        # path search: no hidden object is ever passed through
        G = heapyc.NodeGraph()
        S = MutNodeSet()
        U = MutNodeSet([root])
        seen = 0
        model = 1
        while U and len(S) < 1000:
            S |= U
            V = h.shpathstep(G, U, S)
            mu = w.mask(o for o in U if id(o) in w.index) & ~w.cls
            if mu & ~model:
                ctx.fail('view %d: path search from %s reached %s' % (v, names(w, mu), names(w, mu & ~model)))
            model = w.vsucc(v, mu)
            U = [o for o in V if id(o) in w.index and not w.cls >> w.index[id(o)] & 1]
            U = MutNodeSet(U)
        for s, t in list(G):
            if id(t) in w.index and w.hid[v] >> w.index[id(t)] & 1:
                ctx.fail('view %d: path through the hidden object %d' % (v, w.index[id(t)]))
    # the complete referrer graph: a hidden object is no referrer target entry and opaque sets are no referrers
    w.dissolve()
    for o, k in zip(O, K):
        if k in SLOTTED:
            for s in ('s0', 's1', 's2', 's3'):
                try:
                    delattr(o, s)
                except AttributeError:
                    pass
        elif k in ('inst1',):
            o.__dict__.clear()
        elif k in ('odict1', 'onset1', 'ograph1'):
            o.clear()


def run_misc(shard, ctx):
    # registration errors leave the registry intact
    class A(object):
        __slots__ = '_hiding_tag_', 'x'

    class B(A):
        __slots__ = ()

    class N(object):
        pass

    class P(A, N):
        pass

    class D(dict):
        __slots__ = '_hiding_tag_', 'x'

    class L(list):
        __slots__ = '_hiding_tag_', 'x'

    class F(list):
        pass
    for steps in itertools.product(['regA', 'regB', 'exA', 'exB', 'useA', 'useB', 'useP'], repeat=3):
        if not ctx.case('reg', steps):
            continue
        hv = heapyc.HeapView(None, ())
        hv._hiding_tag_ = T1
        he, ex = [], []         # registered
        for s in steps:
            t = dict(A=A, B=B, P=P)[s[-1]]
            if s[:3] == 'use':
                hv.relimg([t()])
                continue
            is_he = any(issubclass(t, c) for c in he) and t not in ex
            already = is_he or t in ex
            try:
                (hv.register__hiding_tag__type if s[:3] == 'reg' else hv.register_hidden_exact_type)(t)
            except ValueError:
                ctx.check(already, '%s refused' % s)
            else:
                ctx.check(not already, '%s accepted twice' % s)
                (he if s[:3] == 'reg' else ex).append(t)
        for t in (A, B, P):
            for tag in (T1, T2, None):
                o = t()
                o._hiding_tag_ = tag
                o.x = x = ['x']
                hidden = t in ex or (tag is T1 and any(issubclass(t, c) for c in he))
                r = hv.relimg([[o]])
                ctx.eq(o not in r, hidden, '%s with tag %s: hidden' % (t.__name__, tag))
                ctx.eq(x not in hv.relimg([o]), hidden, '%s with tag %s: referents hidden' % (t.__name__, tag))
                ctx.eq(x not in hv.reachable(ImmNodeSet([o]), ImmNodeSet()), hidden, '%s with tag %s: reachable hidden' % (t.__name__, tag))
        ctx.add('transitions', 9)
        ctx.state(steps)
    # tags change: hiding follows the current tag of the object and of the view
    for t in (HS, HSub, SD, gr.Inst, D, L):
        for h in itertools.product([T1, T2, 'del'], repeat=2):
            for vt in itertools.product([T1, T2], repeat=2):
                if not ctx.case('retag', t.__name__, h, vt):
                    continue
                hv = heapyc.HeapView(None, ())
                hv.register__hiding_tag__type(HS)
                hv.register__hiding_tag__type(D)
                hv.register__hiding_tag__type(L)
                o = t()
                for a, b in zip(h, vt):
                    if a == 'del':
                        try:
                            del o._hiding_tag_
                        except AttributeError:
                            pass
                    else:
                        o._hiding_tag_ = a
                    hv._hiding_tag_ = b
                    ctx.eq(o not in hv.relimg([[o]]), a is b, 'hidden')
                ctx.state((t, str(h), str(vt)))
    # not registrable
    hv = heapyc.HeapView(None, ())
    for bad in (object, int, list, N, Plain):
        if ctx.case('noslot', bad.__name__):
            ctx.raises(ValueError, hv.register__hiding_tag__type, bad)
    for bad in (None, 3, 'x', N()):
        if ctx.case('notype', bad.__class__.__name__):
            ctx.raises(TypeError, hv.register__hiding_tag__type, bad)
            ctx.raises(TypeError, hv.register_hidden_exact_type, bad)
