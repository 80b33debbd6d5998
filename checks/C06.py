"""References are neither leaked nor over-released."""
import array, gc, itertools, operator, sys, types, weakref
import faultlib
fault = faultlib.load()
import ops
import C22
from C22 import ALL, BAD, BIG, Boom, Iter, Acting, ACTS, places, put, at, operands, chosen
from ops import POOL, MutNodeSet, ImmNodeSet, NodeGraph, NodeSet, World, HCase, mutnodeset, immnodeset, setsc
from guppy.heapy import heapyc

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of operation sequences and of failing arguments on the real implementation, with a ledger of references, of allocated blocks and of what the garbage collector is told'
RULE = ('histories: every sequence of operations over two node sets, two node graphs, an iterator and a result, three elements and a tag, the last of which is checked: the reference count of each object is what it was plus the number of times '
        'the containers hold it, by what they answer and by what they tell the collector; the containers are then released in all orders, or the elements first.  '
        'catalogue: every operation, plain, with each argument replaced by each unsuitable object, with iterables that raise at each position and user code that interferes at each position, does so with the same counts and the same number of blocks afterwards; '
        'its result outlives its operands.  cycles: objects of every kind that hold others, in rings, are collected, and the classes of what was looked at die with it')
BOUNDS = dict(quick='94 operations, sequences of up to 3; some 1000 operations with 85 unsuitable objects; rings of up to 2 of 30 kinds of holders',
              thorough='the same, sequences of up to 4 of 47 of them; some 2500 operations; rings of up to 3')
ASSUME = ['immortal objects are not counted', 'blocks kept by the interpreter in its free lists are told from leaks by repeating']
ENV = dict(PYTHONMALLOC='debug')


# ------------------------------------------------------------------ histories

class T(object):
    __slots__ = ('a', '__weakref__')


class Box:
    """What a history works on; o are the elements."""
    def __init__(self):
        self.o = [T(), T(), T(), T()]
        self.tag = self.o[3]
        a, b, c = self.o[:3]
        self.s = mut([a], self.tag)
        self.i = ImmNodeSet([a, b], self.tag)
        self.g = NodeGraph([(a, b)])
        self.m = NodeGraph([(b, c)], True)
        self.it = iter(())
        self.r = None


def mut(items, tag):
    s = MutNodeSet(items)
    s._hiding_tag_ = tag
    return s


class Stop(Exception):
    pass


def stopping(items, n):
    for x in items:
        if not n:
            raise Stop
        n -= 1
        yield x
    raise Stop


HIST = {}


def hist(name):
    def deco(f):
        HIST[name] = f
        return f
    return deco


def _hist():
    def h(name, f):
        HIST[name] = f

    def setter(name, k, f):
        def do(w):
            setattr(w, k, f(w))
        h(name, do)
    for j in (0, 2):
        for m in ('add', 'discard', 'append', 'tas', 'tac', 'remove'):
            h('s.%s %d' % (m, j), lambda w, m=m, j=j: getattr(w.s, m)(w.o[j]))
    setter('r=s.pop', 'r', lambda w: w.s.pop())
    h('s.clear', lambda w: w.s.clear())
    for o, (bop, iop) in ops.BIN.items():
        def inplace(w, iop=iop):
            w.s = iop(w.s, w.i)
        h('s%s=i' % o, inplace)

        def inplacel(w, iop=iop):
            w.s = iop(w.s, [w.o[0], w.o[2], w.o[0]])
        h('s%s=list' % o, inplacel)

        def inplacef(w, iop=iop):
            try:
                w.s = iop(w.s, stopping([w.o[1], w.o[0], w.o[2]], 2))
            except Stop:
                pass
        h('s%s=stopping' % o, inplacef)

        def inplaceself(w, iop=iop):
            w.s = iop(w.s, w.s)
        h('s%s=s' % o, inplaceself)
        setter('i=i%ss' % o, 'i', lambda w, bop=bop: bop(w.i, w.s))
        setter('i=s%slist' % o, 'i', lambda w, bop=bop: bop(w.s, [w.o[1], w.o[2]]))
        setter('i=i%sstopping' % o, 'i', lambda w, bop=bop: bop(w.i, stopping([w.o[2], w.o[0]], 1)))
        setter('i=i%snothing' % o, 'i', lambda w, bop=bop: bop(w.i, ()))
    setter('i=immnodeset(s)', 'i', lambda w: immnodeset(w.s))
    setter('i=immnodeset(i)', 'i', lambda w: immnodeset(w.i))
    setter('i=immnodeset(stopping)', 'i', lambda w: immnodeset(stopping(w.o, 2)))
    setter('i=ImmNodeSet(list, tag)', 'i', lambda w: ImmNodeSet([w.o[2], w.o[2], w.o[1]], w.tag))
    setter('s=MutNodeSet(i, tag)', 's', lambda w: mut(w.i, w.tag))
    setter('s=MutNodeSet(stopping, tag)', 's', lambda w: mut(stopping(w.o, 3), w.tag))
    setter('s=mutnodeset(s)', 's', lambda w: mutnodeset(w.s))
    setter('r=i.obj_at', 'r', lambda w: w.i.obj_at(id(w.o[1])))
    setter('it=iter(s)', 'it', lambda w: iter(w.s))
    setter('it=iter(i)', 'it', lambda w: iter(w.i))
    setter('it=iter(g)', 'it', lambda w: iter(w.g))
    setter('it=iter(m)', 'it', lambda w: iter(w.m))
    setter('r=next(it)', 'r', lambda w: next(w.it))
    for a, b in ((0, 0), (0, 1), (2, 0)):
        h('g.add %d%d' % (a, b), lambda w, a=a, b=b: w.g.add_edge(w.o[a], w.o[b]))
    h('m.add 01', lambda w: w.m.add_edge(w.o[0], w.o[1]))
    h('m.add 10', lambda w: w.m.add_edge(w.o[1], w.o[0]))
    h('g.add_edges_n1', lambda w: w.g.add_edges_n1(w.s, w.o[2]))
    h('g.add_edges_n1 stopping', lambda w: w.g.add_edges_n1(stopping(w.o, 2), w.o[2]))
    h('g.update', lambda w: w.g.update([(w.o[1], w.o[2]), (w.o[1], w.o[0]), (w.o[1], w.o[2])]))
    h('g.update stopping', lambda w: w.g.update(stopping([(w.o[1], w.o[2]), (w.o[1], w.o[0])], 1)))
    h('g.update bad', lambda w: w.g.update([(w.o[1], w.o[2]), 7]))
    h('g.update(m)', lambda w: w.g.update(w.m))
    h('g.update(g)', lambda w: w.g.update(w.g))
    setter('g=g.updated', 'g', lambda w: w.g.updated([(w.o[2], w.o[0])]))
    setter('g=g.copy', 'g', lambda w: w.g.copy())
    h('g.invert', lambda w: w.g.invert())
    setter('g=m.inverted', 'g', lambda w: w.m.inverted())
    setter('m=NodeGraph(g, True)', 'm', lambda w: NodeGraph(w.g, True))
    setter('g=NodeGraph(stopping)', 'g', lambda w: NodeGraph(stopping([(w.o[1], w.o[2]), (w.o[1], w.o[0])], 1)))
    h('g.clear', lambda w: w.g.clear())
    setter('r=g[0]', 'r', lambda w: w.g[w.o[0]])
    setter('r=m[1]', 'r', lambda w: w.m[w.o[1]])

    def assign(w):
        w.g[w.o[0]] = (w.o[0],)
    h('g[0]=(0,)', assign)

    def assign2(w):
        w.g[w.o[0]] = (w.o[2], w.o[1])
    h('g[0]=(2,1)', assign2)

    def assignm(w):
        w.m[w.o[1]] = w.o[0]
    h('m[1]=0', assignm)
    setter('r=g.as_flat_list', 'r', lambda w: w.g.as_flat_list())
    setter('i=g.get_domain', 'i', lambda w: w.g.get_domain())
    setter('i=g.get_range', 'i', lambda w: w.g.get_range())
    setter('i=g.relimg(s)', 'i', lambda w: w.g.relimg(w.s))
    setter('i=g.relimg(stopping)', 'i', lambda w: w.g.relimg(stopping(w.o, 2)))
    setter('r=g.domain_covers(s)', 'r', lambda w: w.g.domain_covers(w.s))
    setter('g=g.domain_restricted(i)', 'g', lambda w: w.g.domain_restricted(w.i))
    setter('g=g.domain_restricted(stopping)', 'g', lambda w: w.g.domain_restricted(stopping(w.o, 1)))
    for k in 'sg':
        def tag(w, k=k):
            getattr(w, k)._hiding_tag_ = w.o[0]
        h('%s.tag=0' % k, tag)
    h('r=tags', lambda w: setattr(w, 'r', (w.s._hiding_tag_, w.g._hiding_tag_, w.i._hiding_tag_)))


_hist()
HNAMES = list(HIST)
CORE = [n for n in HNAMES if n in ('s.add 2', 's.discard 0', 's.append 2', 's.tas 2', 's.tac 0', 'r=s.pop', 's.clear', 's|=i', 's-=i', 's^=i', 's&=list', 's|=stopping', 's^=stopping', 's^=s', 'i=i|s', 'i=i-s', 'i=i^s', 'i=s|list',
                                  'i=immnodeset(s)', 'i=immnodeset(i)', 's=MutNodeSet(i, tag)', 's=mutnodeset(s)', 'it=iter(s)', 'it=iter(g)', 'r=next(it)', 'g.add 00', 'g.add 01', 'g.add 20', 'm.add 10', 'g.add_edges_n1', 'g.update', 'g.update stopping',
                                  'g.update bad', 'g.update(g)', 'g=g.copy', 'g.invert', 'g=m.inverted', 'g.clear', 'r=g[0]', 'g[0]=(0,)', 'g[0]=(2,1)', 'm[1]=0', 'i=g.get_range', 'i=g.relimg(s)', 'g=g.domain_restricted(i)', 's.tag=0', 'r=tags')]


def world(hist):
    w = Box()
    for n in hist:
        try:
            HIST[n](w)
        except (Stop, KeyError, ValueError, TypeError, StopIteration, AttributeError, RuntimeError) as e:
            e.__traceback__ = None
    return w


def held(x, inner=False):
    """The ids of what a container holds, as often as it does."""
    if isinstance(x, NodeSet):
        l = [id(o) for o in x]
    elif isinstance(x, NodeGraph):
        l = []
        for e in x:
            l += [id(e[0]), id(e[1])]
            if inner:
                l += [id(o) for t in e if type(t) is tuple for o in t]
        e = None
    elif type(x) in (tuple, list):
        return [id(o) for o in x]
    else:
        return [id(x)]
    l.append(id(getattr(x, '_hiding_tag_', None)))
    return l


def told(x):
    l = gc.get_referents(x)
    return [id(o) for o in l]


def ledger(w, base, ctx, what, slots):
    want = list(base)
    have = [sys.getrefcount(o) for o in w.o]
    # (a result that is an iterator of another one, or the like, holds none of them)
    ids = [id(o) for o in w.o]
    seen = []
    tuples = []
    xs = [getattr(w, k) for k in slots]
    if w.it is not None:
        # (an iterator holds its container, not the elements)
        xs += [x for x in gc.get_referents(w.it) if isinstance(x, (NodeSet, NodeGraph))]
    for x in xs:
        if any([x is y for y in seen]) and type(x) is not T:
            continue
        seen.append(x)
        l = held(x)
        for j, i in enumerate(ids):
            want[j] += l.count(i)
        if isinstance(x, NodeGraph):
            tuples += [t for e in x for t in e if type(t) is tuple]     # (made by an operation)
        if isinstance(x, (NodeSet, NodeGraph)):
            t = told(x)
            for j, i in enumerate(ids):
                if t.count(i) != l.count(i):
                    ctx.fail('%s: tells the collector of %d references to object %d, and has %d: %r' % (what, t.count(i), j, l.count(i), x))
    while tuples:
        t = tuples.pop()
        if not any([t is y for y in seen]):
            seen.append(t)
            l = [id(o) for o in t]
            for j, i in enumerate(ids):
                want[j] += l.count(i)
    x = xs = t = seen = None
    have2 = [sys.getrefcount(o) for o in w.o]
    if have2 != want:
        ctx.fail('%s: references %r, and what holds them accounts for %r' % (what, have2, want))
    # (edges that were added twice are held twice until it is sorted)
    if any([a < b for a, b in zip(have, have2)]):
        ctx.fail('%s: references %r became %r by looking at them' % (what, have, have2))
    return want


SLOTS = ('s', 'i', 'g', 'm', 'r')


def history(ctx, hist):
    b = [T(), T()]
    base = None
    b = None
    w = world(hist)
    # the references of the box itself: o, and tag
    ledger(w, BASE, ctx, 'afterwards', SLOTS)
    w.it = None
    ledger(w, BASE, ctx, 'without the iterator', SLOTS)
    for k in ORDERS[len(hist[-1]) % len(ORDERS)] if hist else SLOTS:
        setattr(w, k, None)
        ledger(w, BASE, ctx, 'without ' + k, [j for j in SLOTS if getattr(w, j) is not None])
    # elements live as long as a container holds them
    w = world(hist)
    it = w.it
    w.it = None
    x = None
    hold = set()
    for k in SLOTS:
        hold.update(held(getattr(w, k), True))
    refs = [(j, id(o), weakref.ref(o)) for j, o in enumerate(w.o)]
    w.o = w.tag = None
    it = None
    for j, i, r in refs:
        if (r() is not None) != (i in hold):
            ctx.fail('object %d is %s, and %s by a container' % (j, 'dead' if r() is None else 'alive', 'held' if i in hold else 'not held'))
    for k in SLOTS:
        setattr(w, k, None)
    for j, i, r in refs:
        if r() is not None:
            ctx.fail('object %d is alive when everything is gone' % j)


ORDERS = [('s', 'i', 'g', 'm', 'r'), ('r', 'm', 'g', 'i', 's'), ('g', 's', 'r', 'i', 'm'), ('i', 'r', 'm', 's', 'g'), ('m', 'g', 's', 'r', 'i')]


def _base():
    w = Box()
    for k in SLOTS + ('it',):
        setattr(w, k, None)
    return [sys.getrefcount(o) for o in w.o]


BASE = _base()


# ------------------------------------------------------------------ catalogue

WATCH = POOL + [ops.T, ops.M, ops.K, C22._hv, C22._cli, C22._hor]


def counts():
    return [sys.getrefcount(o) for o in WATCH]


def plain(name, make):
    yield 'plain', lambda: once(make)


def variants(name, make):
    """(what, run) for the ways of calling an operation."""
    yield 'plain', lambda: once(make)
    c = make()
    ps = list(places(c.args))
    its = {p: len(at(c.args, p)) for p in ps if type(at(c.args, p)) in (list, tuple, ImmNodeSet, setsc.ImmBitSet) and len(at(c.args, p)) < 12}
    acts = [len(ACTS[type(x)]) for x in operands(c)]
    c = None
    for p in ps + [None]:
        for bad in BAD:
            if bad not in BIG:
                yield (p, bad), lambda p=p, bad=bad: once(make, lambda args: put(args, p, BAD[bad]()) if p else args + (BAD[bad](),))
    for p, n in its.items():
        for k in range(n + 1):
            yield (p, 'raising', k), lambda p=p, k=k: once(make, lambda args: put(args, p, Iter(at(args, p), k)))
            for j, m in enumerate(acts):
                for i in range(m):
                    def run(p=p, k=k, j=j, i=i):
                        c = make()
                        x = operands(c)[j]
                        act = ACTS[type(x)][i]
                        c.args = put(c.args, p, Acting(list(at(c.args, p)), k, lambda: act(x)))
                        call(c)
                    yield (p, 'acting', k, j, i), run


def once(make, change=None):
    c = make()
    if change:
        c.args = change(c.args)
    return call(c)


def call(c):
    try:
        r = c.f(*c.args, **(c.kw or {}))
    except Exception as e:
        e.__traceback__ = None
        e.__context__ = e.__cause__ = None
        return None
    return r


def outlives(ctx, name, make):
    """A result is as good when everything else is gone."""
    c = make()
    n = c.norm
    r = call(c)
    try:
        want = n(r)
    except Exception as e:
        return
    if r is c.args or any([r is x for x in c.args]):
        return
    ids = None
    c = None
    gc.collect()
    if n is ops.norm:
        got = n(r)
        ctx.check(got == want, lambda: 'result %r, with the operands gone %r' % (want, got))
    else:
        use(r)


def use(r):
    """Look at all of it."""
    if isinstance(r, (NodeSet, NodeGraph)):
        for x in r:
            repr(type(x))
    elif type(r) in (tuple, list):
        for x in r:
            use(x)
    else:
        type(r).__name__


def operation(ctx, name, make, cyclic):
    """All ways of calling an operation, again and again: the counts do not move."""
    vs = list(plain(name, make) if 'msplit' in name else variants(name, make))

    slow = 'dictof' in name

    def batch(part):
        for i, (what, run) in enumerate(part):
            run()
            if slow and i % 16 == 0:
                gc.collect()        # (it looks at the garbage)
        run = None
        if cyclic:
            gc.collect()

    def steady(part, times):
        """What is wrong with repeating these: None, or a text."""
        base = counts()
        live = array.array('l', [0] * times)      # (whose items are no objects)
        for i in range(times):
            batch(part)
            live[i] = fault.live()
            if i and live[i] <= live[i - 1]:
                times = i
                break
        else:
            times = 0
        now = counts()
        if now != base:
            return 'reference counts changed by %r' % ({('%d' % j): b - a for j, (a, b) in enumerate(zip(base, now)) if a != b},)
        # until the free lists of the interpreter are full
        if not times:
            return 'blocks %r' % ([b - a for a, b in zip(live, live[1:])][-50:],)

    batch(vs)
    ctx.add('calls', len(vs))
    together = steady(vs, 80)
    if not together:
        return
    # which of them is it
    for v in vs:
        s = steady([v], 500)
        if s:
            ctx.fail('%r: %s' % (v[0], s))
            return
    ctx.fail('together: %s' % together)


# --------------------------------------------------------------------- cycles

class O(object):
    """An element that leads on."""
    def __init__(self):
        self.to = None


def _holders():
    defs = ops._defs
    H = {}
    H['mutnodeset'] = lambda o: MutNodeSet([o])
    H['immnodeset'] = lambda o: ImmNodeSet([o])
    H['tag of mutnodeset'] = lambda o: mut([], o)
    H['tag of immnodeset'] = lambda o: ImmNodeSet([], o)
    H['source'] = lambda o: NodeGraph([(o, None)])
    H['target'] = lambda o: NodeGraph([(None, o)])
    H['source unsorted'] = lambda o: extended(NodeGraph([(o, None)]), o)
    H['mapping'] = lambda o: NodeGraph([(o, o)], True)
    H['iterator of nodes'] = lambda o: iter(MutNodeSet([o]))
    H['iterator of imm nodes'] = lambda o: started(iter(ImmNodeSet([o, None])))
    H['iterator of graph'] = lambda o: started(iter(NodeGraph([(o, None), (None, o)])))
    H['view root'] = lambda o: heapyc.HeapView(o, defs)
    H['view tag'] = lambda o: tagged(heapyc.HeapView((), defs), o)
    H['view hidden'] = lambda o: looked(heapyc.HeapView(o, defs))

    def cli(f):
        def make(o):
            hv = heapyc.HeapView((), defs)
            return f(hv, o)
        return make
    H['cli memo'] = cli(lambda hv, o: hv.cli_indisize({1: o}))
    H['cli prod'] = cli(lambda hv, o: hv.cli_prod({1: o}))
    H['cli rcs'] = cli(lambda hv, o: hv.cli_rcs(NodeGraph([(o, o)]), hv.cli_type(), {}))
    H['cli inrel'] = cli(lambda hv, o: hv.cli_inrel(NodeGraph([(o, o)]), {}, {}))
    H['cli inrel memo'] = cli(lambda hv, o: hv.cli_inrel(NodeGraph(), {1: o}, {2: o}))
    H['cli and'] = cli(lambda hv, o: hv.cli_and((hv.cli_type(), hv.cli_indisize({1: o})), {}))
    H['cli and memo'] = cli(lambda hv, o: hv.cli_and((hv.cli_type(), hv.cli_type()), {1: o}))
    H['cli dictof'] = cli(lambda hv, o: hv.cli_dictof(NodeGraph([(o, None)]), hv.cli_type(), None, ()))
    H['cli dictof kind'] = cli(lambda hv, o: hv.cli_dictof(NodeGraph(), hv.cli_type(), o, ()))
    H['cli dictof other'] = cli(lambda hv, o: hv.cli_dictof(NodeGraph(), hv.cli_type(), None, o))
    H['cli findex'] = cli(lambda hv, o: hv.cli_findex(((hv.cli_type(), o, '=='),), {}))
    H['cli findex memo'] = cli(lambda hv, o: hv.cli_findex(((hv.cli_type(), list, '=='),), {1: o}))
    H['cli user'] = cli(lambda hv, o: hv.cli_user_defined(hv.cli_type(), o, len, None))
    H['cli user class'] = cli(lambda hv, o: hv.cli_user_defined(hv.cli_type(), list, lambda x: o, None))
    H['method'] = lambda o: MutNodeSet([o]).add
    H['cli self'] = cli(lambda hv, o: hv.cli_indisize({1: o}).self)
    return H


def extended(g, o):
    g.add_edge(o, o)
    g.add_edge(o, o)
    return g


def started(it):
    try:
        next(it)
    except StopIteration:
        pass
    return it


def tagged(hv, o):
    hv._hiding_tag_ = o
    return hv


def looked(hv):
    hv.heap()
    hv.relimg([hv.root])
    return hv


HOLDERS = _holders()


def ring(ctx, names):
    os = [O() for n in names]
    for i, n in enumerate(names):
        os[i].to = HOLDERS[n](os[i - 1])
    refs = [weakref.ref(o) for o in os]
    gc.collect()
    ctx.check(all([r() is not None for r in refs]), 'an element has died in a set')
    if len(names) > 1:
        # each of them alone keeps all of the others
        o = os[0]
        os = None
        gc.collect()
        ctx.check(all([r() is not None for r in refs]), 'an element has died in a ring')
    o = os = None
    gc.collect()
    dead = [r() is None for r in refs]
    ctx.check(all(dead), lambda: 'never collected: %r' % [n for n, d in zip(names, dead) if not d])
    for r in refs:
        x = r()
        if x is not None:
            x.to = None


def classes(ctx, how, twice):
    """A class that was seen by a view is no longer alive than it was."""
    class C(object, metaclass=type):
        pass

    class S(list):
        __slots__ = ('x', )
    x = C()
    x.y = S()
    x.y.append(x.y)
    hv = heapyc.HeapView(x, ops._defs)
    refs = [weakref.ref(C), weakref.ref(S)]
    for i in range(twice):
        VIEWS[how](hv, x)
    x = C = S = None
    hv.root = ()
    gc.collect()
    ctx.check([r() for r in refs] == [None, None], 'the class of what was looked at is kept alive by the view')
    hv.heap()
    # another one may be made where they were
    class C2(object):
        pass

    class S2(tuple):
        pass
    y = C2()
    y.z = S2([y, POOL[0]])
    hv.root = y
    got = [o for o in hv.heap() if o is y or o is y.z or o is POOL[0]]
    ctx.check(len(got) == 3, 'objects of a new class are not seen')
    got = None
    refs = [weakref.ref(C2), weakref.ref(y), weakref.ref(hv) if hasattr(hv, '__weakref__') else lambda: None]
    y = C2 = S2 = None
    hv = None
    gc.collect()
    ctx.check([r() for r in refs] == [None] * 3, 'the class of what was looked at is kept alive after the view')


def _nodes(hv, x):
    return immnodeset([x, x.y])


VIEWS = {
    'heap': lambda hv, x: hv.heap(),
    'relimg': lambda hv, x: hv.relimg([x]),
    'reachable': lambda hv, x: hv.reachable(hv_nodes(hv, x), hv_nodes(hv)),
    'indisize_sum': lambda hv, x: hv.indisize_sum([x, x.y]),
    'numedges': lambda hv, x: hv.numedges(x, x.y),
    'relate': lambda hv, x: hv.relate(x, x.y),
    'referrers': lambda hv, x: hv.update_referrers_completely(NodeGraph()),
    'dictowners': lambda hv, x: hv.update_dictowners(NodeGraph()),
    'hidden': lambda hv, x: (hidden(hv, x), hv.heap()),
    'hidden stays': lambda hv, x: hidden(hv, x),
    'by type': lambda hv, x: hv.cli_type().partition([x, x.y]),
    'by size': lambda hv, x: hv.cli_indisize({}).partition([x, x.y]),
    'horizon': lambda hv, x: heapyc.Horizon([x]).news([x, x.y]),
}


def hidden(hv, x):
    try:
        hv.register_hidden_exact_type(type(x))
    except ValueError:
        pass        # (already)


def hv_nodes(hv, *os):
    s = mutnodeset(os)
    s._hiding_tag_ = hv._hiding_tag_
    return s


# ----------------------------------------------------------------------- runs

def shards(tier):
    r = [['catalogue', i, 192] for i in range(192)]
    r += [['histories', i, len(HNAMES)] for i in range(len(HNAMES))]
    r += [['rings', i, 24] for i in range(24)]
    r += [['classes', 0, 1]]
    return r


def run(shard, ctx):
    f, i, n = shard
    gc.disable()
    gc.collect()
    gc.freeze()
    quick = ctx.tier == 'quick'
    if f == 'histories':
        first = HNAMES[i]
        if i == 0 and ctx.case('history'):
            history(ctx, ())
        for d in range(3 if quick or first not in CORE else 4):
            for h in itertools.product(HNAMES if d < 3 else CORE, repeat=d):
                h = (first,) + h
                if ctx.case('history', *h):
                    history(ctx, h)
                    ctx.add('histories')
                    if ctx.full:
                        return
    elif f == 'catalogue':
        for i in range(1500):       # (fills what the interpreter keeps)
            once(ALL['view cli_dictof: classify 2'])
            gc.collect()
        i = shard[1]
        for name in chosen(ctx.tier)[i::n]:
            if ctx.case('operation', name):
                make = ALL[name]
                c = make()
                if c is None:
                    continue
                cyclic = c.cyclic or hasattr(c, 'w') or isinstance(c.keep, (World, ops.Bare))
                c = None
                operation(ctx, name, make, True)
                outlives(ctx, name, make)
                ctx.add('operations')
                if ctx.full:
                    return
    elif f == 'rings':
        j = 0
        for d in range(1, 3 if quick else 4):
            for h in itertools.product(HOLDERS, repeat=d):
                j += 1
                if j % n == i and ctx.case('ring', *h):
                    ring(ctx, h)
                    ctx.add('rings')
                    if ctx.full:
                        return
    else:
        for how in VIEWS:
            for twice in (1, 2):
                if ctx.case('classes', how, twice):
                    classes(ctx, how, twice)
