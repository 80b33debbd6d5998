"""A horizon reports exactly the objects created since it was set."""
import array, collections, ctypes, functools, gc, io, itertools, operator, os, queue, random, re, struct, sys, time, types, weakref
from guppy.heapy import heapyc
from guppy.sets import setsc
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all histories of object and horizon lifetimes on the real implementation, against a generation counter per address'
RULE = ('all legal sequences of creating and deleting objects of a type in two slots, taking and dropping two horizons, with all live objects compared '
        'against every live horizon after each step, for every type of a zoo that shares, inherits and overrides deallocation; the same for every ordered '
        'pair of types; every subset of objects given to a horizon; dropping the last horizon from within a deallocation; freed contents are observed')
BOUNDS = dict(quick='57 types x all histories of length 8; 57 x 57 type pairs x all histories of length 5', thorough='length 10; pairs: length 6')
ASSUME = ['objects that were allocated before and after are told apart by the order of operations (one creation per step)',
          'containers are not nested beyond 1000 levels']

H = heapyc.Horizon


class P(object):
    pass


class S(object):
    __slots__ = 'a',


class SubList(list):
    pass


class SubDict(dict):
    pass


class SubOD(collections.OrderedDict):
    pass


class SubDeque(collections.deque):
    pass


class SubInt(int):
    pass


class SubTuple(tuple):
    __slots__ = ()


class SubExc(ValueError):
    pass


class SubPartial(functools.partial):
    pass


class Del(object):
    def __del__(self):
        [object(), {}, [], P()]


NT = collections.namedtuple('NT', 'a b')


class CS(ctypes.Structure):
    _fields_ = [('a', ctypes.c_int)]


def gen(x):
    yield x


def startgen(x):
    g = gen(x)
    next(g)
    return g


def f(x):
    def g():
        return x
    return g


class Canary(object):
    __slots__ = '__weakref__',


def frame(x):
    return sys._getframe()


def tb(x):
    try:
        raise ValueError(x)
    except ValueError as e:
        t = e.__traceback__
        e.__traceback__ = None
        return t


# name, constructor from a canary that the object should hold (or ignore)
ZOO = [
    ('object', lambda c: object()),
    ('instance', lambda c: setattr_(P(), c)),
    ('slots', lambda c: setattr_(S(), c)),
    ('list', lambda c: [c]),
    ('dict', lambda c: {1: c}),
    ('tuple', lambda c: (c, 1)),
    ('set', lambda c: {c}),
    ('frozenset', lambda c: frozenset([c])),
    ('str', lambda c: ''.join(['ab', 'cde', str(c is None)])),
    ('bytes', lambda c: bytes([1, 2, 3, 4, c is None])),
    ('float', lambda c: operator.truediv(3, 7 + (c is None))),
    ('int', lambda c: operator.pow(7, 90 + (c is None))),
    ('function', lambda c: f(c)),
    ('cell', lambda c: types.CellType(c)),
    ('method', lambda c: types.MethodType(len, c)),
    ('builtin method', lambda c: [c].append),
    ('generator', lambda c: startgen(c)),
    ('OrderedDict', lambda c: collections.OrderedDict([(1, c)])),
    ('defaultdict', lambda c: collections.defaultdict(None, {1: c})),
    ('deque', lambda c: collections.deque([c])),
    ('partial', lambda c: functools.partial(len, c)),
    ('array', lambda c: array.array('i', [1, 2])),
    ('ValueError', lambda c: ValueError(c)),
    ('OSError', lambda c: OSError(1, c)),
    ('BytesIO', lambda c: io.BytesIO(b'abc')),
    ('namedtuple', lambda c: NT(c, 1)),
    ('struct_time', lambda c: time.struct_time((c,) * 9)),
    ('stat_result', lambda c: os.stat_result((c,) * 10)),
    ('Struct', lambda c: struct.Struct('iii')),
    ('ctypes', lambda c: CS(1)),
    ('SimpleQueue', lambda c: qput(c)),
    ('Random', lambda c: random.Random(1)),
    ('sublist', lambda c: SubList([c])),
    ('subdict', lambda c: SubDict({1: c})),
    ('sub OrderedDict', lambda c: SubOD([(1, c)])),
    ('subdeque', lambda c: SubDeque([c])),
    ('subint', lambda c: SubInt(12345)),
    ('subtuple', lambda c: SubTuple((c,))),
    ('subexception', lambda c: SubExc(c)),
    ('subpartial', lambda c: SubPartial(len, c)),
    ('with __del__', lambda c: setattr_(Del(), c)),
    ('class', lambda c: type('K', (), {'c': c})),
    ('weakref', lambda c: weakref.ref(P, f(c))),
    ('itertools', lambda c: itertools.repeat(c)),
    ('list iterator', lambda c: iter([c])),
    ('memoryview', lambda c: memoryview(b'abc')),
    ('nodeset', lambda c: setsc.MutNodeSet([c])),
    ('bitset', lambda c: setsc.ImmBitSet([1, 5, 100])),
    ('mutbitset', lambda c: setsc.MutBitSet([1, 5, 100])),
    ('property', lambda c: property(c)),
    ('staticmethod', lambda c: staticmethod(c)),
    ('slice', lambda c: slice(c)),
    ('range', lambda c: range(5)),
    ('complex', lambda c: complex(1, 2)),
    ('frame', frame),
    ('traceback', tb),
    ('mappingproxy', lambda c: types.MappingProxyType({1: c})),
]
HOLDS = 'instance slots list dict tuple set frozenset function cell method generator OrderedDict defaultdict deque partial ValueError namedtuple'.split() + \
    ['builtin method', 'struct_time', 'SimpleQueue', 'sublist', 'subdict', 'sub OrderedDict', 'subdeque', 'subtuple', 'subexception', 'subpartial', 'with __del__', 'itertools',
     'list iterator', 'nodeset', 'property', 'staticmethod', 'slice', 'mappingproxy', 'frame']


def setattr_(o, c):
    o.a = c
    return o


def qput(c):
    q = queue.SimpleQueue()
    q.put(c)
    return q


def shards(tier):
    n = 32 if tier == 'quick' else 96
    return ([dict(part='one', k=k, of=16) for k in range(16)] + [dict(part='two', k=k, of=n) for k in range(n)] +
            [dict(part='sub', k=0), dict(part='drop', k=0), *[dict(part='view', k=k, of=8) for k in range(8)], dict(part='nest', k=0)])


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def histories(depth):
    """All legal operation sequences: slots 0/1 and horizons 0/1 are toggled."""
    return itertools.product(range(4), repeat=depth)


class Sim:
    def __init__(self, ctx, t0, t1):
        self.ctx = ctx
        self.make = t0[1], t1[1]
        self.name = '%s, %s' % (t0[0], t1[0])
        self.holds = t0[0] in HOLDS, t1[0] in HOLDS
        self.types = [type(m(Canary())) for m in self.make]
        self.reused = 0

    def run(self, hist):
        slot = [None, None]
        horizon = [None, None]
        old = [None, None]      # per horizon: which slots hold an old object
        canary = [None, None]
        was = [None, None]
        seen = set()
        for step, op in enumerate(hist):
            if op < 2:
                if slot[op] is None:
                    c = Canary()
                    slot[op] = self.make[op](c)
                    canary[op] = weakref.ref(c)
                    del c
                    if id(slot[op]) in seen:
                        self.reused += 1
                else:
                    seen.add(id(slot[op]))
                    slot[op] = None
                    for o in old:
                        if o is not None:
                            o.discard(op)
                    if self.holds[op] and canary[op]() is not None:
                        self.ctx.fail('%s: history %s: the contents of a deallocated object were not released' % (self.name, hist[:step + 1]))
                        return
            else:
                i = op - 2
                if horizon[i] is None:
                    # The second one is given the types of the objects too
                    horizon[i] = H([x for x in slot if x is not None] + (self.types if i else []))
                    old[i] = {k for k in (0, 1) if slot[k] is not None}
                else:
                    horizon[i] = old[i] = None
            live = [x for x in slot if x is not None]
            for i in (0, 1):
                if horizon[i] is not None:
                    news = horizon[i].news(live)
                    for k in (0, 1):
                        if slot[k] is not None:
                            new = slot[k] in news
                            if new == (k in old[i]):
                                self.ctx.fail('%s: history %s: the object in slot %d is %s, horizon %d says %s' % (
                                    self.name, hist[:step + 1], k, 'old' if k in old[i] else 'new', i, 'new' if new else 'old'))
                                return
                    if len(news) != sum(1 for k in (0, 1) if slot[k] is not None and k not in old[i]):
                        self.ctx.fail('%s: history %s: %d new objects' % (self.name, hist[:step + 1], len(news)))
                        return
            live = news = None


def run_one(shard, ctx):
    depth = 8 if ctx.tier == 'quick' else 10
    for t in ZOO[shard['k']::shard['of']]:
        if not ctx.case('one', t[0]):
            continue
        sim = Sim(ctx, t, t)
        slow = t[0] in ('class', 'Random', 'traceback')
        for hist in histories(depth - 2 * slow):
            sim.run(hist)
            ctx.add('states', 1)
            ctx.add('transitions', depth)
            if ctx.full:
                return
        ctx.add('reused_addresses', sim.reused)
        ctx.state(t[0])


def run_two(shard, ctx):
    depth = 5 if ctx.tier == 'quick' else 6
    pairs = [(a, b) for a in ZOO for b in ZOO if a is not b]
    for a, b in pairs[shard['k']::shard['of']]:
        if not ctx.case('two', a[0], b[0]):
            continue
        sim = Sim(ctx, a, b)
        d = depth - (a[0] in ('class', 'Random') or b[0] in ('class', 'Random'))
        for hist in histories(d):
            sim.run(hist)
            ctx.add('states', 1)
            ctx.add('transitions', d)
            if ctx.full:
                return
        ctx.add('reused_addresses', sim.reused)
        ctx.state((a[0], b[0]))


def run_sub(shard, ctx):
    """A horizon of any subset of objects; any iterable; several horizons."""
    objs = [mk(0) for n, mk in ZOO[:10]]
    for X in range(1 << 10):
        if not ctx.case('sub', X):
            continue
        given = [objs[i] for i in bits(X)]
        hs = [H(given), H(iter(given)), H(imm(given)), H(mut(given))]
        for h in hs:
            for arg in (objs, imm(objs), iter(objs)):
                news = h.news(arg)
                got = sum(1 << i for i, o in enumerate(objs) if o in news)
                if got != (1 << 10) - 1 & ~X or len(news) != 10 - len(given):
                    ctx.fail('horizon of %s reports %s' % (bin(X), bin(got)))
        while hs:
            hs.pop(X % len(hs))
            for h in hs:
                if len(h.news(objs)) != 10 - len(given):
                    ctx.fail('horizon of %s changed when another was dropped' % bin(X))
        ctx.add('states', 4)
    if ctx.case('self'):
        h = H([])
        ctx.eq(len(h.news([h])), 0, 'a horizon is not new to itself')
        h2 = H([])
        ctx.eq(len(h.news([h2])), 1, 'a later horizon')
        ctx.eq(len(h2.news([h])), 1, 'a horizon that was not given')
    if ctx.case('args'):
        ctx.raises(TypeError, H)
        ctx.raises(TypeError, H, 1)
        ctx.raises(TypeError, h.news, 1)

        def bad():
            yield objs[0]
            raise ZeroDivisionError
        ctx.raises(ZeroDivisionError, H, bad())
        ctx.raises(ZeroDivisionError, h.news, bad())
        ctx.eq(len(H(objs).news(objs)), 0, 'after errors')
    ctx.state('sub')


class Holder(object):
    pass


def run_drop(shard, ctx):
    """The last (or a) horizon is dropped while an object that it tracks is being deallocated."""
    for n, mk in ZOO:
        for others in (0, 1):
            for how in ('attr', 'contents', 'del', 'callback'):
                if not ctx.case('drop', n, others, how):
                    continue
                try:
                    hold = {'attr': lambda h: setattr_(Holder(), h), 'contents': lambda h: mk(h), 'del': lambda h: [h], 'callback': lambda h: P()}[how](0)
                except TypeError:
                    continue
                x = mk(0)
                keep = H([x]) if others else None
                h = H([x, hold, P(), {}, []])
                box = [h]
                del h
                if how == 'attr':
                    hold.a = box.pop()
                elif how == 'contents':
                    try:
                        hold = mk(box[0])
                        box.pop()
                    except TypeError:
                        continue
                elif how == 'del':
                    class D(object):
                        def __del__(self):
                            box.clear()
                    hold = [D(), x]
                else:
                    r = weakref.ref(hold, lambda r: box.clear())
                hold = None
                box.clear()
                for i in range(3):
                    y = mk(0)
                    if keep is not None and not (y in keep.news([y])):
                        ctx.fail('%s created after the horizon is not new' % n)
                    del y
                if keep is not None and x in keep.news([x]):
                    ctx.fail('%s is new to a horizon it was given to' % n)
                x = None
                keep = None
                h = H([])
                y = mk(0)
                ctx.check(y in h.news([y]), 'new')
                ctx.add('states', 1)
    ctx.state('drop')


def run_view(shard, ctx):
    """The horizon of a view: all the objects of the heap."""
    root = []
    hp.setref()
    V.root = root
    kinds = [(n, mk) for n, mk in ZOO if n in HOLDS and n not in ('frame', 'traceback', 'nodeset', 'slice')]
    for n, mk in kinds[shard['k']::shard['of']]:
        for before, after, dropped in itertools.product(range(3), repeat=3):
            if dropped > before or not ctx.case('view', n, before, after, dropped):
                continue
            del root[:]
            gc.collect()
            olds = [mk(0) for i in range(before)]
            root.extend(olds)
            h = V.horizon()
            del olds[:dropped]
            del root[:dropped]
            news = [mk(0) for i in range(after)]
            root.extend(news)
            got = h.news()
            for x in news:
                if x not in got.nodes:
                    ctx.fail('%s: a new object (of %d, %d old, %d dropped) is missing' % (n, after, before, dropped))
            for x in olds:
                if x in got.nodes:
                    ctx.fail('%s: an old object is reported' % n)
            del h, got
            ctx.add('states', 1)
    ctx.state('view')


def run_nest(shard, ctx):
    for n, wrap in (('list', lambda x: [x]), ('tuple', lambda x: (x,)), ('dict', lambda x: {1: x}), ('instance', lambda x: setattr_(P(), x)),
                    ('OrderedDict', lambda x: collections.OrderedDict([(1, x)])), ('set', lambda x: frozenset([x])) if 0 else ('cell', types.CellType),
                    ('sublist', lambda x: SubList([x])), ('exception', lambda x: ValueError(x)), ('deque', lambda x: collections.deque([x])),
                    ('partial', lambda x: functools.partial(len, x))):
        for depth in (1, 60, 1000):
            for before in (0, 1):
                if not ctx.case('nest', n, depth, before):
                    continue
                c = Canary()
                r = weakref.ref(c)
                h = H([wrap(0)])
                x = c
                del c
                for i in range(depth):
                    x = wrap(x)
                if before:
                    h2 = H([x])
                x = None
                ctx.check(r() is None, '%s nested to %d levels is released' % (n, depth))
                h = h2 = None
                ctx.add('states', 1)
    ctx.state('nest')
