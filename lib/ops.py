"""A catalogue of the operations of the compiled modules on small operands, for the
checks that inject faults into each of them.

OPS: name -> make(); make() returns a Case with the bound call, the operands that the
call may change and a function that reads their values.  Tracked objects come from the
fixed POOL, so that a reference ledger can be kept over a case."""
import gc, operator, types
import guppy
from guppy.sets import setsc
from guppy.heapy import heapyc
from guppy.sets import ImmBitSet, MutBitSet, BitSet, immbit, immbitset, immbitrange, ImmNodeSet, MutNodeSet, NodeSet, mutbitset, immnodeset, mutnodeset

NodeGraph = heapyc.NodeGraph


class M(type):
    """The type of the classes below, hidden from the views: types lead to everything."""


class T(object, metaclass=M):
    """An object of the pool."""
    __slots__ = ('n', 'a', '__weakref__')       # (no functions: they refer to this module)


POOL = []
for _i in range(14):
    _o = T()
    _o.n = _i
    POOL.append(_o)


class D(object):
    pass


def norm(x, depth=0):
    """A comparable value: contents for containers of ours, identity for other objects."""
    t = type(x)
    if isinstance(x, BitSet):
        if t is setsc.CplBitSet:
            return ('bits', t.__name__, tuple(list(~x)))
        try:
            return ('bits', t.__name__, tuple(list(x)))
        except TypeError:       # a complemented one
            return ('bits', t.__name__, '~', tuple(list(~(x & ~immbitset()))))
    if isinstance(x, NodeSet):
        return ('nodes', t.__name__, tuple(sorted(map(id, x))))
    if isinstance(x, NodeGraph):
        return ('graph', x.is_mapping, tuple(sorted([(id(a), id(b)) for a, b in edges(x)])))
    if t in (bool, int, str, float, type(None)):
        return x
    if t in (tuple, list):
        return (t.__name__,) + tuple([norm(e, depth + 1) for e in x])
    if t is dict:
        return ('dict',) + tuple(sorted([(norm(k), norm(v)) for k, v in x.items()], key=repr))
    return ('obj', t.__name__, id(x) if id(x) in KNOWN else None)


def edges(g):
    """The edges of a graph, without sorting it."""
    return list(g)


def pairs(x):
    return tuple(sorted(set(zip(map(id, x[::2]), map(id, x[1::2])))))


KNOWN = set(map(id, POOL))


class Case:
    cyclic = False                          # garbage to be collected afterwards

    def __init__(self, f, args=(), kw=None, changes=(), unchanged=(), norm=norm, partial=False, late=None):
        self.f, self.args, self.kw = f, tuple(args), kw
        self.changes = list(changes)        # operands that the call may change
        self.unchanged = list(unchanged)    # those that it must not
        self.norm = norm
        self.partial = partial              # documented to be done in part when it fails
        self.keep = late

    def values(self):
        return [norm(x) for x in self.changes]

    def fixed(self):
        return [norm(x) for x in self.unchanged]


OPS = {}


def op(name):
    def deco(f):
        assert name not in OPS, name
        OPS[name] = f
        return f
    return deco


def add(name, make):
    assert name not in OPS, name
    OPS[name] = make


def method(name):
    return lambda x, *args: getattr(x, name)(*args)


def fresh(x):
    return x[:] if type(x) is list else x.copy() if type(x) is NodeGraph else x


# ---------------------------------------------------------------- bit sets

BITS = dict(
    empty=(), one=(5,), pair=(0, 63), neg=(-64, -1, 70), spread=tuple(range(0, 40 * 64, 64)),
    far=(-10**9, 0, 10**9), mix=tuple(range(0, 300, 7)) + (100000,), dense=tuple(range(130)))


def bs(kind, name):
    v = BITS[name]
    if kind == 'mut':
        return mutbitset(v)
    if kind == 'msplit':
        m = mutbitset(v)
        for i in range(600):
            m.add(i * 64)
        for i in range(600):
            m.discard(i * 64)
        m |= v
        return m
    if kind == 'imm':
        return immbitset(v)
    if kind == 'cpl':
        return ~immbitset(v)
    if kind == 'mcpl':
        m = mutbitset(v)
        m ^= ~immbitset()
        return m
    if kind == 'list':
        return list(v)
    if kind == 'int':
        return sum(1 << i for i in v if 0 <= i < 1000)
    raise KeyError(kind)


BIN = {'&': (operator.and_, operator.iand), '|': (operator.or_, operator.ior), '-': (operator.sub, operator.isub), '^': (operator.xor, operator.ixor)}


def _bits():
    for o, (f, g) in BIN.items():
        for ka in ('mut', 'imm', 'cpl', 'msplit', 'mcpl'):
            for kb in ('mut', 'imm', 'cpl', 'list'):
                for a, b in (('pair', 'neg'), ('mix', 'spread'), ('empty', 'far'), ('dense', 'dense')):
                    if ka in ('msplit', 'mcpl') and (a, b) != ('mix', 'spread'):
                        continue

                    def make(f=f, ka=ka, kb=kb, a=a, b=b):
                        x, y = bs(ka, a), bs(kb, b)
                        return Case(f, (x, y), unchanged=[x, y])

                    def imake(g=g, ka=ka, kb=kb, a=a, b=b):
                        x, y = bs(ka, a), bs(kb, b)
                        if ka in ('imm', 'cpl'):
                            return Case(g, (x, y), unchanged=[x, y])
                        return Case(g, (x, y), changes=[x], unchanged=[y], partial=kb == 'list')
                    add('bits %s(%s) %s %s(%s)' % (ka, a, o, kb, b), make)
                    add('bits %s(%s) %s= %s(%s)' % (ka, a, o, kb, b), imake)
    for ka in ('mut', 'imm', 'cpl', 'msplit', 'mcpl'):
        for a in BITS:
            if ka in ('msplit', 'mcpl') and a != 'mix':
                continue

            def un(f, ka=ka, a=a, change=False, *args):
                def make():
                    x = bs(ka, a)
                    if change:
                        return Case(f, (x,) + args, changes=[x])
                    return Case(f, (x,) + args, unchanged=[x])
                return make
            p = 'bits %s(%s) ' % (ka, a)
            add(p + 'immutable copy', un(ImmBitSet))
            add(p + 'mutable copy', un(MutBitSet))
            add(p + 'mutcopy', un(operator.methodcaller('mutcopy')))
            add(p + 'reduce', un(operator.methodcaller('__reduce__')))
            add(p + 'str', un(str))
            if ka != 'cpl' and a not in ('far', 'neg'):
                add(p + 'int', un(int))
            if ka != 'mcpl':
                add(p + '<< 3', un(operator.methodcaller('__lshift__', 3)))
                add(p + '<< -70', un(operator.methodcaller('__lshift__', -70)))
            if ka == 'mut':
                add(p + '<<= 3', un(operator.methodcaller('__ilshift__', 3)))
            if ka not in ('cpl', 'mcpl'):
                add(p + 'list', un(list))
                add(p + 'len', un(len))
                add(p + 'slice', un(operator.itemgetter(slice(0, 2))))
                add(p + 'slice from the end', un(operator.itemgetter(slice(-2, None))))
                add(p + 'index', un(operator.itemgetter(0)))
                add(p + 'sorted list of', un(lambda x: x == immbitset(list(x))))
            add(p + 'invert', un(operator.invert))
            if ka in ('imm', 'cpl'):
                add(p + 'hash', un(hash))
            for b in ('pair', 'mix'):
                for cmp in ('eq', 'le', 'lt', 'ge'):
                    add(p + cmp + ' ' + b, un(operator.methodcaller('__%s__' % cmp, immbitset(BITS[b]))))
            if ka in ('mut', 'msplit', 'mcpl'):
                for m, arg in (('add', 77), ('add', 10**7), ('add', -10**7), ('discard', 63), ('tas', 35), ('tac', 0), ('tas', 12345678), ('remove', 5), ('append', 91)):
                    if m == 'remove' and a != 'one':
                        continue

                    def make(ka=ka, a=a, m=m, arg=arg):
                        x = bs(ka, a)
                        return Case(getattr(x, m), (arg,), changes=[x])
                    add('%s%s %d' % (p, m, arg), make)

                def make(ka=ka, a=a):
                    x = bs(ka, a)
                    return Case(x.clear, (), changes=[x])
                add(p + 'clear', make)
                if ka != 'mcpl' and BITS[a]:
                    def make(ka=ka, a=a):
                        x = bs(ka, a)
                        return Case(x.pop, (), changes=[x])
                    add(p + 'pop', make)

                def make(ka=ka, a=a):
                    if ka == 'mcpl':
                        return None
                    # a frozen copy shares the fields: the next change has to copy them
                    x = bs(ka, a)
                    y = immbitset(x)
                    return Case(x.add, (12,), changes=[x], unchanged=[y])
                add(p + 'add after a copy', make)

                def make(ka=ka, a=a):
                    x = bs(ka, a)
                    return Case(x.__init__ if False else MutBitSet, (x,), unchanged=[x])
                add(p + 'constructor', make)
    for args in ((3,), (2, 9), (0, 300, 7), (10, -10, -3), (0,), (-5, 5)):
        add('immbitrange%r' % (args,), lambda args=args: Case(immbitrange, args))
    for v in (0, 63, 64, -1, 10**9):
        add('immbit(%d)' % v, lambda v=v: Case(immbit, (v,)))
    for n, v in BITS.items():
        add('immbitset of list %s' % n, lambda v=v: Case(immbitset, (list(v),)))
        add('mutbitset of list %s' % n, lambda v=v: Case(mutbitset, (list(v),)))
        add('immbitset of reversed %s' % n, lambda v=v: Case(immbitset, (list(v)[::-1],)))
    for v in (0, 1, 2**70 + 1, 2**1000 - 1):
        add('mutbitset of int %d bits' % v.bit_length(), lambda v=v: Case(mutbitset, (v,)))
        add('immbitset of int %d bits' % v.bit_length(), lambda v=v: Case(immbitset, (v,)))


# ---------------------------------------------------------------- node sets

NODES = dict(empty=(), one=(3,), few=(1, 4, 7), most=tuple(range(12)), other=(0, 4, 13))


def nsv(name):
    return [POOL[i] for i in NODES[name]]


def ns(kind, name):
    v = nsv(name)
    if kind == 'mut':
        return MutNodeSet(v)
    if kind == 'imm':
        return ImmNodeSet(v)
    if kind == 'list':
        return v
    if kind == 'tuple':
        return tuple(v)
    if kind == 'hmut':
        m = setsmut(v)
        m._hiding_tag_ = TAG
        return m
    raise KeyError(kind)


TAG = []
setsmut = guppy.Root().guppy.sets.mutnodeset


def _nodes():
    for o, (f, g) in BIN.items():
        for ka in ('mut', 'imm', 'hmut'):
            for kb in ('mut', 'imm', 'list'):
                for a, b in (('few', 'other'), ('empty', 'most'), ('most', 'few'), ('one', 'empty'), ('few', 'few')):
                    def make(f=f, ka=ka, kb=kb, a=a, b=b):
                        x, y = ns(ka, a), ns(kb, b)
                        return Case(f, (x, y), unchanged=[x, y])

                    def imake(g=g, ka=ka, kb=kb, a=a, b=b):
                        x, y = ns(ka, a), ns(kb, b)
                        if ka == 'imm':
                            return Case(g, (x, y), unchanged=[x, y])
                        return Case(g, (x, y), changes=[x], unchanged=[y], partial=True)
                    add('nodes %s(%s) %s %s(%s)' % (ka, a, o, kb, b), make)
                    add('nodes %s(%s) %s= %s(%s)' % (ka, a, o, kb, b), imake)
    for ka in ('mut', 'imm', 'hmut'):
        for a in NODES:
            def un(f, more=(), ka=ka, a=a):
                def make():
                    x = ns(ka, a)
                    return Case(f, (x, *more), unchanged=[x])
                return make
            p = 'nodes %s(%s) ' % (ka, a)
            add(p + 'immutable copy', un(ImmNodeSet))
            add(p + 'mutable copy', un(MutNodeSet))
            add(p + 'list', un(list))
            add(p + 'len', un(len))
            add(p + 'bool', un(bool))
            if ka == 'imm':
                add(p + 'hash', un(hash))
            for cmp in ('eq', 'le', 'lt', 'ge', 'ne'):
                add(p + cmp, un(method('__%s__' % cmp), (immnodeset(POOL[:5]),)))
            add(p + 'contains', un(method('__contains__'), (POOL[4],)))
            if ka == 'imm':
                add(p + 'obj_at', un(lambda x: x.obj_at(id(POOL[4])) if POOL[4] in x else None))
            if ka != 'imm':
                for m in ('add', 'append', 'discard', 'tas', 'tac', 'remove', 'pop', 'clear'):
                    for i in (4, 13):
                        if m == 'append' and i in NODES[a] or m == 'remove' and i not in NODES[a]:
                            continue
                        if m in ('pop', 'clear') and (i == 13 or not NODES[a]):
                            continue

                        def make(ka=ka, a=a, m=m, i=i):
                            x = ns(ka, a)
                            return Case(getattr(x, m), () if m in ('pop', 'clear') else (POOL[i],), changes=[x])
                        add('%s%s %d' % (p, m, i), make)
    for a in NODES:
        for t in ('list', 'tuple'):
            add('ImmNodeSet of %s %s' % (t, a), lambda a=a, t=t: Case(ImmNodeSet, (ns(t, a),)))
            add('MutNodeSet of %s %s' % (t, a), lambda a=a, t=t: Case(MutNodeSet, (ns(t, a),)))
            add('ImmNodeSet with tag of %s %s' % (t, a), lambda a=a, t=t: Case(ImmNodeSet, (ns(t, a), TAG)))


# ---------------------------------------------------------------- node graphs

GRAPHS = dict(empty=(), one=((0, 1),), star=tuple((0, i) for i in range(1, 9)), instar=tuple((i, 0) for i in range(1, 9)),
              mess=((3, 1), (0, 2), (1, 2), (3, 1), (2, 2), (0, 1), (5, 0), (1, 7)), grow=tuple((i % 7, (i * 3) % 11) for i in range(40)))


def ng(name, sort=False, mapping=False):
    g = NodeGraph([(POOL[a], POOL[b]) for a, b in GRAPHS[name]], mapping) if mapping else NodeGraph([(POOL[a], POOL[b]) for a, b in GRAPHS[name]])
    if sort:
        g[POOL[0]]
    return g


def _graphs():
    for a in GRAPHS:
        for s in (False, True):
            p = 'graph %s%s ' % (a, ' sorted' if s else '')

            def un(f, change=False, more=(), a=a, s=s):
                def make():
                    g = ng(a, s)
                    if change:
                        return Case(f, (g, *map(fresh, more)), changes=[g], partial=change == 'partial')
                    return Case(f, (g, *map(fresh, more)), unchanged=[g])
                return make
            add(p + 'copy', un(operator.methodcaller('copy')))

            def flat(a=a, s=s):
                g = ng(a, s)
                return Case(g.as_flat_list, (), unchanged=[g], norm=pairs)
            add(p + 'as_flat_list', flat)
            add(p + 'list', un(list))
            add(p + 'get_domain', un(operator.methodcaller('get_domain')))
            add(p + 'get_range', un(operator.methodcaller('get_range')))
            add(p + 'inverted', un(operator.methodcaller('inverted')))
            add(p + 'invert', un(operator.methodcaller('invert'), True))
            add(p + 'clear', un(operator.methodcaller('clear'), True))
            add(p + 'getitem', un(operator.itemgetter(POOL[0])))
            add(p + 'getitem missing', un(operator.itemgetter(POOL[13])))
            add(p + 'len', un(len))
            add(p + 'relimg', un(method('relimg'), False, (POOL[:3],)))
            add(p + 'relimg of nodeset', un(method('relimg'), False, (immnodeset(POOL[1:6]),)))
            add(p + 'domain_covers', un(method('domain_covers'), False, (POOL[:2],)))
            add(p + 'domain_restricted', un(method('domain_restricted'), False, (POOL[:2],)))
            add(p + 'add_edge', un(method('add_edge'), True, (POOL[12], POOL[13],)))
            add(p + 'add_edges_n1', un(method('add_edges_n1'), 'partial', (POOL[:9], POOL[13],)))
            add(p + 'update', un(method('update'), 'partial', ([(POOL[i], POOL[i + 1]) for i in range(9)],)))
            add(p + 'updated', un(method('updated'), False, ([(POOL[1], POOL[2]), (POOL[4], POOL[1])],)))
            add(p + 'update by graph', un(method('update'), 'partial', (ng('grow'),)))

            for n, v in (('same size', 'same'), ('empty', ()), ('more', tuple(POOL[5:9]))):
                def make(a=a, s=s, v=v):
                    g = ng(a, s)
                    w = tuple(POOL[5:5 + len(g[POOL[0]])]) if v == 'same' else v
                    if not s:
                        g = ng(a, s)
                    if len(ng(a)[POOL[0]]) != len(w):
                        return None
                    return Case(operator.setitem, (g, POOL[0], w), changes=[g])
                add(p + 'setitem ' + n, make)
        add('NodeGraph of %s' % a, lambda a=a: Case(NodeGraph, ([(POOL[x], POOL[y]) for x, y in GRAPHS[a]],)))
        if a in ('one', 'instar', 'empty'):
            add('mapping graph %s getitem' % a, lambda a=a: (lambda g: Case(lambda: g[POOL[0]] if a == 'one' else len(g), (), unchanged=[g]))(ng(a, mapping=True)))


# ---------------------------------------------------------------- heap views

_defs = guppy.hpy().View.heapdefs


class Node(object, metaclass=M):
    pass


class World:
    """A small heap: list, tuple, dict, instance with dict, slots, node sets, cells, functions, a cycle; leaves from the pool."""
    def __init__(self, warm=True):
        P = POOL
        a = [P[0], P[1], P[0]]
        b = {1: P[2], P[3]: a}
        c = Node()
        c.__dict__ = {'x': P[4], 'y': b}
        d = T()
        d.n = 99
        d.a = c
        e = MutNodeSet([P[5]])
        f = ImmNodeSet([P[6]])

        empty = {'__builtins__': {}}

        def fun():
            return a, P
        g = (lambda v: (lambda: v))(P[8])
        fun = types.FunctionType(fun.__code__, empty, 'fun', (P[7],), fun.__closure__)
        g = types.FunctionType(g.__code__, empty, 'g', (), g.__closure__)
        a.append(d)
        k = {P[9], P[10]}
        self.objs = [a, b, c, d, e, f, g, k]
        self.root = [a, b, c, d, e, f, g, k, fun, (P[11], P[12])]
        self.hv = heapyc.HeapView(self.root, _defs)
        self.hv.register_hidden_exact_type(M)
        self.warm = warm
        if warm:
            self.hv.heap()
            self.hv.indisize_sum(self.objs)

    def __del__(self):
        self.root.clear()
        for o in self.objs[:1]:
            o.clear()


def hnorm(w):
    ids = {id(o): i for i, o in enumerate(w.objs + [w.root, w.hv, w.objs[2].__dict__])}

    def f(x):
        t = type(x)
        if isinstance(x, NodeSet):
            return ('nodes', tuple(sorted(name(o) for o in x)))
        if isinstance(x, NodeGraph):
            return ('graph', tuple(sorted((name(a), name(b)) for a, b in x)))
        if t in (tuple, list):
            return (t.__name__,) + tuple(f(e) for e in x)
        if t is dict:
            return ('dict',) + tuple(sorted((repr(f(k)), repr(f(v))) for k, v in x.items()))
        if t in (bool, int, str, type(None), float):
            return x
        return name(x)

    def name(o):
        if id(o) in ids:
            return 'w%d' % ids[id(o)]
        if id(o) in KNOWN:
            return 'p%d' % o.n
        return type(o).__name__
    return f


class BCase(Case):
    def __init__(self, w, f, args):
        ids = {id(o): i for i, o in enumerate(w.objs)}

        def n(x):
            if isinstance(x, NodeSet):
                return ('nodes', tuple(sorted(map(n, x), key=repr)))
            if type(x) in (tuple, list):
                return (type(x).__name__,) + tuple(map(n, x))
            return x if type(x) in (int, str) else 'w%d' % ids[id(x)] if id(x) in ids else norm(x)
        Case.__init__(self, f, args, norm=n, late=w)


class HCase(Case):
    cyclic = True

    def __init__(self, w, f, args=(), kw=None, changes=(), unchanged=(), partial=True):
        n = hnorm(w)
        Case.__init__(self, f, args, kw, changes, unchanged, n, partial, w)
        self.w = w

    def values(self):
        return [self.norm(x) for x in self.changes]

    def fixed(self):
        return [self.norm(x) for x in self.unchanged]


class K(T, metaclass=M):
    __slots__ = ()
    attr = POOL[3]


def failing():
    x = POOL[1]
    raise ValueError(x)


def generator():
    x = POOL[4]
    y = POOL[5]
    for i in [POOL[6]]:
        yield lambda: y
    yield x


EMPTY = {'__builtins__': {}, 'POOL': POOL, 'ValueError': ValueError}


def strange(kind):
    """(object, its referents) of the kinds that have a relation of their own."""
    import types
    empty = dict(EMPTY)
    if kind == 'module':
        m = types.ModuleType('m')
        m.a = POOL[0]
        return m, [m.__dict__, POOL[0], 'a']
    if kind == 'builtin method':
        o = [POOL[0]]
        return o.append, [o]
    if kind == 'bound method':
        o = D()
        f = types.FunctionType(failing.__code__, empty)
        return types.MethodType(f, o), [f, o]
    if kind == 'function':
        f = types.FunctionType(failing.__code__, empty, 'fname', (POOL[2],))
        f.attr = POOL[3]
        f.__kwdefaults__ = {'k': POOL[4]}
        return f, [f.__code__, empty, f.__defaults__, f.__dict__, POOL[3], f.__kwdefaults__, f.__name__]
    if kind == 'code':
        c = failing.__code__.replace(co_name='cname')
        return c, [c.co_consts, c.co_names, c.co_filename, 'cname', c.co_linetable]
    if kind == 'cell':
        return types.CellType(POOL[0]), [POOL[0]]
    if kind == 'mapping proxy':
        d = {1: POOL[0]}
        return types.MappingProxyType(d), [d, POOL[0]]
    if kind in ('traceback', 'frame of a traceback'):
        try:
            types.FunctionType(failing.__code__, empty)()
        except ValueError as e:
            tb = e.__traceback__.tb_next
            e.__traceback__ = None
        if kind == 'traceback':
            return tb, [tb.tb_frame]
        return tb.tb_frame, [POOL[1], empty, failing.__code__]
    if kind == 'frame of a generator':
        g = types.FunctionType(generator.__code__, empty)()
        next(g)
        return g.gi_frame, [POOL[4], POOL[5], empty, g.gi_code]
    if kind == 'type':
        return K, [K.__mro__, T, POOL[3], K.__bases__]
    if kind == 'static type':
        return list, [list.__mro__, object]
    if kind == 'set':
        return {POOL[0]}, [POOL[0]]
    if kind == 'frozenset':
        return frozenset([POOL[0]]), [POOL[0]]
    if kind == 'node graph':
        return NodeGraph([(POOL[0], POOL[1]), (POOL[2], POOL[1])]), [POOL[1], POOL[2]]
    if kind == 'instance':
        o = D()
        o.__dict__ = {'x': POOL[0]}
        return o, [o.__dict__, POOL[0], D]
    if kind == 'slots':
        o = T()
        o.n = POOL[7]
        return o, [POOL[7], T]
    raise KeyError(kind)


STRANGE = dict(module=3, function=7, code=5, cell=1, traceback=1, type=4, set=1, frozenset=1, instance=3, slots=2)
STRANGE.update({'builtin method': 1, 'bound method': 2, 'mapping proxy': 2, 'frame of a traceback': 3, 'frame of a generator': 4,
                'static type': 2, 'node graph': 2})


class Bare:
    """A view of nothing, and one object to look at."""
    def __init__(self, kind):
        self.hv = heapyc.HeapView((), _defs)
        self.x, self.to = strange(kind)
        self.objs = [self.x] + self.to
        self.root = ()


def _strange():
    for kind, n in STRANGE.items():
        for i in range(n):
            def make(kind=kind, i=i):
                w = Bare(kind)
                c = BCase(w, w.hv.relate, (w.x, w.to[i]))
                return c
            add('relate %s %d' % (kind, i), make)

        def make(kind=kind):
            w = Bare(kind)
            return BCase(w, w.hv.relate, (w.x, POOL[13]))
        add('relate %s to a stranger' % kind, make)
        for m in ('relimg', 'indisize_sum'):
            def make(kind=kind, m=m):
                w = Bare(kind)
                return BCase(w, getattr(w.hv, m), ([w.x],))
            if m == 'relimg' and 'type' in kind:
                continue        # (weak references to all subtypes)
            add('%s of %s' % (m, kind), make)


def _classifiers():
    """The user-defined classifier and the comparisons of the others."""
    for warm in (True, False):
        p = 'view ' if warm else 'new view '

        def user(w, memo=None):
            return w.hv.cli_user_defined(w.hv.cli_type(), list, len, memo)

        def direct(get, warm=warm):
            def make():
                w = World(warm)
                f, args = get(w)
                return HCase(w, f, args)
            return make
        add(p + 'cli_user: make', direct(lambda w: (w.hv.cli_user_defined, (w.hv.cli_type(), list, len, None))))
        add(p + 'cli_user: classify 0', direct(lambda w: (user(w).classify, (w.objs[0],))))
        add(p + 'cli_user: classify 1', direct(lambda w: (user(w).classify, (POOL[2],))))
        add(p + 'cli_user: partition', direct(lambda w: (user(w).partition, (w.objs[:4] + POOL[:7],))))
        add(p + 'cli_user: select', direct(lambda w: (user(w, abs).select, (w.objs, -4, '=='))))
        for n in ('<', '<=', '==', '!=', '>', '>='):
            add(p + 'cli_type: select ' + n, direct(lambda w, n=n: (w.hv.cli_type().select, (w.objs, object, n)))) if n != '!=' else None
            add(p + 'cli_rcs: select ' + n, direct(lambda w, n=n: (w.hv.cli_rcs(refg(w), w.hv.cli_type(), {}).select, (w.objs, ImmNodeSet([list]), n))))


def _views():
    for warm in (True, False):
        p = 'view ' if warm else 'new view '

        def mk(f, warm=warm, changes=None):
            def make():
                w = World(warm)
                return HCase(w, f, (w,))
            return make

        def direct(get, warm=warm):
            """get(w) -> (callable, args)"""
            def make():
                w = World(warm)
                r = get(w)
                return HCase(w, r[0], r[1], r[2] if len(r) > 2 else None, changes=r[3] if len(r) > 3 else ())
            return make
        none = ImmNodeSet()
        add(p + 'heap', direct(lambda w: (w.hv.heap, ())))
        add(p + 'reachable', direct(lambda w: (w.hv.reachable, (immnodeset([w.root]), immnodeset([w.objs[1]])))))
        add(p + 'reachable_x', direct(lambda w: (w.hv.reachable_x, (immnodeset([w.root]), immnodeset([w.objs[2]])))))
        add(p + 'relimg', direct(lambda w: (w.hv.relimg, (w.objs,))))
        add(p + 'relimg of set', direct(lambda w: (w.hv.relimg, (immnodeset(w.objs),))))
        add(p + 'indisize_sum', direct(lambda w: (w.hv.indisize_sum, (w.objs[:3],))))
        add(p + 'numedges', direct(lambda w: (w.hv.numedges, (w.objs[0], POOL[0]))))
        for i, j in ((0, 'p0'), (1, 'p2'), (1, 'p3'), (2, 'd'), (3, 2), (4, 'p5'), (5, 'p6'), (7, 'p9'), (6, 'c'), (2, 't')):
            def get(w, i=i, j=j):
                t = (w.objs[2].__dict__ if j == 'd' else type(w.objs[2]) if j == 't' else w.objs[j] if isinstance(j, int) else
                     w.objs[6].__closure__ if j == 'c' else POOL[int(j[1:])])
                return w.hv.relate, (w.objs[i], t)
            add(p + 'relate %d %s' % (i, j), direct(get))

        def sh(w, find=None):
            G = NodeGraph()
            V1 = MutNodeSet()
            U = immnodeset([w.root])
            return w.hv.shpathstep, (G, U, V1), None, [G, V1]
        add(p + 'shpathstep', direct(sh))

        def sh3(w):
            return w.hv.shpathstep, (NodeGraph(), immnodeset([w.objs[0], w.objs[1]]), MutNodeSet([POOL[0], POOL[2]]), NodeGraph([(w.objs[0], w.objs[3])]), True)
        add(p + 'shpathstep find one', direct(sh3))
        for m in ('update_referrers', 'update_referrers_completely', 'update_dictowners'):
            def get(w, m=m):
                G = NodeGraph()
                if m == 'update_referrers':
                    return w.hv.update_referrers, (G, immnodeset([POOL[2], w.objs[3]])), None, [G]
                return getattr(w.hv, m), (G,), None, ()
            add(p + m, direct(get))

        CL = dict(
            type=lambda hv, w: hv.cli_type(), none=lambda hv, w: hv.cli_none(), id=lambda hv, w: hv.cli_id({}), idset=lambda hv, w: hv.cli_idset({}),
            size=lambda hv, w: hv.cli_indisize({}), rcs=lambda hv, w: hv.cli_rcs(refg(w), hv.cli_type(), {}),
            inrel=lambda hv, w: hv.cli_inrel(refg(w), {}, {}))
        CL['and'] = lambda hv, w: hv.cli_and((hv.cli_type(), hv.cli_indisize({})), {})
        CL['dictof'] = lambda hv, w: hv.cli_dictof(NodeGraph(), hv.cli_type(), None, ())
        CL['findex'] = lambda hv, w: hv.cli_findex(((hv.cli_type(), list, '=='), (hv.cli_type(), T, '<')), {})
        CL['prod'] = lambda hv, w: hv.cli_prod({})
        KIND = dict(type=list, none=None, size=56, findex=0)
        for n, c in CL.items():
            if n == 'dictof' and not warm:
                continue

            def new(w, c=c):
                return (lambda: bool(c(w.hv, w))), ()
            add(p + 'cli_%s: make' % n, direct(new))

            def part(w, c=c, m='partition'):
                return getattr(c(w.hv, w), m), (w.objs[:4] + POOL[:3],)
            add(p + 'cli_%s: partition' % n, direct(part))
            add(p + 'cli_%s: epartition' % n, direct(lambda w, c=c: part(w, c, 'epartition')))

            def classify(w, c=c, i=0):
                cli = c(w.hv, w)
                return cli.classify, ([w.objs[0], POOL[2], w.objs[2].__dict__][i],)
            for i in range(3):
                add(p + 'cli_%s: classify %d' % (n, i), direct(lambda w, c=c, i=i: classify(w, c, i)))
            if n in KIND:
                def select(w, c=c, k=KIND[n], cmp='=='):
                    return c(w.hv, w).select, (w.objs, k, cmp)
                add(p + 'cli_%s: select' % n, direct(select))
                add(p + 'cli_%s: select !=' % n, direct(lambda w, c=c, k=KIND[n]: select(w, c, k, '!=')))
        def hor(w):
            h = heapyc.Horizon(w.hv)
            return h.news, (w.objs + POOL,)
        add(p + 'Horizon', direct(lambda w: ((lambda: bool(heapyc.Horizon(w.hv))), ())))
        add(p + 'news', direct(hor))
        add(p + 'HeapView', direct(lambda w: ((lambda: bool(heapyc.HeapView(w.root, _defs))), ())))

        class Tagged(object):
            __slots__ = ('_hiding_tag_', 'x')

        class Hid(object):
            pass
        add(p + 'register__hiding_tag__type', direct(lambda w: (w.hv.register__hiding_tag__type, (mktagged(),))))
        add(p + 'register_hidden_exact_type', direct(lambda w: (w.hv.register_hidden_exact_type, (mkhid(),))))


def mktagged():
    return type('Tg', (object,), {'__slots__': ('_hiding_tag_', 'x')})


def mkhid():
    return type('Hid', (object,), {})


def refg(w):
    G = NodeGraph()
    w.hv.update_referrers(G, immnodeset(w.objs + POOL[:4]))
    return G


_bits()
_nodes()
_graphs()
_views()
_strange()
_classifiers()
