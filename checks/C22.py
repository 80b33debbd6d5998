"""Errors in user code and unsuitable arguments."""
import array, gc, itertools, operator, re, sys, types
import guppy
import ops
from ops import OPS, POOL, MutBitSet, MutNodeSet, ImmNodeSet, NodeGraph, World, HCase, Case, Bare, mutbitset, immbitset, immnodeset, mutnodeset, setsc
from guppy.heapy import heapyc
from C23 import exercise, between

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of unsuitable arguments, of errors raised at each callback and of interference of user code at each callback, injected into every operation of the real implementation'
RULE = ('for every operation of a catalogue covering the entry points of both compiled modules, each place in its arguments, nested ones included, holds each of the unsuitable objects; each iterable in them raises after each number '
        'of items, having looked at the operands in between or not, or changes each of the operands in each of several ways; each operand holds an object that changes each operand when it is released; mutable containers are changed in between the steps of their iterators in all '
        'orders; calls of a session get each unsuitable object.  The outcome is an ordinary exception or result, the exception raised by user code is the one that comes out, operands are changed as documented only, and serve as well as new ones afterwards')
BOUNDS = dict(quick='some 1000 operations, 85 unsuitable objects, iterators with up to 4 steps and changes, 110 calls in a session',
              thorough='some 2500 operations, the same objects, iterators with up to 6 steps and changes')
ASSUME = ['in-place operations that take an iterable may have done the part before the failure', 'memory errors only follow from numbers that need as much memory']

# Objects and blocks released twice or used after their release are found by the debug allocator.
ENV = dict(PYTHONMALLOC='debug')


class Boom(Exception):
    """What user code raises."""


class Hostile(object):
    """A class whose special methods raise; made by hostile()."""


BOOM = Boom('boom')
raised = 0


def boom(*a, **k):
    global raised
    raised += 1
    raise BOOM


def hostile(base=object, *names, **more):
    ns = {n: boom for n in names}
    ns.update(more)
    ns['__slots__'] = ()
    return type('Hostile', (base,), ns)


class Iter:
    """An iterator that raises when it has given n items; it may look at something first."""

    def __init__(self, items, n, look=None):
        self.items, self.n, self.look = list(items), n, look

    def __iter__(self):
        return self

    def __next__(self):
        global raised
        if self.look:
            self.look()
        if not self.n:
            raised += 1
            raise BOOM
        self.n -= 1
        if not self.items:
            raise StopIteration
        return self.items.pop(0)


class Str(str):
    pass


class Tup(tuple):
    pass


class Int(int):
    pass


class Lis(list):
    pass


_hv = heapyc.HeapView(object(), ops._defs)
_cli = _hv.cli_type()
_hor = heapyc.Horizon([])

BAD = {
    'None': lambda: None, 'True': lambda: True, '0': lambda: 0, '-1': lambda: -1, '7': lambda: 7, '2**31': lambda: 1 << 31, '2**62': lambda: 1 << 62, '2**63-1': lambda: (1 << 63) - 1, '-2**63': lambda: -(1 << 63), '2**70': lambda: 1 << 70, '-2**70': lambda: -(1 << 70),
    '1.5': lambda: 1.5, 'str': lambda: 'x', 'surrogate': lambda: '\ud800', 'empty str': lambda: '', '<': lambda: '<', 'bytes': lambda: b'x',
    '()': lambda: (), '(None,)': lambda: (None,), '(1,2,3)': lambda: (1, 2, 3), '((),)': lambda: ((),), '[]': lambda: [], '[None]': lambda: [None], '[P, P]': lambda: [POOL[0], POOL[1]], '[pair]': lambda: [(POOL[0], POOL[1])],
    '[triple]': lambda: [(POOL[0], POOL[1], POOL[2])], '[1, None]': lambda: [1, None], '[None, 1]': lambda: [1, 2**70], '{}': lambda: {}, '{1: 2}': lambda: {1: 2}, 'set': lambda: {POOL[0]}, 'iter': lambda: iter([POOL[0]]), 'P': lambda: POOL[0], 'object': lambda: object(),
    'immbits': lambda: immbitset([1]), 'mutbits': lambda: mutbitset([1]), 'cplbits': lambda: ~immbitset([1]), 'immnodes': lambda: immnodeset(POOL[:2]), 'mutnodes': lambda: mutnodeset(POOL[:2]), 'untagged nodes': lambda: MutNodeSet(POOL[:2]),
    'graph': lambda: NodeGraph([(POOL[0], POOL[1])]), 'mapping graph': lambda: NodeGraph([(POOL[0], POOL[1])], True), 'view': lambda: _hv, 'classifier': lambda: _cli, 'horizon': lambda: _hor, 'root': lambda: heapyc.RootState, 'capsule': lambda: setsc.NyNodeSet_Exports,
    'int': lambda: int, 'type': lambda: type, 'T': lambda: ops.T, 'MutNodeSet': lambda: MutNodeSet, 'NodeGraph': lambda: NodeGraph, 'len': lambda: len, 'boom': lambda: boom,
    'iter raises': lambda: hostile(object, '__iter__')(), 'not an iterator': lambda: hostile(object, __iter__=lambda s: 5)(), 'next raises 0': lambda: Iter([], 0), 'next raises 1': lambda: Iter([POOL[3]], 1), 'next raises 1 int': lambda: Iter([3], 1), 'next raises 2 pairs': lambda: Iter([(POOL[3], POOL[4])] * 2, 2),
    'hash raises': lambda: hostile(object, '__hash__')(), 'eq raises': lambda: hostile(object, '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', __hash__=lambda s: 1)(), 'unhashable': lambda: hostile(object, __hash__=None)(),
    'index raises': lambda: hostile(object, '__index__', '__int__')(), 'bool raises': lambda: hostile(object, '__bool__')(), 'len raises': lambda: hostile(object, '__len__', '__getitem__')(), 'attributes raise': lambda: hostile(object, '__getattribute__')(),
    'number raises': lambda: hostile(object, *['__%s%s__' % (r, n) for r in ('', 'r', 'i') for n in ('and', 'or', 'xor', 'sub', 'lshift')])(), 'call raises': lambda: hostile(object, '__call__')(),
    'str sub': lambda: Str('x'), 'tuple sub': lambda: Tup((1, 2)), 'int sub': lambda: Int(5), 'list sub': lambda: Lis([1]), 'dict sub raises': lambda: hostile(dict, '__getitem__', '__setitem__', '__contains__', 'get', '__iter__', 'keys')(),
    'tuple sub raises': lambda: hostile(tuple, '__getitem__', '__len__', '__iter__')((POOL[0], POOL[1])), 'class raises': lambda: hostile(object, __class__=property(boom))(), 'hash -1': lambda: hostile(object, __hash__=lambda s: 'x')(),
    'cli_id': lambda: _hv.cli_id({}), 'cli_idset': lambda: _hv.cli_idset({}), 'cli_none': lambda: _hv.cli_none(), 'cli_indisize': lambda: _hv.cli_indisize({}), 'cli_prod': lambda: _hv.cli_prod({}),
    'cli_rcs': lambda: _hv.cli_rcs(NodeGraph(), _hv.cli_type(), {}), 'cli_inrel': lambda: _hv.cli_inrel(NodeGraph(), {}, {}), 'cli_and': lambda: _hv.cli_and((_hv.cli_type(), _hv.cli_indisize({})), {}),
    'cli_dictof': lambda: _hv.cli_dictof(NodeGraph(), _hv.cli_type(), None, ()), 'cli_user': lambda: _hv.cli_user_defined(_hv.cli_type(), list, len, None), 'cli_findex': lambda: _hv.cli_findex(((_hv.cli_type(), list, '<'),), {}),
    'cli of the id': lambda: _hv.cli_user_defined(_hv.cli_type(), list, boom, None), 'pairs of nothing': lambda: [((), ())], 'kinds': lambda: (list, dict, POOL[0]), 'nodes of types': lambda: immnodeset([list, ops.T]), '!=': lambda: '!=',
    'new graph': lambda: NodeGraph.__new__(NodeGraph),
    'cell': lambda: types.CellType(), 'frame': lambda: sys._getframe(), 'generator': lambda: (x for x in [POOL[0]]),
    'dict with bad keys': lambda: {hostile(object, '__eq__', __hash__=lambda s: hash('x'))(): 1},
}


# --------------------------------------------------------------- more calls

MORE = {}


def more(name, make):
    MORE[name] = make


def _more():
    for n in ('immbit', 'immbitrange', 'immbitset', '_bs'):
        f = getattr(setsc, n)
        more('setsc.' + n, lambda f=f: Case(f, (3,)))
    more('immbitrange 3', lambda: Case(setsc.immbitrange, (3, 9, 2)))
    for t in (setsc.ImmBitSet, setsc.MutBitSet, setsc.CplBitSet, setsc.ImmNodeSet, setsc.MutNodeSet, setsc.NodeSet, setsc.BitSet):
        more(t.__name__, lambda t=t: Case(t, ([1, 2],)))
        more(t.__name__ + ' new', lambda t=t: Case(t.__new__, (t, [1, 2])))
    more('MutNodeSet tag', lambda: Case(MutNodeSet, (POOL[:2], None)))
    more('ImmNodeSet tag', lambda: Case(ImmNodeSet, (POOL[:2], None)))
    more('NodeGraph', lambda: Case(NodeGraph, ([(POOL[0], POOL[1])], False)))
    more('NodeGraph new', lambda: Case(NodeGraph.__new__, (NodeGraph, [(POOL[0], POOL[1])])))
    more('HeapView', lambda: Case(heapyc.HeapView, ([POOL[0]], ops._defs)))
    more('HeapView new', lambda: Case(heapyc.HeapView.__new__, (heapyc.HeapView, [POOL[0]], ops._defs)))
    more('HeapView defs', lambda: Case(heapyc.HeapView, ([POOL[0]], (ops._defs[0], ops._defs[-1]))))
    more('Horizon', lambda: Case(heapyc.Horizon, (POOL[:3],)))
    more('Horizon new', lambda: Case(heapyc.Horizon.__new__, (heapyc.Horizon, POOL[:3],)))
    more('ObjectClassifier', lambda: Case(heapyc.ObjectClassifier, ()))
    more('Relation', lambda: Case(heapyc.Relation, (1, 'x')))
    more('Relation compare', lambda: Case(operator.lt, (heapyc.Relation(1, 'x'), heapyc.Relation(2, 'y'))))
    more('Relation equal', lambda: Case(operator.eq, (heapyc.Relation(1, 'x'), heapyc.Relation(1, 'y'))))
    more('Relation hash', lambda: Case(hash, (heapyc.Relation(1, 'x'),)))
    more('xmemstats', lambda: Case(heapyc.xmemstats, ()))
    more('RootStateType', lambda: Case(heapyc.RootStateType, ()))

    for m, args in dict(update=([(POOL[1], POOL[2])],), updated=([(POOL[1], POOL[2])],), relimg=(POOL[:3],), add_edges_n1=(POOL[:3], POOL[4]), domain_covers=(POOL[:2],), domain_restricted=(POOL[:2],),
                        add_edge=(POOL[7], POOL[8]), copy=(), invert=(), inverted=(), as_flat_list=(), get_domain=(), get_range=(), clear=(), __getitem__=(POOL[0],), __len__=()).items():
        def make(m=m, args=args):
            g = ops.ng('mess')
            return Case(getattr(g, m), tuple([list(x) if type(x) is list else x for x in args]), changes=[g], partial=m in ('update', 'add_edges_n1'))
        more('NG ' + m, make)

    def attr(w, n, v):
        def make():
            x = w()
            return Case(setattr, (x, n, v()), changes=[x])
        return make

    def dele(w, n):
        return lambda: Case(delattr, (w(), n))

    def view():
        return World().hv
    for n, v in (('_hiding_tag_', list), ('is_hiding_calling_interpreter', int), ('limitframe', sys._getframe), ('root', list), ('static_types', list)):
        more('view.%s =' % n, attr(view, n, v))
        more('del view.%s' % n, dele(view, n))
    for n, v in (('_hiding_tag_', list), ('is_mapping', int), ('is_sorted', int)):
        more('graph.%s =' % n, attr(lambda: ops.ng('mess'), n, v))
        more('del graph.%s' % n, dele(lambda: ops.ng('mess'), n))
    for k in ('mut', 'imm'):
        more('%s nodes._hiding_tag_ =' % k, attr(lambda: ops.ns(k, 'few'), '_hiding_tag_', list))
        more('del %s nodes._hiding_tag_' % k, dele(lambda: ops.ns(k, 'few'), '_hiding_tag_'))
    more('mut bits._splitting_size =', attr(lambda: ops.bs('mut', 'mix'), '_splitting_size', int))

    def h(get):
        def make():
            w = World()
            f, args = get(w)
            return HCase(w, f, args)
        return make
    more('delete_extra_type', h(lambda w: (w.hv.delete_extra_type, (ops.mkhid(),))))
    more('cli_and', h(lambda w: (w.hv.cli_and, ((w.hv.cli_type(), w.hv.cli_indisize({})), {}))))
    more('cli_dictof', h(lambda w: (w.hv.cli_dictof, (NodeGraph(), w.hv.cli_type(), None, ()))))
    more('cli_findex', h(lambda w: (w.hv.cli_findex, (((w.hv.cli_type(), list, '=='), (w.hv.cli_type(), ops.T, '<')), {}))))
    more('cli_id', h(lambda w: (w.hv.cli_id, ({},))))
    more('cli_idset', h(lambda w: (w.hv.cli_idset, ({},))))
    more('cli_indisize', h(lambda w: (w.hv.cli_indisize, ({},))))
    more('cli_inrel', h(lambda w: (w.hv.cli_inrel, (NodeGraph(), {}, {}))))
    more('cli_none', h(lambda w: (w.hv.cli_none, ())))
    more('cli_prod', h(lambda w: (w.hv.cli_prod, ({},))))
    more('cli_rcs', h(lambda w: (w.hv.cli_rcs, (NodeGraph(), w.hv.cli_type(), {}))))
    more('cli_user_defined', h(lambda w: (w.hv.cli_user_defined, (w.hv.cli_type(), list, len, None))))
    # what is found out only when it is used
    made = dict(
        cli_and=lambda w: [(w.hv.cli_type(), w.hv.cli_indisize({})), {}],
        cli_dictof=lambda w: [NodeGraph(), w.hv.cli_type(), None, ()],
        cli_findex=lambda w: [((w.hv.cli_type(), list, '=='), (w.hv.cli_type(), ops.T, '<')), {}],
        cli_id=lambda w: [{}], cli_idset=lambda w: [{}], cli_indisize=lambda w: [{}], cli_prod=lambda w: [{}],
        cli_inrel=lambda w: [ops.refg(w), {}, {}], cli_rcs=lambda w: [ops.refg(w), w.hv.cli_type(), {}],
        cli_user_defined=lambda w: [w.hv.cli_type(), list, len, None])
    for n, a in made.items():
        def use(w, *args, n=n):
            c = getattr(w.hv, n)(*args)
            o = w.objs[:4] + POOL[:3]
            k = c.partition(o)
            c.epartition(o)
            for kind, objs in k:
                for cmp in ('==', '<', '!=', '<=', '>', '>='):
                    try:
                        c.select(o, kind, cmp)
                    except (TypeError, ValueError):
                        pass
            return len(k)
        more('use of ' + n, h(lambda w, a=a, use=use: (lambda *args: use(w, *args), tuple(a(w)))))
    for n, a in made.items():
        def sel(w, kind, cmp, *args, n=n):
            c = getattr(w.hv, n)(*args)
            c.select(w.objs[:4] + POOL[:3], kind, cmp)
        for cmp in ('==', '<', '!=', '<=', '>', '>='):
            more('select %s by %s' % (cmp, n), h(lambda w, a=a, sel=sel, cmp=cmp: (lambda kind: sel(w, kind, cmp, *a(w)), (list,))))

_more()
ALL = dict(OPS)
ALL.update(MORE)
CHOSEN = ALL


# ------------------------------------------------------------- what is done

def places(args, depth=0):
    """The places in the arguments where something else may be put: paths."""
    for i, a in enumerate(args):
        yield (i,)
        if type(a) in (tuple, list) and depth < 2 and len(a) < 9:
            for p in places(a, depth + 1):
                yield (i,) + p


def put(args, path, x):
    i = path[0]
    t = type(args)
    l = list(args)
    l[i] = x if len(path) == 1 else put(l[i], path[1:], x)
    return t(l)


def refs():
    return [sys.getrefcount(o) for o in POOL]


BIG = ('2**31', '2**62', '2**63-1', '-2**63', '2**70', '-2**70')
IN_PLACE = re.compile(r' [-&|^]= ')      # (may have done a part)


count = 0


def attempt(ctx, name, make, path, bad):
    global raised, count
    count += 1
    if count % 32 == 0:
        gc.collect()        # (the worlds are cyclic)
    c = make()
    args = put(c.args, path, BAD[bad]()) if path else c.args + (BAD[bad](),) if bad else c.args[:-1]
    old = c.values()
    fixed = c.fixed()
    raised = 0
    hit = 0
    e = None
    try:
        try:
            r = c.f(*args, **(c.kw or {}))
        finally:
            hit = raised
    except Exception as ex:
        ex.__traceback__ = None
        e = ex
    else:
        try:
            if not isinstance(r, setsc.BitSet):
                repr(r)
        except Exception as ex:
            if not isinstance(ex, (Boom, TypeError, ValueError)):
                ctx.fail('result not shown: %r' % ex)
            ex = None
        r = None
    if hit and e is not BOOM:
        ctx.fail('exception of the user replaced by %r' % e)
    if isinstance(e, SystemError) or isinstance(e, MemoryError) and bad not in BIG:
        ctx.fail('raised %r' % e)
    try:
        ctx.check(c.fixed() == fixed, lambda: 'an operand that is not changed has changed')
    except Exception as ex:
        ctx.fail('operands %r' % ex)
    if e is not None:
        after = c.values()
        if after != old and not c.partial and not IN_PLACE.search(name):
            ctx.fail('%r and changed %r to %r' % (e, old, after))
    for x in c.changes:
        exercise(x, ctx)
    c = args = e = None



# ------------------------------------------------------- errors in iterables

LOOKS = {
    MutBitSet: lambda x: (immbitset(x), list(x)) if '~' not in ops.norm(x) else 0,
    MutNodeSet: lambda x: (immnodeset(x), list(x), len(x)),
    NodeGraph: lambda x: (list(x), len(x), x.copy()),
}


def raising(ctx, name, make, path, k, look):
    """An iterable raises after k items: what was done before is a part of the whole, and the rest can be done afterwards."""
    c = make()
    whole = at(c.args, path)
    items = list(whole)
    xs = [x for x in c.changes if type(x) in LOOKS]
    if look and not xs:
        return
    args = put(c.args, path, Iter(items, k, look and (lambda: [LOOKS[type(x)](x) for x in xs])))
    old = c.values()
    fixed = c.fixed()
    global raised
    raised = 0
    try:
        r = c.f(*args, **(c.kw or {}))
    except Exception as e:
        e.__traceback__ = None
        if not raised:
            return      # (not an iterable for it)
        ctx.check(e is BOOM, lambda: 'another exception: %r' % e)
    else:
        r = None
        ctx.add('not exhausted')
    ctx.check(c.fixed() == fixed, lambda: 'an operand that is not changed has changed')
    after = c.values()
    c2 = make()
    try:
        c2.f(*put(c2.args, path, type(whole)(items[:k]) if type(whole) in (list, tuple) else items[:k]), **(c2.kw or {}))
    except (TypeError, AttributeError):
        return
    part = c2.values()
    if c.partial or IN_PLACE.search(name):
        ctx.check(after == old or after == part, lambda: 'operands %r when it failed at %d: neither %r nor %r' % (after, k, old, part))
    else:
        ctx.check(after == old, lambda: 'operands changed from %r to %r' % (old, after))
    for x in c.changes:
        exercise(x, ctx)
    ctx.add('errors in iterables')


def at(args, path):
    for i in path:
        args = args[i]
    return args


# ------------------------------------------------- user code that interferes

def operands(c):
    xs = list(c.args)
    s = getattr(c.f, '__self__', None)
    if s is not None and not isinstance(s, types.ModuleType):
        xs.append(s)
    w = getattr(c, 'w', None)
    if w is not None:
        xs.append(w.hv)
    r = []
    for x in xs:
        if type(x) in ACTS and not any([x is y for y in r]):
            r.append(x)
    return r


def more_edges(g):
    for i in range(12):
        g.add_edge(POOL[i], POOL[(i * 5) % 12])


ACTS = {
    MutBitSet: [lambda x: x.clear(), lambda x: x.add(10**6), lambda x: x.__ior__(range(0, 64 * 50, 64)), lambda x: x.__iand__([]), lambda x: immbitset(x), lambda x: x and x.pop() if '~' not in ops.norm(x) else 0, lambda x: x.__ixor__(~immbitset())],
    MutNodeSet: [lambda x: x.clear(), lambda x: x.__ior__(POOL), lambda x: x and x.pop(), lambda x: x.__iand__([]), lambda x: immnodeset(x), lambda x: x.__ixor__(POOL[:7])],
    NodeGraph: [lambda x: x.clear(), more_edges, lambda x: x[POOL[0]] if not x.is_mapping else len(x), lambda x: x.invert(), lambda x: x.update([(POOL[1], POOL[0])] * 3)],
    heapyc.HeapView: [lambda x: setattr(x, 'root', ()), lambda x: x.heap(), lambda x: x.relimg([POOL]), lambda x: setattr(x, '_hiding_tag_', []), lambda x: x.register_hidden_exact_type(ops.mkhid())],
    list: [lambda x: x.clear(), lambda x: x.extend(POOL)],
    dict: [lambda x: x.clear(), lambda x: x.update({i: i for i in range(50)})],
}


class Acting:
    """An iterator that does something when it has given k items."""

    def __init__(self, items, k, act):
        self.items, self.k, self.act = list(items), k, act

    def __iter__(self):
        return self

    def __next__(self):
        if not self.k:
            self.act()
        self.k -= 1
        if not self.items:
            raise StopIteration
        return self.items.pop(0)


def acting(ctx, name, make, path, k, j, i):
    """An operand is changed while the items are got."""
    c = make()
    items = list(at(c.args, path))
    os = operands(c)
    x = os[j]
    act = ACTS[type(x)][i]
    args = put(c.args, path, Acting(items, k, lambda: act(x)))
    try:
        r = c.f(*args, **(c.kw or {}))
        r = None
    except (Boom, SystemError) as e:
        ctx.fail('raised %r' % e)
    except Exception as e:
        e.__traceback__ = None
    sane(c, os, ctx)
    ctx.add('interferences')


def sane(c, os, ctx):
    """The operands are good sets and graphs."""
    for x in os:
        if type(x) in (MutBitSet, MutNodeSet, NodeGraph):
            exercise(x, ctx)
        elif type(x) is heapyc.HeapView:
            x.root = POOL[:2]
            x.relimg([x.root])
            found = set(map(id, x.heap()))
            ctx.check(found >= set(map(id, POOL[:2])), lambda: 'the view has lost objects')


class Dying:
    """An object that does something when it ceases to be."""
    def __init__(self, act):
        self.act = act

    on = True

    def __del__(self):
        if Dying.on:
            self.act()


def dying(ctx, name, make, j, i, m):
    """An operand holds an object that changes the operands when it is released."""
    c = make()
    os = operands(c)
    x, y = os[j], os[m]
    act = ACTS[type(y)][i]
    d = Dying(lambda: act(y))
    done = []
    if type(x) is MutNodeSet:
        x.add(d)
    elif type(x) is NodeGraph:
        x.add_edge(d, POOL[1])
        x.add_edge(POOL[1], d)
        x.add_edge(POOL[0], d)
    elif type(x) is list:
        x.append(d)
    elif type(x) is dict:
        x[5] = d
    elif type(x) is heapyc.HeapView:
        x._hiding_tag_ = d
    else:
        return
    d = None
    Dying.on = True
    try:
        r = c.f(*c.args, **(c.kw or {}))
        r = None
    except (Boom, SystemError) as e:
        ctx.fail('raised %r' % e)
    except Exception as e:
        e.__traceback__ = None
    Dying.on = False
    sane(c, os, ctx)
    ctx.add('releases')


# ------------------------------------------------------------------ iterators

ITERABLES = {
    'mutable bits': (lambda: mutbitset([-70, 0, 1, 63, 64, 700]), MutBitSet), 'split bits': (lambda: ops.bs('msplit', 'mix'), MutBitSet), 'nodes': (lambda: mutnodeset(POOL[:5]), MutNodeSet), 'graph': (lambda: ops.ng('mess'), NodeGraph),
    'sorted graph': (lambda: ops.ng('mess', True), NodeGraph),
}


def iterators(tier):
    depth = 4 if tier == 'quick' else 6
    for n, (make, t) in ITERABLES.items():
        acts = list(range(len(ACTS[t])))
        for d in range(1, depth + 1):
            for seq in itertools.product(['next'] + acts, repeat=d):
                if 'next' in seq:
                    yield n, seq


def iterating(ctx, n, seq):
    make, t = ITERABLES[n]
    x = make()
    it = iter(x)
    touched = False
    for s in seq:
        if s == 'next':
            try:
                v = next(it)
            except StopIteration:
                pass
            except RuntimeError:
                ctx.check(touched, lambda: 'said to have changed')
            else:
                if t is MutBitSet:
                    ctx.check(type(v) is int, lambda: 'item %r' % (v,))
                elif t is MutNodeSet:
                    ctx.check(any([v is o for o in POOL]), lambda: 'item %r' % (v,))
                else:
                    ctx.check(type(v) is tuple and len(v) == 2 and all([any([w is o for o in POOL]) for w in v]), lambda: 'item %r' % (v,))
            v = None
        else:
            ACTS[t][s](x)
            touched = True
    exercise(x, ctx)
    for k in range(3):
        try:
            next(it, None)
        except RuntimeError:
            pass
    ctx.add('iterations')


# ------------------------------------------------------------------- sessions

session = None


class Session:
    def __init__(self):
        self.h = h = guppy.hpy()
        self.objs = [1, 'a', (2,), [POOL[0]], {}, {3: POOL[1]}, POOL[2]]
        self.s = h.iso(*self.objs)
        self.k = h.Type(int) | h.Type.Dict
        h.View.root = [self.objs, POOL]
        self.want = self.probe()

    def probe(self):
        h, s = self.h, self.s
        hv = h.View.hv
        t = guppy.hpy().iso(*self.objs)
        return [s.by(er).stat.__class__.__name__ and [(r.count, r.size, r.name) for r in s.by(er).stat.get_rows()] for er in ('Type', 'Size', 'Clodo')] + [
            s.count, (s & self.k).count, (s & h.Type.Dict).count, str(self.k), str(s), hv.is_hiding_calling_interpreter, hv.limitframe, type(hv.root).__name__, hv._hiding_tag_ is h.View._hiding_tag_,
            len(h.View.referrers_gc and [] or []), h.Use.relheap.count if hasattr(h, 'Use') else 0]


CALLS = dict(
    iso=lambda h, s, k, x: h.iso(x), idset=lambda h, s, k, x: h.idset(x), Id=lambda h, s, k, x: h.Id(x), Type=lambda h, s, k, x: h.Type(x), Class=lambda h, s, k, x: h.Class(x), Size=lambda h, s, k, x: h.Size(x),
    Clodo=lambda h, s, k, x: h.Clodo(x), dictof=lambda h, s, k, x: h.Clodo(dictof=x), Module=lambda h, s, k, x: h.Module(x), Rcs=lambda h, s, k, x: h.Rcs(x), Via=lambda h, s, k, x: h.Via(x), Prod=lambda h, s, k, x: h.Prod(x),
    findex=lambda h, s, k, x: h.findex(x), findex2=lambda h, s, k, x: h.findex(k, x), findex3=lambda h, s, k, x: (h.findex(k)(x) & s).count,
    Unity=lambda h, s, k, x: h.Unity(x) if callable(h.Unity) else None, attr=lambda h, s, k, x: getattr(h.Type, x) if isinstance(x, str) else None,
    index=lambda h, s, k, x: s[x], slice1=lambda h, s, k, x: s[x:], slice2=lambda h, s, k, x: s[:x], slice3=lambda h, s, k, x: s[::x], by=lambda h, s, k, x: s.by(x).count, er=lambda h, s, k, x: h.Type[x] if hasattr(h.Type, '__getitem__') else None,
    shpaths=lambda h, s, k, x: s.get_shpaths(x), shpaths2=lambda h, s, k, x: s.get_shpaths(h.iso(h), x), rp=lambda h, s, k, x: s.get_rp(x), rp2=lambda h, s, k, x: s.get_rp(2, x), rp3=lambda h, s, k, x: s.get_rp(2, None, x),
    diff=lambda h, s, k, x: s.diff(x), stat=lambda h, s, k, x: s.stat - x, brief=lambda h, s, k, x: s.get_render(x) if hasattr(s, 'get_render') else None, more=lambda h, s, k, x: s.more[x], morep=lambda h, s, k, x: s.more(x),
    disjoint=lambda h, s, k, x: s.disjoint(x), nodeset=lambda h, s, k, x: s.test_contains(x) if hasattr(s, 'test_contains') else None, contains=lambda h, s, k, x: x in s, kcontains=lambda h, s, k, x: x in k,
    alt=lambda h, s, k, x: k.alt(x), kby=lambda h, s, k, x: k.biper(x) if hasattr(k, 'biper') else None, fbiper=lambda h, s, k, x: h.Type.biper if 0 else h.Type(int).biper(x), union=lambda h, s, k, x: h.union(x) if hasattr(h, 'union') else None,
    heapof=lambda h, s, k, x: h.View.obj_at(x), retclass=lambda h, s, k, x: h.View.imdom(x), domisize=lambda h, s, k, x: h.View.domisize(x), referrers=lambda h, s, k, x: h.View.relimg(x), indisize=lambda h, s, k, x: h.View.indisize_sum(x),
    setdoc=lambda h, s, k, x: setattr(h, 'doc', x) if 0 else None, setmore=lambda h, s, k, x: setattr(h, x, 1) if 0 else None, reprefix=lambda h, s, k, x: setattr(h, 'reprefix', x) or setattr(h, 'reprefix', ''),
)
for _n, _f in (('&', operator.and_), ('|', operator.or_), ('-', operator.sub), ('^', operator.xor), ('<=', operator.le), ('<', operator.lt), ('==', operator.eq), ('>=', operator.ge), ('>', operator.gt), ('!=', operator.ne), ('@', operator.matmul), ('/', operator.truediv)):
    CALLS['set %s x' % _n] = lambda h, s, k, x, f=_f: f(s, x)
    CALLS['x %s set' % _n] = lambda h, s, k, x, f=_f: f(x, s)
    CALLS['kind %s x' % _n] = lambda h, s, k, x, f=_f: f(k, x)
    CALLS['x %s kind' % _n] = lambda h, s, k, x, f=_f: f(x, k)
    CALLS['er %s x' % _n] = lambda h, s, k, x, f=_f: f(h.Type, x)


def in_session(ctx, call, bad):
    global session, raised
    if session is None:
        session = Session()
    s = session
    raised = 0
    hit = 0
    try:
        try:
            r = CALLS[call](s.h, s.s, s.k, BAD[bad]())
            if not call.startswith('rp'):
                str(r)      # (and those are slow)
        finally:
            hit = raised
            r = None
    except Exception as e:
        e.__traceback__ = None
        ctx.check(not isinstance(e, SystemError), lambda: 'raised %r' % e)
        ctx.check(not hit or e is BOOM, lambda: 'exception of the user replaced by %r' % e)
    else:
        ctx.check(not hit, lambda: 'exception of the user lost')
    got = s.probe()
    ctx.check(got == s.want, lambda: 'the session has changed: %r' % [(a, b) for a, b in zip(got, s.want) if a != b])
    ctx.add('calls in a session')


# ------------------------------------------------- what has to be rejected

def iterable(x):
    if type(x) is heapyc.HeapView:
        return True     # (stands for its heap)
    try:
        iter(x)
    except Exception:
        return False
    return True


def a(*types):
    return lambda x: isinstance(x, types)


def integer(x):
    try:
        operator.index(x)
    except Exception:
        return False
    return True


def anything(x):
    return True


def bits(x):
    if isinstance(x, dict) and type(x) is not dict:
        return True     # (taken as a dict)
    return isinstance(x, (setsc.BitSet, int)) or type(x) is not heapyc.HeapView and iterable(x) and all([type(b) is int for b in x])


def nodes(x):
    return isinstance(x, setsc.NodeSet) or iterable(x)


graph, cli, memo, atype, nset = a(NodeGraph), a(heapyc.ObjectClassifier), a(dict), a(type), a(setsc.NodeSet)
comparison = ('<', '<=', '==', '!=', '>', '>=').__contains__
# operation: what each argument has to be
SUITABLE = {
    'cli_and': (a(tuple), memo), 'cli_dictof': (graph, cli, anything, anything), 'cli_findex': (a(tuple), memo), 'cli_indisize': (memo,), 'cli_inrel': (graph, memo, memo),
    'cli_prod': (memo,), 'cli_rcs': (graph, cli, memo), 'cli_user_defined': (cli, anything, anything, anything), 'delete_extra_type': (atype,), 'HeapView': (anything, a(tuple)), 'HeapView defs': (anything, a(tuple)),
    'Horizon': (iterable,), 'NodeGraph': (lambda x: x is None or iterable(x), anything), 'immbitrange 3': (integer, integer, integer), 'setsc.immbit': (integer,), 'setsc.immbitset': (bits,),
    'view._hiding_tag_ =': (), 'view reachable': (nset, nset), 'view reachable_x': (nset, nset), 'view relimg': (iterable,), 'view indisize_sum': (iterable,), 'view shpathstep': (graph, nset, nset),
    'view shpathstep find one': (graph, nset, nset, graph, anything), 'view update_referrers': (graph, nset), 'view update_referrers_completely': (graph,), 'view update_dictowners': (graph,),
    'view register__hiding_tag__type': (atype,), 'view register_hidden_exact_type': (atype,), 'view news': (iterable,), 'view numedges': (anything, anything),
    'NG update': (iterable,), 'NG updated': (iterable,), 'NG relimg': (iterable,), 'NG add_edges_n1': (iterable, anything), 'NG domain_covers': (iterable,), 'NG domain_restricted': (iterable,),
    'bits mut(mix) add 77': (integer,), 'bits mut(mix) discard 63': (integer,), 'bits mut(mix) tas 35': (integer,), 'bits mut(mix) tac 0': (integer,), 'bits mut(mix) append 91': (integer,), 'bits mut(one) remove 5': (integer,),
}
for _c in ('type', 'none', 'id', 'idset', 'size', 'rcs', 'inrel', 'and', 'dictof', 'findex', 'prod'):
    SUITABLE['view cli_%s: partition' % _c] = SUITABLE['view cli_%s: epartition' % _c] = (iterable,)
for _c in ('type', 'none', 'size', 'findex'):
    SUITABLE['view cli_%s: select' % _c] = (iterable, anything, lambda x: type(x) in (str, Str) and x in ('<', '<=', '==', '!=', '>', '>='))
for _o in '&|-^':
    SUITABLE['nodes mut(few) %s= list(other)' % _o] = (nodes, nodes)
    SUITABLE['nodes imm(few) %s list(other)' % _o] = (anything, nodes)
    SUITABLE['bits mut(mix) %s= imm(spread)' % _o] = (anything, bits)
# the same for what is in the arguments
WITHIN = {
    'cli_and': {(0, 0): cli, (0, 1): cli}, 'cli_findex': {(0, i): a(tuple) for i in (0, 1)}, 'NodeGraph': {(0, 0): a(tuple)}, 'NG update': {(0, 0): a(tuple)}, 'NG updated': {(0, 0): a(tuple)},
}
WITHIN['cli_findex'].update({(0, i, 0): cli for i in (0, 1)})
WITHIN['cli_findex'].update({(0, i, 2): lambda x: type(x) in (str, Str) and x in ('<', '<=', '==', '!=', '>', '>=') for i in (0, 1)})


def fits(suits, x):
    try:
        return suits(x)
    except Boom:
        return True     # (whatever it is)


def rejected(ctx, name, path, suits, bad):
    c = ALL[name]()
    if c is None:
        return
    x = BAD[bad]()
    if fits(suits, BAD[bad]()):
        return
    args = put(c.args, path, x)
    try:
        r = c.f(*args, **(c.kw or {}))
    except Exception as e:
        e.__traceback__ = None
        ctx.add('rejections')
    else:
        ctx.fail('taken for suitable, giving %.200r' % (r,))


def rejections():
    for name, suits in SUITABLE.items():
        for i, f in enumerate(suits):
            if f is not anything:
                yield name, (i,), f
    for name, d in WITHIN.items():
        for path, f in d.items():
            yield name, path, f


# ----------------------------------------------------------------------- runs

def run_op(name, make, ctx):
    c = make()
    if c is None:
        return
    ps = list(places(c.args))
    n = len(c.args)
    its = [p for p in ps if type(at(c.args, p)) in (list, tuple, ImmNodeSet, setsc.ImmBitSet) and len(at(c.args, p)) < 12]
    lens = {p: len(at(c.args, p)) for p in its}
    os = operands(c)
    acts = [[len(ACTS[type(x)])] for x in os]
    c = None
    for path in ps + [None]:
        for bad in BAD:
            if ctx.case('argument', name, path, bad):
                attempt(ctx, name, make, path, bad)
    if n and ctx.case('argument', name, 'less'):
        attempt(ctx, name, make, None, None)
    if ctx.full:
        return
    for p in its:
        for k in range(lens[p] + 1):
            for look in (False, True):
                if ctx.case('raising', name, p, k, look):
                    raising(ctx, name, make, p, k, look)
    for p in its:
        for k in range(lens[p] + 1):
            for j, x in enumerate(os):
                for i in range(acts[j][0]):
                    if ctx.case('acting', name, p, k, j, i):
                        acting(ctx, name, make, p, k, j, i)
    for j in range(len(os)):
        for m in range(len(os)):
            for i in range(acts[m][0]):
                if ctx.case('dying', name, j, i, m):
                    dying(ctx, name, make, j, i, m)


def chosen(tier):
    """Operations on one set of values only, unless it is thorough."""
    if tier != 'quick':
        return list(ALL)
    r = []
    for n in ALL:
        if n.startswith('bits '):
            if '(spread)' in n or '(mix)' in n and not re.search(r'\(mix\) [-&|^]=? ', n) or n.startswith('bits mut(empty)') and '(far)' not in n:
                r.append(n)
        elif n.startswith('nodes '):
            if re.search(r'^nodes \w+\(few\) ([-&|^]=? \w+\(other\)|[^-&|^])', n):
                r.append(n)
        elif n.startswith('graph '):
            if n.startswith('graph mess'):
                r.append(n)
        elif not n.startswith('new view'):
            r.append(n)
    return r


N = 96


def shards(tier):
    return [[f, i, n] for f, n in (('operations', N), ('sessions', 16), ('iterators', 8), ('rejections', 4)) for i in range(n)]


def run(shard, ctx):
    f, i, n = shard
    gc.disable()
    gc.collect()
    gc.freeze()
    if f == 'operations':
        for name in chosen(ctx.tier)[i::n]:
            run_op(name, ALL[name], ctx)
            ctx.add('operations')
            gc.collect()
            if ctx.full:
                return
    elif f == 'rejections':
        for name, path, suits in list(rejections())[i::n]:
            for bad in BAD:
                if ctx.case('rejection', name, path, bad):
                    rejected(ctx, name, path, suits, bad)
                    if ctx.full:
                        return
    elif f == 'sessions':
        for call in list(CALLS)[i::n]:
            for bad in BAD:
                if ctx.case('session', call, bad):
                    in_session(ctx, call, bad)
                    if ctx.full:
                        return
    else:
        for j, (name, seq) in enumerate(iterators(ctx.tier)):
            if j % n == i and ctx.case('iterator', name, *seq):
                iterating(ctx, name, seq)
                if ctx.full:
                    return
