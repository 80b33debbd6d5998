"""Every reference the collector knows is a referent, with all of its names."""
import collections, dis, functools, gc, itertools, operator, sys, types, weakref
import abc, array, ast, asyncio, contextvars, csv, ctypes, dataclasses, datetime, decimal, enum, fractions, hashlib, inspect, io, json, os, pickle, queue, random, re, select, socket, string, struct
import symtable, threading, time, tokenize, typing, unicodedata, xml.etree.ElementTree, zlib
try:
    import sqlite3
except ImportError:
    sqlite3 = None
import guppy
from guppy import sets as bitset
from guppy.heapy import heapyc
from guppy.sets import mutnodeset, immnodeset

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of small objects of each type, in every placement of the targets and every state of frames, against a model of what they refer to and how'
RULE = ('every object of the families below is made and its reported referents and the relations to each of them, to each other object at hand and to a stranger are compared with '
        'what a model derives from how the object was made; the relations that are expressions are evaluated; the referents the collector gives must be among the reported ones')
BOUNDS = dict(quick='containers with up to 3 slots over 4 objects and their subclasses, instances with 2 slots and 2 attributes over 2 levels of classes, functions, code, methods, cells, modules, classes, proxies, '
                    'tracebacks; frames of functions with 3 variables of 14 kinds in 5 states; some 260 objects of other types of the language and the library',
              thorough='containers with up to 4 slots, instances with 3 slots and 3 attributes, frames of functions with 3 variables and 3 objects')
ASSUME = ['keys()[i] stands for list(keys())[i]; the __dict__ of a class stands for what its proxy shows', 'CPython 3.12, where the values of instances are moved to dicts when they are looked at']

ATTR, IVAL, IKEY, INTER, HASATTR, LOCAL, CELL, STACK, INSET = range(1, 10)
NAMES = ['', 'ATTR', 'IVAL', 'IKEY', 'INTER', 'HASATTR', 'LOCAL', 'CELL', 'STACK', 'INSET', 'RELSRC']


class T:
    """A target; its slot is where cells have their contents."""
    __slots__ = ('n', 'm', '__weakref__')

    def __repr__(self):
        return 'T%d' % self.n


def mkt(n):
    t = T()
    t.n = n
    return t


P = [mkt(i) for i in range(4)]
STRANGER = mkt(99)
for _t in P:
    _t.n = mkt(50 + P.index(_t))    # (found when an object is taken for a cell)
T.__repr__ = lambda t: 'T%d' % P.index(t) if t in P else 'T?'

view = None


def session():
    global view, paths
    if view is None:
        h = guppy.hpy()
        paths = h._parent.Path
        view = heapyc.HeapView(object(), h.View.heapdefs)


def rk(r):
    return (type(r).__name__, r) if type(r) in (str, int) else ('id', id(r))


def got_relations(o, x):
    return sorted([(i, rk(r)) for i, rs in enumerate(view.relate(o, x)) for r in rs])


def show(rels):
    return [(NAMES[i], r) for i, r in rels]


class Refs:
    """What an object refers to: (kind, relator, target, whether it is reported as a referent)."""

    def __init__(self, o):
        self.l = []
        self.o = o
        t = type(o)
        self.add(INTER, 'ob_type', t, t.__flags__ & (1 << 9))

    def add(self, kind, rel, x, referent=True):
        self.l.append((kind, rel, x, referent))

    def attrs(self, *names):
        for n in names:
            x = getattr(self.o, n)
            if x is not None:
                self.add(ATTR, n, x)

    def dict(self, d, k, v, referent=True):
        # (the collector does not care for the keys when all are strings)
        keys = referent and any([type(a) is not str for a in d])
        for i, (a, b) in enumerate(d.items()):
            self.add(k, i, a, keys)
            self.add(v, a, b, referent)

    def slots(self):
        for c in type(self.o).__mro__:
            if c.__flags__ & (1 << 9):
                for n, d in list(vars(c).items()):
                    if type(d) is types.MemberDescriptorType:
                        try:
                            self.add(ATTR, n, d.__get__(self.o))
                        except AttributeError:
                            pass

    def instance(self):
        """The attributes kept in the dict."""
        d = getattr(self.o, '__dict__', None)
        if d is not None:
            self.add(ATTR, '__dict__', d)
            self.dict(d, HASATTR, ATTR, False)


def compare(ctx, R, extra=(), evaluate=True, exact=True, gc_extra=()):
    """Compare the referents of R.o and its relations with R."""
    o = R.o
    pre = gc.get_referents(o)
    im = list(view.relimg([o]))
    want = {id(x): x for k, r, x, f in R.l if f}
    got = {id(x): x for x in im}
    if exact:
        ctx.check(sorted(got) == sorted(want), lambda: 'referents %r, want %r' % (sh(got, want), sh(want, got)))
    pre = {id(x): x for x in gc.get_referents(o)}
    lost = [x for i, x in pre.items() if i not in got]
    ctx.check(not lost, lambda: 'referents of the collector not reported: %r' % [brief(x) for x in lost])
    targets = {id(x): x for x in im + [x for k, r, x, f in R.l] + list(extra) + P + [STRANGER, None] + [t.n for t in P]}
    n = 0
    for i, x in targets.items():
        w = sorted([(k, rk(r)) for k, r, y, f in R.l if y is x])
        if x is None and not w and not exact:
            continue
        g = got_relations(o, x)
        ctx.check(g == w, lambda: 'relations to %s: %r, want %r' % (brief(x), show(g), show(w)))
        n += 1
        if evaluate and w:
            for rel in paths.relations(o, x):
                evaluates(ctx, o, x, rel)
    ctx.add('pairs', n)


def brief(x):
    return '%s:%.60r' % (type(x).__name__, x)


def sh(a, b):
    return [brief(x) for i, x in a.items() if i not in b] + ['(%d more)' % len([i for i in a if i in b])]


def evaluates(ctx, o, x, rel):
    code, r = rel.code, rel.r
    if code == 0:
        ctx.check(o is x, lambda: 'identity of different objects')
    elif code == ATTR:
        if not r.isidentifier():
            return
        s = rel.stra('o')
        ctx.check(s == 'o.' + r, lambda: 'printed as %r' % s)
        if isinstance(o, types.FrameType) and r == 'f_back':
            return
        y = eval(s, {'o': o})
        if isinstance(o, type) and r == '__dict__':
            y = gc.get_referents(y)[0]
        ctx.check(y is x, lambda: '%s gives %s, want %s' % (s, brief(y), brief(x)))
    elif code == IVAL:
        y = o[r] if not isinstance(o, tuple) else tuple.__getitem__(o, r)
        ctx.check(y is x, lambda: '[%r] gives %s, want %s' % (r, brief(y), brief(x)))
        if type(r) in (int, str, bytes, type(None), float):
            for safe in (True, False):
                s = rel.stra('o', safe=safe)
                ctx.check(eval(s, {'o': o}) is x, lambda: '%s does not give %s' % (s, brief(x)))
    elif code == IKEY:
        ctx.check(list(o.keys())[r] is x, lambda: 'key %r' % r)
        ctx.check(rel.stra('o') == 'o.keys()[%d]' % r, lambda: rel.stra('o'))
    elif code == HASATTR:
        ctx.check(list(o.__dict__)[r] is x, lambda: 'attribute name %r' % r)
        ctx.check(rel.stra('o') == 'o.__dict__.keys()[%d]' % r, lambda: rel.stra('o'))
    elif code == INSET:
        s = rel.stra('o')
        ctx.check(eval(s, {'o': o}) is x, lambda: '%s does not give %s' % (s, brief(x)))
    elif code == LOCAL:
        ctx.check(rel.stra('o') == 'o.f_locals[%r]' % r, lambda: rel.stra('o'))
    elif code == CELL:
        ctx.check(rel.stra('o') == 'o.f_locals [%r]' % r, lambda: rel.stra('o'))
    elif code == STACK:
        ctx.check(rel.stra('o') == 'o->f_valuestack[%d]' % r, lambda: rel.stra('o'))
    elif code == INTER:
        ctx.check(rel.stra('o') == 'o->' + r, lambda: rel.stra('o'))
    else:
        ctx.fail('relation of kind %r' % code)


# ------------------------------------------------------------- containers

class L(list):
    pass


class LS(list):
    __slots__ = ('a',)


class LL(L):
    __slots__ = ('a', 'b')


class D(dict):
    pass


class DS(dict):
    __slots__ = ('a',)


class S(set):
    pass


class SS(set):
    __slots__ = ('a',)


class F(frozenset):
    pass


class TU(tuple):
    pass


class Mix:
    pass


class LM(list, Mix):
    pass


ELEMS = P[:3] + ['k']
KEYS = [P[0], P[1], 'k', 7]


def tuples(elems, n):
    for k in range(n + 1):
        yield from itertools.product(range(len(elems)), repeat=k)


def deco(o, a):
    """Give o attributes: a = (in the dict, in the slot), from None or indices."""
    d, s = a
    if d is not None:
        o.x = P[d]
    if s is not None:
        o.a = P[s]
    return o


def sequences(tier):
    n = 3 if tier == 'quick' else 4
    for t in (list, tuple, L, LS, LL, TU, LM):
        hasdict = t not in (list, tuple, LS)
        hasslot = t in (LS, LL)
        for xs in tuples(ELEMS, n if t in (list, tuple) else 2):
            for d in (None, 0, 1) if hasdict else (None,):
                for s in (None, 0, 2) if hasslot else (None,):
                    yield (t.__name__, xs, d, s), functools.partial(seq, t, xs, d, s)


def seq(t, xs, d, s, ctx):
    o = deco(t([ELEMS[i] for i in xs]), (d, s))
    R = Refs(o)
    for i, j in enumerate(xs):
        R.add(IVAL, i, ELEMS[j])
    R.slots()
    R.instance()
    compare(ctx, R)


def sets(tier):
    for t in (set, frozenset, S, SS, F):
        hasdict = t in (S, F)
        for k in range(5):
            for xs in itertools.combinations(range(4), k):
                for d in (None, 0, 3) if hasdict else (None,):
                    for s in (None, 0, 3) if t is SS else (None,):
                        yield (t.__name__, xs, d, s), functools.partial(aset, t, xs, d, s)


def aset(t, xs, d, s, ctx):
    o = deco(t([KEYS[i] for i in xs]), (d, s))
    R = Refs(o)
    for i, x in enumerate(list(o)):
        R.add(INSET, i, x)
    R.slots()
    R.instance()
    compare(ctx, R)


def dicts(tier):
    n = 3 if tier == 'quick' else 4
    for t in (dict, D, DS, collections.OrderedDict, collections.defaultdict):
        hasdict = t is D
        for k in range((n if t is dict else 2) + 1):
            for ks in itertools.permutations(range(4), k):
                for vs in itertools.product(range(3), repeat=k):
                    for d in (None, 0, 1) if hasdict else (None,):
                        for s in (None, 0, 2) if t is DS else (None,):
                            yield (t.__name__, ks, vs, d, s), functools.partial(adict, t, ks, vs, d, s)


def adict(t, ks, vs, d, s, ctx):
    o = t() if t is not collections.defaultdict else t(template)
    for a, b in zip(ks, vs):
        o[KEYS[a]] = ELEMS[b]
    deco(o, (d, s))
    R = Refs(o)
    R.dict(o, IKEY, IVAL)
    R.slots()
    R.instance()
    if t is collections.OrderedDict:
        compare(ctx, R, exact=False)
    else:
        compare(ctx, R)
    if t is dict:
        p = types.MappingProxyType(o)
        R = Refs(p)
        R.add(INTER, 'mapping', o)
        R.dict(o, IKEY, IVAL, False)
        compare(ctx, R)


# -------------------------------------------------------------- instances

class B0:
    __slots__ = ()


class B1:
    __slots__ = ('a',)


class B2(B1):
    __slots__ = ('b', '__dict__')


class B3(B2):
    pass


class B4(B1):
    __slots__ = ('__c',)


class B5(B3):
    __slots__ = ('z',)


class B6:
    def __init__(self):
        pass


class B7(B6, Mix):
    __slots__ = ('a',)


class EX(Exception):
    pass


CLS = [B1, B2, B3, B4, B5, B6, B7]


def instances(tier):
    vals = (None, 0, 1)
    for t in CLS:
        sl = [n for c in t.__mro__ for n, d in vars(c).items() if type(d) is types.MemberDescriptorType]
        at = [[], ['x'], ['x', 'y'], ['y', 'x'], ['not an identifier', 'x']] if t.__dictoffset__ else [[]]
        if tier != 'quick' and t.__dictoffset__:
            at += [list(p) for p in itertools.permutations(['x', 'y', 'w'])]
        for sv in itertools.product(vals, repeat=len(sl)):
            for names in at:
                for av in itertools.product(range(3), repeat=len(names)):
                    for mat in (False, True):
                        yield (t.__name__, sv, names, av, mat), functools.partial(inst, t, sl, sv, names, av, mat)


def inst(t, sl, sv, names, av, mat, ctx):
    o = t.__new__(t)
    for n, v in zip(sl, sv):
        if v is not None:
            setattr(o, n, P[v])
    for n, v in zip(names, av):
        setattr(o, n, P[v])
    if mat and t.__dictoffset__:
        o.__dict__
    if not mat:
        im = list(view.relimg([o]))     # (moves the values to a dict)
    R = Refs(o)
    R.slots()
    R.instance()
    compare(ctx, R)


# ------------------------------------------------------ functions and code

STR = [''.join(['name', str(i)]) for i in range(3)]


def template(a=1, *, b=2):
    return a


def functions(tier):
    # who of name, qualname, module and doc are the same string, and who of kwdefaults, annotations and attributes the same dict
    for names in itertools.product(range(2), repeat=4):
        yield ('func', names), functools.partial(func, names, (None, None, None), None, 0)
    for dd in itertools.product((None, 0, 1), repeat=3):
        for tup in (None, 0, 1):
            for free in range(3):
                yield ('func', dd, tup, free), functools.partial(func, (0, 0, 0, 1), dd, tup, free)
    for n in range(3):
        yield ('annotated', n), functools.partial(annotated, n)
    for p in range(3):
        yield ('type params', p), functools.partial(func, (0, 0, 0, p % 2), (None, None, None), None, 0, params=True)


def annotated(n, ctx):
    """Annotations are made a dict when they are looked at."""
    g = {'P': P}
    exec('def f(%s): pass' % ','.join(['a%d: P[%d]' % (i, i) for i in range(n)]), g)
    f = g['f']
    tup = [x for x in gc.get_referents(f) if type(x) is tuple and x and x[:1] == ('a0',)]
    ctx.check(len(tup) == (n > 0), lambda: 'annotations %r' % tup)
    for x in tup:
        ctx.check(got_relations(f, x) == [(INTER, rk('func_annotations'))], lambda: 'not made: %r' % show(got_relations(f, x)))
    d = f.__annotations__
    ctx.check(got_relations(f, d) == [(ATTR, rk('__annotations__'))], lambda: 'made: %r' % show(got_relations(f, d)))


def func(names, dd, tup, free, ctx, params=False):
    g = {'__name__': STR[2], 'P': P}
    if params:
        exec('def f[A, B](x): return x', g)
        f = g.pop('f')
    else:
        exec('def o(%s):\n def f(x=1,*,y=2): return %s\n return f' % (','.join('abc'[:free]), ','.join('abc'[:free]) or '0'), g)
        f = g.pop('o')(*P[:free])
    f.__name__, f.__qualname__, f.__module__, f.__doc__ = [STR[i] for i in names]
    ds = [{'y': P[0]}, {'x': P[1], 'y': P[0]}]
    f.__kwdefaults__ = None if dd[0] is None else ds[dd[0]]
    f.__annotations__ = {} if dd[1] is None else ds[dd[1]]
    if dd[2] is not None:
        f.__dict__ = ds[dd[2]]
    f.__defaults__ = None if tup is None else (P[tup],)
    R = Refs(f)
    R.attrs('__code__', '__globals__', '__module__', '__defaults__', '__kwdefaults__', '__doc__', '__name__', '__closure__',
            '__annotations__', '__qualname__', '__builtins__')
    if params:
        R.attrs('__type_params__')
    if dd[2] is not None:
        R.add(ATTR, '__dict__', ds[dd[2]])
        R.dict(ds[dd[2]], HASATTR, ATTR, False)
    compare(ctx, R, exact=False)


def codes(tier):
    for names in itertools.product(range(2), repeat=3):
        for cached in range(16):
            yield ('code', names, cached), functools.partial(code, names, cached)


def code(names, cached, ctx):
    g = {}
    exec('def o(a):\n def f(x, y=3):\n  z = a\n  def h(): return z\n  try: return h, x, len\n  except KeyError: pass\n return f', g)
    f = g['o'](1)
    c = f.__code__.replace(co_name=STR[names[0]], co_qualname=STR[names[1]], co_filename=STR[names[2]])
    for i, n in enumerate(('co_code', 'co_cellvars', 'co_freevars', 'co_varnames')):
        if cached >> i & 1:
            getattr(c, n)
    R = Refs(c)
    R.attrs('co_consts', 'co_names', 'co_exceptiontable', 'co_filename', 'co_name', 'co_qualname', 'co_linetable')
    have = {id(x) for x in view.relimg([c])}
    for i, n in enumerate(('co_code', 'co_cellvars', 'co_freevars', 'co_varnames')):
        if cached >> i & 1:
            R.attrs(n)
    # (not to be had from Python)
    known = {id(x) for k, r, x, f in R.l}
    inner = [x for x in view.relimg([c]) if id(x) not in known]
    ctx.check(sorted(map(brief, inner)) == sorted(map(brief, [('x', 'y', 'h', 'z', 'a'), bytes([0x20, 0x20, 0x20, 0x40, 0x80])])), lambda: 'other referents of code: %r' % inner)
    for x in inner:
        R.add(INTER, 'co_localsplusnames' if type(x) is tuple else 'co_localspluskinds', x)
    compare(ctx, R)


# ------------------------------------------------------- other known types

def others(tier):
    def simple(name, make):
        return (name,), functools.partial(other, make)
    yield simple('cell empty', lambda: (types.CellType(), []))
    for i in range(3):
        yield simple('cell %d' % i, lambda i=i: (types.CellType(P[i]), [(ATTR, 'cell_contents', P[i], True)]))
    for ks in itertools.permutations(['a', '__name__', 'b', '__doc__'], 2):
        for vs in itertools.product(range(3), repeat=2):
            def mod(ks=ks, vs=vs):
                m = types.ModuleType('m')
                d = m.__dict__
                d.clear()
                for k, v in zip(ks, vs):
                    d[k] = P[v]
                return m, [(ATTR, '__dict__', d, True)] + [(HASATTR, i, k, False) for i, k in enumerate(ks)] + [(ATTR, k, P[v], False) for k, v in zip(ks, vs)]
            yield simple('module %r %r' % (ks, vs), mod)

    def meth(f, m=None):
        return f, [(ATTR, '__self__', f.__self__, True)]
    for i, mk in enumerate((lambda: [].append, lambda: {}.get, lambda: set().add, lambda: P[0].__reduce_ex__, lambda: int.from_bytes, lambda: ''.join)):
        yield simple('builtin method %d' % i, lambda mk=mk: meth(mk()))
    yield simple('builtin function', lambda: (len, [(ATTR, '__self__', len.__self__, True), (ATTR, '__module__', len.__module__, True)]))
    for i in range(3):
        for j in range(3):
            yield simple('method %d %d' % (i, j), lambda i=i, j=j: (lambda f: (types.MethodType(f, P[j]), [(ATTR, '__func__', f, True), (ATTR, '__self__', P[j], True)]))(
                template))
    yield simple('traceback', tracebacks)
    yield simple('traceback last', lambda: tracebacks(1))
    for n in range(3):
        for i in itertools.product(range(3), repeat=n):
            def ns(t, i=i):
                o = t([P[x] for x in i])
                return o, [(INSET, k, x, True) for k, x in enumerate(o)]
            yield simple('nodes mut %r' % (i,), lambda ns=ns: ns(mutnodeset))
            yield simple('nodes imm %r' % (i,), lambda ns=ns: ns(immnodeset))
        for e in itertools.product(range(4), repeat=n):
            def graph(e=e):
                es = [(P[x // 2], P[x % 2 * 2]) for x in e]
                o = heapyc.NodeGraph(es)
                o[P[0]]         # (sorts it)
                es = sorted(set(es), key=lambda p: (id(p[0]), id(p[1])))
                return o, [(INTER, 'edges[%d].%s' % (i, w), x, True) for i, p in enumerate(es) for w, x in zip(('src', 'tgt'), p)]
            yield simple('graph %r' % (e,), graph)
    for i in range(3):
        for j in range(3):
            yield simple('slice-like members %d %d' % (i, j), lambda i=i, j=j: (slice(P[i], P[j], None), [(ATTR, 'start', P[i], True), (ATTR, 'stop', P[j], True), (ATTR, 'step', None, True)]))
            yield simple('partial %d %d' % (i, j), lambda i=i, j=j: partials(i, j))
    yield simple('weakref', lambda: (weakref.ref(P[0], template), [(ATTR, '__callback__', template, True)]))


def partials(i, j):
    o = functools.partial(template, P[i], k=P[j])
    return o, [(ATTR, 'func', o.func, True), (ATTR, 'args', o.args, True), (ATTR, 'keywords', o.keywords, True)]


def tracebacks(k=0):
    def f(n):
        if n:
            f(n - 1)
        raise ValueError
    try:
        f(2)
    except ValueError as e:
        tb = e.__traceback__
    while k:
        while tb.tb_next:
            tb = tb.tb_next
        k = 0
    r = [(ATTR, 'tb_frame', tb.tb_frame, True)]
    if tb.tb_next:
        r.append((ATTR, 'tb_next', tb.tb_next, True))
    return tb, r


def other(make, ctx):
    o, refs = make()
    R = Refs(o)
    for r in refs:
        R.add(*r)
    compare(ctx, R)


# ---------------------------------------------------------------- classes

class Meta(type):
    pass


class MetaSlot(type):
    x = 1


def classes(tier):
    for meta in (type, Meta, MetaSlot):
        for bases in ((), (B6,), (B1,), (list,), (B6, list), (int,)):
            for slots in (None, (), ('q',), ('r', 'q')):
                for names in range(2):
                    if slots and bases and int in bases:
                        continue
                    yield (meta.__name__, [b.__name__ for b in bases], slots, names), functools.partial(cls, meta, bases, slots, names)


def cls(meta, bases, slots, names, ctx):
    ns = {'x': P[0], '__module__': STR[0]}
    if slots is not None:
        ns['__slots__'] = slots
    ns['__qualname__'] = STR[1 + names]
    c = meta(STR[1], bases, ns)
    R = Refs(c)
    R.l[0] = (INTER, 'ob_type', meta, meta is not type)
    R.add(ATTR, '__dict__', gc.get_referents(c.__dict__)[0])
    R.attrs('__mro__', '__bases__', '__base__', '__name__', '__qualname__')
    if slots:
        tup = [x for x in view.relimg([c]) if type(x) is tuple and x not in (c.__mro__, c.__bases__)]
        ctx.check(tup == [tuple(sorted(slots))], lambda: 'slots %r' % tup)
        for x in tup:
            R.add(ATTR if x is slots else INTER, '__slots__' if x is slots else 'ht_slots', x)
    if slots == ():
        R.add(INTER, 'ht_slots', ())
    compare(ctx, R)


# ----------------------------------------------------------------- frames

# a kind of variable: (parameter?, statements before the pause, statements of which the pause is a part, what is there, in a cell?)
VARS = dict(
    param=dict(param=True),
    cellparam=dict(param=True, use=True),
    local=dict(set=True),
    cell=dict(set=True, use=True),
    unset=dict(later=True),
    emptycell=dict(later=True, use=True),
    deleted=dict(set=True, delete=True),
    deletedcell=dict(set=True, use=True, delete=True),
    deletedparam=dict(param=True, delete=True),
    free=dict(free=True),
    freeempty=dict(free=True, delete=True),
    comp=dict(set=True, comp=True),
    compunset=dict(comp=True, empty=True),      # (an empty cell)
    compcell=dict(set=True, use=True, comp=True),
)
STATES = ('suspended', 'calling', 'done', 'failed', 'cleared')


def program(kinds, state):
    """The source of a function whose frame is looked at."""
    names = 'vwxyz'[:len(kinds)]
    params = [n for n, k in zip(names, kinds) if VARS[k].get('param')]
    frees = [n for n, k in zip(names, kinds) if VARS[k].get('free')]
    body = []
    for i, (n, k) in enumerate(zip(names, kinds)):
        v = VARS[k]
        if v.get('use'):
            body.append('def f_%s(): return %s' % (n, n))
            body.append('del f_%s' % n)
        if v.get('free'):
            body.append('if 0: %s' % n)
    for i, (n, k) in enumerate(zip(names, kinds)):
        if VARS[k].get('set'):
            body.append('%s = P[A[%d]]' % (n, i))
        if VARS[k].get('comp'):
            body.append('[(lambda: %s) for %s in ()]' % (n, n))
        if VARS[k].get('delete') and not VARS[k].get('free'):
            body.append('del %s' % n)
    body.append({'suspended': 'yield', 'calling': 'LOOK(FRAME())', 'done': 'return FRAME()', 'failed': 'raise ValueError', 'cleared': 'return FRAME()'}[state])
    for n, k in zip(names, kinds):
        if VARS[k].get('later'):
            body.append('%s = 1' % n)
    s = 'def outer():\n'
    for n in frees:
        s += '  %s = P[A[%d]]\n' % (n, names.index(n))
    s += '  def f(%s):\n' % ', '.join(params)
    s += ''.join('    %s\n' % b for b in body)
    for n, k in zip(names, kinds):
        if VARS[k].get('free') and VARS[k].get('delete'):
            s += '  del %s\n' % n
    s += '  return f\n'
    return s, params, names


def cells_made(code):
    """The variables that are cells from when the function begins."""
    r = set()
    for i in dis.get_instructions(code):
        if i.opname == 'RESUME':
            return r
        if i.opname == 'MAKE_CELL':
            r.add(i.argval)


def frames(tier):
    n = 3
    for kinds in itertools.product(VARS, repeat=n):
        for vals in itertools.product(range(2 if tier == 'quick' else 3), repeat=n):
            for state in STATES:
                yield (state, kinds, vals), functools.partial(frame, state, kinds, vals)


def frame(state, kinds, vals, ctx):
    src, params, names = program(kinds, state)
    g = {'FRAME': sys._getframe, 'P': P, 'A': vals, '__builtins__': {'ValueError': ValueError}}
    exec(src, g)
    f = g['outer']()
    args = [P[vals[names.index(n)]] for n in params]

    def look(fr, back):
        R = Refs(fr)
        if fr is not back and back is not None:
            R.add(ATTR, 'f_back', back)
        R.add(ATTR, 'f_globals', g)
        R.add(ATTR, 'f_builtins', g['__builtins__'])
        R.add(ATTR, 'f_code', f.__code__)
        R.add(INTER, 'f_funcobj', f)
        cells = dict(zip(f.__code__.co_freevars, f.__closure__ or ()))
        own = cells_made(f.__code__)
        if state != 'cleared':
            for n, k, i in zip(names, kinds, vals):
                v = VARS[k]
                incell = n in own or v.get('free')
                there = not v.get('delete') and (v.get('set') or v.get('param') or v.get('free'))
                if k == 'freeempty':
                    there = False
                if incell:
                    if there:
                        R.add(CELL, n, P[i], False)
                elif there:
                    R.add(LOCAL, n, P[i])
                if n in cells:
                    R.add(LOCAL, n, cells[n])
        # the cells made by the frame are to be had from the referents only
        have = {id(x) for k, r, x, _ in R.l}
        made = [x for x in view.relimg([fr]) if type(x) is types.CellType and id(x) not in have]
        uses = [(n, i) for n, i in zip(names, vals) if n in own]
        if state != 'cleared':
            ctx.check(len(made) == len(uses), lambda: '%d cells, want %d' % (len(made), len(uses)))
            by = collections.defaultdict(list)
            for c in made:
                rel = [r for r in view.relate(fr, c)[LOCAL]]
                ctx.check(len(rel) == 1, lambda: 'cell in %r' % rel)
                by[rel[0] if rel else None].append(c)
            for n, i in uses:
                ctx.check(len(by[n]) == 1, lambda: 'cells for %s: %r' % (n, by))
                for c in by[n]:
                    R.add(LOCAL, n, c)
                    v = VARS[kinds[names.index(n)]]
                    want = (v.get('set') or v.get('param')) and not v.get('delete')
                    try:
                        is_ = c.cell_contents is P[i]
                    except ValueError:
                        is_ = False
                    ctx.check(is_ == bool(want), lambda: 'cell of %s' % n)
        else:
            ctx.check(not made, lambda: 'cells in a cleared frame')
        compare(ctx, R, extra=[f])

    if state == 'suspended':
        it = f(*args)
        next(it)
        look(it.gi_frame, None)
    elif state == 'calling':
        g['LOOK'] = lambda fr: look(fr, fr.f_back)
        f(*args)
    elif state in ('done', 'cleared'):
        fr = f(*args)
        if state == 'cleared':
            fr.clear()
        look(fr, fr.f_back)
    elif state == 'failed':
        try:
            f(*args)
        except ValueError as e:
            fr = e.__traceback__.tb_next.tb_frame
            e = None
        look(fr, fr.f_back)


FAMILIES = dict(sequences=sequences, sets=sets, dicts=dicts, instances=instances, functions=functions, codes=codes, others=others, classes=classes, frames=frames)
PARTS = dict(frames=16, dicts=6, sequences=4, instances=4)


def shards(tier):
    return [[f, i, PARTS.get(f, 1)] for f in FAMILIES for i in range(PARTS.get(f, 1))] + [['zoo', 0, 1]]


def run(shard, ctx):
    session()
    f, i, n = shard
    if f == 'zoo':
        return zoo(ctx)
    for j, (desc, case) in enumerate(FAMILIES[f](ctx.tier)):
        if j % n == i and ctx.case(f, *desc):
            case(ctx)
            if ctx.full:
                return



# ------------------------------------------------------------ other types

ZOO = {}


def zoo_of(f):
    ZOO[f.__name__] = f
    return f


@zoo_of
def exceptions():
    e = EX(P[0], P[1])
    e.a = P[2]
    e.__cause__ = ValueError(P[3])
    e.__context__ = KeyError(P[0])
    e.__notes__ = [P[1]]
    try:
        raise e
    except EX:
        pass
    return [e, KeyError(P[0]), StopIteration(P[0]), StopIteration(), OSError(1, 'x', 'f'), SystemExit(P[1]), ExceptionGroup('m', [e]), ImportError('x', name='n', path='p'),
            SyntaxError('m', ('f', 1, 2, 't')), UnicodeDecodeError('utf8', b'x', 0, 1, 'r'), UnicodeEncodeError('utf8', 'x', 0, 1, 'r'), AttributeError('x', name='n', obj=P[3]),
            NameError('x', name='n'), MemoryError(), RecursionError('x'), StopAsyncIteration(P[0])]


@zoo_of
def generators():
    def gen(a):
        b = P[1]
        yield a
        [P[3], (yield b)]

    def through():
        a = P[2]
        yield from gen(P[0])

    async def co(a):
        await asyncio.sleep(0)

    async def ag(a):
        yield a
    r = []
    for n in range(4):
        g = gen(P[0])
        for k in range(n):
            next(g, None)
        r.append(g)
    r += [through(), through(), ag(P[1]), ag(P[2]).__anext__(), (x for x in P)]
    next(r[-4])
    c = co(P[1])
    c.send(None)
    c2 = co(P[2])
    keep.append((c, c2))
    r += [c, c2, c.__await__()]
    return r


keep = []       # (no warnings about what is not waited for)


@zoo_of
def descriptors():
    class C:
        __slots__ = ('s', '__dict__')

        @property
        def p(self):
            "doc"

        @p.setter
        def p(self, x):
            pass
        cm = classmethod(template)
        sm = staticmethod(template)
        cp = functools.cached_property(template)
        pm = functools.partialmethod(template, P[0])
    v = vars(C)
    sd = functools.singledispatch(template)
    sd.register(int)(template)
    return [v['p'], v['cm'], v['sm'], v['cp'], v['pm'], v['s'], v['__dict__'], list.append, list.__len__, [].__len__, type.__dict__['__mro__'], dict.__dict__['fromkeys'], dict.fromkeys,
            super(L, L()), super(L), sd, template, object().__reduce_ex__]


@zoo_of
def containers():
    NT = collections.namedtuple('NT', 'a b')
    u = collections.UserDict(a=P[0])
    return [collections.deque([P[0], P[1]], maxlen=5), collections.OrderedDict(a=P[0], b=P[1]), collections.Counter([P[0]]), NT(P[0], P[1]), NT, collections.ChainMap({1: P[0]}, {2: P[1]}),
            u, types.SimpleNamespace(a=P[0]), types.MappingProxyType(u), weakref.WeakKeyDictionary({P[0]: P[1]}), weakref.WeakValueDictionary({1: P[0]}), weakref.WeakSet(P),
            {P[0]: 1}.keys(), {1: P[0]}.values(), {1: P[0]}.items(), slice(P[0], P[1], P[2]), array.array('i', [1]), memoryview(b'abc'), memoryview(bytearray(3)), bytearray(3), range(10 ** 30),
            fractions.Fraction(1, 3), decimal.Decimal(5), complex(1, 2), 10 ** 40, 'x' * 100, b'x' * 100, ..., NotImplemented, None, True,
            queue.SimpleQueue(), queue.Queue(), datetime.datetime(2000, 1, 1, tzinfo=datetime.timezone(datetime.timedelta(hours=1))), os.stat('/'), time.gmtime()]


@zoo_of
def iterators():
    l = [P[0], P[1]]
    its = [iter(l), iter(tuple(l)), iter({1: P[0]}), iter({1: P[0]}.items()), iter({1: P[0]}.values()), iter({P[0]}), reversed(l), reversed({1: P[0]}), iter('ab'), iter(b'ab'), iter(range(3)),
           map(template, l), zip(l, l), enumerate(l), filter(template, l), iter(template, P[1]), iter(collections.deque(l)), iter(memoryview(b'ab')), iter(array.array('i', [1])),
           itertools.chain(l, l), itertools.count(10 ** 30), itertools.cycle(l), itertools.repeat(P[0]), itertools.repeat(P[0], 3), itertools.accumulate(l, template, initial=P[2]),
           itertools.compress(l, l), itertools.dropwhile(template, l), itertools.takewhile(template, l), itertools.filterfalse(template, l), itertools.groupby(l, template), itertools.islice(l, 2),
           itertools.starmap(template, l), itertools.product(l, l), itertools.permutations(l), itertools.combinations(l, 2), itertools.combinations_with_replacement(l, 2), itertools.pairwise(l),
           itertools.zip_longest(l, l, fillvalue=P[3]), itertools.batched(l, 2), operator.itemgetter(P[0], P[1]), operator.attrgetter('a.b'), operator.methodcaller('x', P[0], k=P[1])]
    its += itertools.tee(l)
    more = iterators_of(l)
    for i in more:
        try:
            next(i)
        except TypeError:
            pass
    return its + more


def iterators_of(l):
    return [iter(l), itertools.cycle(l), itertools.groupby(l), itertools.product(l, l), itertools.permutations(l), itertools.combinations(l, 2), itertools.chain(l, l), itertools.pairwise(l),
            enumerate(l), zip(l, l), itertools.accumulate([1, 2]), itertools.tee(l)[0]]


@zoo_of
def references():
    return [weakref.ref(P[0]), weakref.ref(P[0], lambda r: P[1]), weakref.proxy(P[1]), weakref.ref(template), weakref.finalize(P[0], template, P[1])]


@zoo_of
def typing_():
    ns = {}
    exec('class G[Q]:\n pass\ntype A[Q] = list[Q]\ndef f[Q: int, *R, **S](x: Q): pass', ns)
    G, A, f = ns['G'], ns['A'], ns['f']

    class AB(abc.ABC):
        @abc.abstractmethod
        def q(self):
            pass

    class EN(enum.Enum):
        a = 1
        b = 2

    @dataclasses.dataclass
    class DC:
        a: int
        b: object = None

    class PR(typing.Protocol):
        def f(self): ...
    return [G, A, f, *f.__type_params__, G[int], A[int], list[T], int | str, typing.Union[int, str], typing.Optional[T], typing.TypeVar('V'), AB, EN, EN.a, DC, DC(P[0], P[1]), PR, typing.NamedTuple('X', [('a', int)]),
            typing.NewType('N', int), abc.ABCMeta, Meta, object, type, int, dict, types.ModuleType, heapyc.HeapView]


@zoo_of
def contexts():
    v = contextvars.ContextVar('c', default=P[0])
    c = contextvars.copy_context()
    return [v, c, c.run(v.set, P[1]), c, threading.local(), threading.Lock(), threading.RLock(), threading.Event(), threading.Thread(target=template, args=(P[0],))]


@zoo_of
def cached():
    f = functools.lru_cache(3)(lambda x: x)
    for i in range(5):
        f(P[i % 4])
    g = functools.cache(lambda x: x)
    g(P[0])
    return [f, g, functools.partial(template, P[0], k=P[1]), functools.cmp_to_key(template), functools.cmp_to_key(template)(P[0])]


@zoo_of
def library():
    m = re.match('(a)b', 'ab')
    n = ast.parse('x = 1')
    n.body[0].p = P[0]
    et = xml.etree.ElementTree.Element('a', b='c')
    et.append(xml.etree.ElementTree.Element('d'))
    et.text = P[0]
    pk = pickle.Pickler(io.BytesIO())
    pk.persistent_id = template
    pk.dump([1])
    rd = csv.reader(iter(['a']))
    t = io.TextIOWrapper(io.BufferedReader(io.BytesIO(b'abc')))

    class St(ctypes.Structure):
        _fields_ = [('a', ctypes.py_object), ('p', ctypes.POINTER(ctypes.c_int))]
    st = St(P[0])
    cb = ctypes.CFUNCTYPE(None)(template)
    loop = asyncio.new_event_loop()
    fut = loop.create_future()
    fut.add_done_callback(template)
    loop.close()
    return [re.compile('a(b)'), m, re.finditer('a', 'aa'), n, n.body[0], et, et.attrib, iter(et), pk, pk.memo, pickle.Unpickler(io.BytesIO(b'')), rd, rd.dialect, csv.writer(io.StringIO()), t, t.buffer, t.buffer.raw,
            io.StringIO('x'), struct.Struct('ii'), zlib.compressobj(), hashlib.md5(), random.Random(1), json.JSONEncoder(), json.JSONDecoder(), json.JSONDecoder().scan_once, st, St, cb, ctypes.pointer(ctypes.c_int(3)),
            ctypes.byref(ctypes.c_int(3)), (ctypes.c_int * 3)(), fut, loop, string.Template('$a'), types.ModuleType('m'), sys, guppy, socket.socketpair()[0], select.poll(), os.scandir('/dev'),
            symtable.symtable('x', 'f', 'exec'), tokenize.TokenInfo(1, 'a', (1, 1), (1, 1), 'a'), operator.itemgetter(1), unicodedata, string.Formatter(), inspect.signature(template),
            sqlite3.connect(':memory:') if sqlite3 else None]


@zoo_of
def heapys():
    h = guppy.hpy()
    m = h._parent
    hv = h.View.hv
    s = h.iso(P[0], P[1])
    a = mutnodeset(P)
    b = immnodeset(P)
    ng = heapyc.NodeGraph([(P[0], P[1]), (P[1], P[2])])
    return [h, m, s, s.by('Type'), s.kind, s.byid.parts, h.Type, h.Id(id(P[0])), ng, iter(ng), ng.as_flat_list, heapyc.Horizon([]), a, b, iter(a), iter(b),
            hv.cli_type(), hv.cli_rcs(ng, hv.cli_type(), {}),
            heapyc.xmemstats, bitset.immbitset([1, 2, 300]), bitset.mutbitset([1, 1000]), iter(bitset.immbitset([1])), h.heapu, 
            m.Path, m.View, m.Classifiers, m.Part]


def dict_of(o):
    try:
        return o.__dict__
    except Exception:
        return None


def known_more(o):
    """What is reported although the collector is not told."""
    r = []
    d = dict_of(o)
    if type(d) is dict:
        r.append(d)
    if isinstance(o, type):
        r += [o.__name__, getattr(o, '__qualname__', 0)]
        if o.__flags__ & (1 << 9):
            r += [x for x in gc.get_referents(o) + list(view.relimg([o])) if type(x) is tuple and all([type(a) is str for a in x])]
    return r


def zoo(ctx):
    for name, make in ZOO.items():
        objs = make()
        for i, o in enumerate(objs):
            if ctx.case('zoo', name, i):
                animal(ctx, o)
                if ctx.full:
                    return


def animal(ctx, o):
    gc.get_referents(o)
    im = list(view.relimg([o]))
    got = {id(x): x for x in im}
    kept = {id(x): x for x in gc.get_referents(o)}      # (after the values are moved to a dict)
    dicts = [x for x in im if type(x) is dict and x is dict_of(o)]
    through = {id(x) for d in dicts for x in list(d) + list(d.values())}
    lost = [x for i, x in kept.items() if i not in got and i not in through]
    ctx.check(not lost, lambda: '%s: referents of the collector not reported: %r' % (brief(o), [brief(x) for x in lost]))
    if not isinstance(o, (types.FunctionType, types.CodeType, types.FrameType, types.GeneratorType, type)):
        more = {id(x) for x in known_more(o)}
        extra = [x for i, x in got.items() if i not in kept and i not in more]
        ctx.check(not extra, lambda: '%s: reported but not a referent: %r' % (brief(o), [brief(x) for x in extra]))
    for x in im + P + [None, STRANGER, o]:
        rels = view.relate(o, x)
        ctx.check(not any(rels) or id(x) in got or id(x) in through or id(x) in {id(y) for d in [dict_of(o) or {}] for y in list(d) + list(d.values())} or
                  isinstance(o, (types.ModuleType, types.MappingProxyType, type)), lambda: '%s: related to %s by %r but not a referent' % (brief(o), brief(x), rels))
        for rel in paths.relations(o, x):
            if rel.code == -1 and not any(rels):
                ctx.add('unnamed')
                continue
            if isinstance(o, typing.TypeVar) and rel.code == ATTR and rel.r == '__dict__':      # (it has one and does not show it)
                continue
            try:
                evaluates(ctx, o, x, rel)
            except Exception as e:
                ctx.fail('%s: relation %r to %s: %r' % (brief(o), rel, brief(x), e))
    ctx.add('objects of other types')
