"""Dict owners and class-or-dict kinds are attributed correctly."""
import sys, gc, types, functools, collections, io, itertools, ast
import guppy
from guppy.sets import setsc

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all histories of owner and dictionary operations, queries and cache drops on the real implementation, against the ownership recomputed through the type\'s own __dict__ accessor'
RULE = ('all sequences of swapping, sharing, replacing and adopting attribute dictionaries, deleting and creating owners, asking (owners, kind, partition, selection, '
        'a classifier with a fresh owner graph) and garbage collecting, for two owner slots; each history ends with all questions asked before and after the caches '
        'are dropped; the same with every kind of object that has an attribute dictionary; and all dictionaries of the process before and after further modules '
        'with static types are imported, for several roots')
BOUNDS = dict(quick='histories of length 4 over 3 pairs of owner kinds, of length 3 over 33 kinds; 4 roots x 12 import steps',
              thorough='histories of length 5 over 3 pairs and 4 over 33 kinds; the same imports')
ASSUME = ['an answer from the cache may be as old as the last drop or the last question about a dictionary not asked about before (documented)',
          'objects are not in the permanent generation of the garbage collector (gc.freeze)',
          'a dictionary that is shared is attributed to any one of its owners']

_h = guppy.hpy()
_h.heap()
_h.iso({}).byclodo.kind
_h.iso({}).owners


class P(object):
    pass


class SI(int):
    pass


class ST(tuple):
    pass


class SS(str):
    pass


class SL(list):
    pass


class SD(dict):
    pass


class SB(bytes):
    pass


class SDq(collections.deque):
    pass


class SOD(collections.OrderedDict):
    pass


class SSet(set):
    pass


class SF(float):
    pass


class Sl(object):
    __slots__ = ('a', '__dict__', 'b')


class Sl2(object):
    __slots__ = ('__dict__',)


class Sl3(Sl):
    __slots__ = ('c', 'e')


class SlI(Sl, int if False else object):
    pass


class NoWr(SL):
    __slots__ = ()


class E(Exception):
    pass


class M(type):
    pass


class SProp(property):
    pass


class SMod(types.ModuleType):
    pass


class STI(io.StringIO):
    pass


def mkfun():
    def f():
        pass
    f.x = 1
    return f


def at(o):
    o.x = 1
    return o


def noop(*a):
    pass


KINDS = collections.OrderedDict([
    ('instance', lambda: at(P())),
    ('instance without attributes', lambda: P()),
    ('function', mkfun),
    ('slots and dict', lambda: at(Sl())),
    ('dict slot only', lambda: at(Sl2())),
    ('inherited dict slot', lambda: at(Sl3())),
    ('slots class without slots below', lambda: at(SlI())),
    ('int', lambda: at(SI(5 << 70))),
    ('zero int', lambda: at(SI())),
    ('tuple', lambda: at(ST((1, 2, 3)))),
    ('empty tuple', lambda: at(ST(()))),
    ('str', lambda: at(SS('abc'))),
    ('bytes', lambda: at(SB(b'abc'))),
    ('float', lambda: at(SF(2.5))),
    ('list', lambda: at(SL([1]))),
    ('dict', lambda: at(SD({1: []}))),
    ('deque', lambda: at(SDq([1]))),
    ('OrderedDict', lambda: at(SOD([(1, 2)]))),
    ('set', lambda: at(SSet([1]))),
    ('exception', lambda: at(E('e'))),
    ('OSError', lambda: at(OSError(1, 'x'))),
    ('class', lambda: type('C', (object,), {'x': 1})),
    ('class with slots', lambda: type('C', (object,), {'__slots__': ('a',)})),
    ('class of metaclass', lambda: M('C', (P,), {'x': 1})),
    ('module', lambda: types.ModuleType('m')),
    ('submodule type', lambda: SMod('m')),
    ('partial', lambda: at(functools.partial(noop))),
    ('lru_cache', lambda: at(functools.lru_cache(noop))),
    ('SimpleNamespace', lambda: types.SimpleNamespace(x=1)),
    ('property', lambda: at(SProp())),
    ('staticmethod', lambda: at(staticmethod(noop))),
    ('StringIO', lambda: at(STI('x'))),
    ('ast node', lambda: ast.Name(id='x')),
])
PAIRS = [('instance', 'instance'), ('instance', 'function'), ('slots and dict', 'SimpleNamespace')]

tget = type.__dict__['__dict__'].__get__


def rawdict(o):
    """The attribute dictionary of o, by the accessor its type defines."""
    if isinstance(o, type):
        return gc.get_referents(tget(o))[0]
    t = type(o)
    if t.__dictoffset__ == 0:
        return None
    for c in t.__mro__:
        g = c.__dict__.get('__dict__')
        if g is not None and type(g) in (types.GetSetDescriptorType, types.MemberDescriptorType):
            try:
                d = g.__get__(o)
            except AttributeError:
                return None
            if type(d) is types.MappingProxyType:
                return None
            return d
    # eg the classes that hide it; the dictionary is then the referent that the collector sees
    return None


OPS = ['swap', 'share', 'new', 'adopt', 'del', 'make', 'delB', 'makeB', 'owners', 'parts', 'gc']
QUERIES = ('owners', 'kind', 'parts', 'select', 'cli')


KOF = {}      # type -> kind of the dicts of its instances (of the one session)


class World:
    def __init__(self, hp, ctx, ka, kb, key):
        self.hp = hp
        self.ctx = ctx
        self.ka, self.kb = KINDS[ka], KINDS[kb]
        self.key = key
        gc.collect()
        self.rec = {}          # id -> type of the owners made
        self.dicts = []        # all dictionaries met, kept alive
        self.ids = set()
        self.asked = set()     # ids of dictionaries asked about
        self.gone = False
        self.window = []       # ownership maps since the caches were last renewed
        self.A = self.track(self.ka())
        self.B = self.track(self.kb())
        self.D = {'plain': []}
        self.hold(self.D)
        self.inner = {'inner': self.D}
        self.hold(self.inner)
        self.moved()

    def track(self, o):
        self.rec[id(o)] = type(o)
        d = rawdict(o)
        if d is not None:
            self.hold(d)
        return o

    def hold(self, d):
        if id(d) not in self.ids:
            self.ids.add(id(d))
            self.dicts.append(d)

    def moved(self):
        """Add the present ownership to what an answer may be based on."""
        m = {}
        rec = self.rec
        for o in gc.get_referrers(*self.dicts):
            if id(o) in rec and rec[id(o)] is type(o):
                d = rawdict(o)
                if d is not None:
                    m.setdefault(id(d), set()).add((id(o), type(o)))
        self.window.append(m)

    def look(self):
        """The same, where the ownership may have changed: asking may let go of what only the cache held."""
        if self.gone:
            self.moved()

    def fresh(self, ds):
        """Which ownership maps may the answer on ds be based on?"""
        self.look()
        new = any(id(d) not in self.asked for d in ds)
        allowed = list(self.window)
        if new:
            if len(ds) == 1:
                allowed = allowed[-1:]
            self.window = self.window[-1:]
        self.asked.update(id(d) for d in ds)
        return allowed

    def poss(self, d, maps):
        """The possible owners; asking may have let go of owners that only the cache held."""
        self.look()
        r = set(self.window[-1].get(id(d), {None}))
        for m in maps:
            r |= m.get(id(d), {None})
        return r

    def do(self, op):
        A, B = self.A, self.B
        if op == 'gc':
            del A, B
            gc.collect()
            self.window = []
            self.moved()
            # a dictionary asked about before is known to no cache now
            self.asked = set()
            return True
        if op in QUERIES:
            del A, B
            getattr(self, 'q_' + op)()
            return True
        if op == 'del':
            if A is None:
                return False
            self.A = None
            self.gone = True
        elif op == 'delB':
            if B is None:
                return False
            self.B = None
            self.gone = True
        elif op == 'make':
            if A is not None:
                return False
            self.A = self.track(self.ka())
        elif op == 'makeB':
            if B is not None:
                return False
            self.B = self.track(self.kb())
        else:
            try:
                if op == 'swap':
                    if A is None or B is None:
                        return False
                    x, y = A.__dict__, B.__dict__
                    A.__dict__ = y
                    try:
                        B.__dict__ = x
                    except BaseException:
                        A.__dict__ = x
                        raise
                elif op == 'share':
                    if A is None or B is None:
                        return False
                    B.__dict__ = A.__dict__
                elif op == 'new':
                    if A is None:
                        return False
                    d = {}
                    A.__dict__ = d
                    self.hold(d)
                elif op == 'adopt':
                    if A is None:
                        return False
                    A.__dict__ = self.D
            except (AttributeError, TypeError):
                return False
        del A, B
        self.moved()
        return True

    def q_owners(self):
        for d in self.dicts:
            maps = self.fresh([d])
            got = [(id(o), type(o)) for o in self.hp.iso(d).owners.nodes]
            p = self.poss(d, maps)
            if not got:
                got = [None]
            self.ctx.check(len(got) == 1 and got[0] in p, lambda: 'owners of dict %d: got %r, may be %r' % (self.no(d), got, p), key=self.key)

    def no(self, d):
        return [id(x) for x in self.dicts].index(id(d))

    def kindof(self, t):
        k = KOF.get(t)
        if k is None:
            k = KOF[t] = self.hp.Clodo(dictof=() if t is None else t)
        return k

    def kinds(self, p):
        return [self.kindof(x and x[1]) for x in p]

    def q_kind(self):
        for d in self.dicts:
            maps = self.fresh([d])
            k = self.hp.iso(d).byclodo.kind
            p = self.poss(d, maps)
            self.ctx.check(any(k == x for x in self.kinds(p)), lambda: 'kind of dict %d: got %r, may be %r' % (self.no(d), k.brief, p), key=self.key)

    def q_parts(self):
        maps = self.fresh(self.dicts)
        s = self.hp.iso(7, *self.dicts)
        rows = s.byclodo.parts
        seen = []
        for r in rows:
            k = r.kind
            for o in r.nodes:
                seen.append(id(o))
                if type(o) is int:
                    self.ctx.check(k == self.hp.Clodo(int), lambda: 'kind of 7: %r' % k.brief, key=self.key)
                    continue
                p = self.poss(o, maps)
                self.ctx.check(any(x <= k for x in self.kinds(p)), lambda: 'row of dict %d: got %r, may be %r' % (self.no(o), k.brief, p), key=self.key)
        self.ctx.eq(sorted(seen), sorted([id(7)] + [id(d) for d in self.dicts]), 'rows cover the set once', key=self.key)

    def q_select(self):
        for d in self.dicts:
            maps = self.fresh([d])
            s = self.hp.iso(d)
            kinds = {t: self.kindof(t) for t in set(self.rec.values())}
            kinds[None] = self.kindof(None)
            got = [t for t in kinds if (s & kinds[t]).count]
            p = self.poss(d, maps)
            self.ctx.check(len(got) == 1 and got[0] in [x and x[1] for x in p],
                           lambda: 'dict %d is selected by dictof= %r, may be %r' % (self.no(d), got, p), key=self.key)

    def q_cli(self):
        # a graph of its own: nothing can be stale
        self.look()
        maps = [self.window[-1]]
        hv = self.hp.View.hv
        g = self.hp.View.nodegraph()
        nd, no = [1], [2]
        cli = hv.cli_dictof(g, hv.cli_type(), nd, no)
        self.ctx.check(cli.classify(5) is nd, lambda: 'not a dict', key=self.key)
        for d in self.dicts:
            k = cli.classify(d)
            p = self.poss(d, maps)
            self.ctx.check(k in [no if x is None else x[1] for x in p], lambda: 'class of dict %d in a fresh graph: got %r, may be %r' % (self.no(d), k, p), key=self.key)
        g2 = self.hp.View.nodegraph()
        hv.update_dictowners(g2)
        for d in self.dicts:
            p = self.poss(d, maps)
            got = set(None if x is None else (id(x), type(x)) for x in g2[d])
            self.ctx.check(got == p, lambda: 'owner edges of dict %d in a fresh graph: got %r, want %r' % (self.no(d), got, p), key=self.key)

    def final(self):
        for q in QUERIES:
            self.do(q)
        self.A, self.B    # still held
        self.do('gc')
        for q in QUERIES:
            self.do(q)


def shards(tier):
    n = 5 if tier == 'thorough' else 4
    r = [['hist', a, b, n, op] for a, b in PAIRS for op in OPS]
    r += [['hist', k, 'instance', n - 1, None] for k in KINDS]
    r += [['hist', 'instance', k, n - 1, None] for k in KINDS if k != 'instance']
    r += [['real', i] for i in range(len(ROOTS))]
    return r


def run(shard, ctx):
    if shard[0] == 'hist':
        run_hist(shard[1], shard[2], shard[3], shard[4], ctx)
    else:
        run_real(shard[1], ctx)


def settable(o):
    try:
        o.__dict__ = {}
    except (AttributeError, TypeError):
        return False
    return True


def applicable(seq, cana, canb, plain):
    a = b = True
    for op in seq:
        if op in ('swap', 'share'):
            if not (a and b and canb and (plain if op == 'share' else cana)):
                return False
        elif op in ('new', 'adopt'):
            if not (a and cana):
                return False
        elif op == 'del':
            if not a:
                return False
            a = False
        elif op == 'delB':
            if not b:
                return False
            b = False
        elif op == 'make':
            if a:
                return False
            a = True
        elif op == 'makeB':
            if b:
                return False
            b = True
    return True


def run_hist(a, b, n, first, ctx):
    gc.disable()
    gc.collect()
    gc.freeze()
    hp = guppy.hpy()
    hp.iso({}).byclodo.kind
    hp.iso({}).owners
    w = World(hp, ctx, a, b, None)
    w.final()
    names = [OPS] * n
    if first is not None:
        names[0] = [first]
    can = settable(KINDS[a]()), settable(KINDS[b]()), type(KINDS[a]().__dict__) is dict
    for seq in itertools.product(*names):
        if not applicable(seq, *can):
            continue        # the shorter history is a case of its own
        # leave out the questions at the end and repeated ones (the end asks all)
        if seq[-1] in QUERIES or seq[-1] == 'gc':
            continue
        if any(x == y == 'gc' for x, y in zip(seq, seq[1:])):
            continue
        if not ctx.case(a, b, *seq):
            continue
        w = World(hp, ctx, a, b, None)
        for op in seq:
            if not w.do(op):
                raise AssertionError('operation does not apply')
        else:
            ctx.add('histories')
            ctx.add('operations', n)
            ctx.state((a, b, tuple(seq)))
            w.final()
        w = None
        if ctx.full:
            return


# ---------------------------------------------------------------- the whole process

IMPORTS = [None, 'datetime', 'decimal', '_ctypes', 'pickle', 'xml.etree.ElementTree', 'sqlite3', 'zoneinfo', 'asyncio', 'array', 'mmap', 'curses', 'lzma', 'ssl']
ROOTS = ['default', 'heap first', 'private', 'private and heap first']


def statics():
    seen = {}
    todo = [object]
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen[id(t)] = t
        todo += type.__subclasses__(t)
        todo.append(type(t))
    return list(seen.values())


def strong(objs):
    """All types but those only known from the list of the subclasses of another."""
    ids = set(id(type(o)) for o in objs)
    ids.update(map(id, gc.get_referents(*objs)))
    ids.update(map(id, objs))
    r = {}
    for t in statics():
        if id(t) in ids:
            for b in type.__dict__['__mro__'].__get__(t):
                r[id(b)] = b
    return list(r.values())


def run_real(i, ctx):
    mode = ROOTS[i]
    hook = guppy.hpy().View.gchook_type
    gc.disable()
    hp = guppy.hpy()
    if mode.startswith('private'):
        hp.View.root = [[], {}]
    if mode.endswith('heap first'):
        hp.heap()
    for step, m in enumerate(IMPORTS):
        if m:
            try:
                __import__(m)
            except ImportError:
                continue
        for again in range(3):
            if again == 1:
                gc.collect()
            if again == 2:
                hp.heap()
                gc.collect()
            if not ctx.case(mode, m, again):
                continue
            # (not the dictionaries of the session itself, which are hidden and change)
            objs = [o for o in gc.get_objects() if type(o) is not hook]
            owner = {}
            types_ = strong(objs)
            skip = set(id(rawdict(t)) for t in statics()) - set(id(rawdict(t)) for t in types_)
            pool = objs + [t for t in types_ if not gc.is_tracked(t)]
            for o in pool:
                try:
                    d = rawdict(o)
                except ReferenceError:
                    continue
                if d is not None and type(d) is dict:
                    owner.setdefault(id(d), (d, []))[1].append(o)
            dicts = {id(o): o for o in objs if type(o) is dict}
            for k in owner:
                dicts[k] = owner[k][0]
            mine = set(map(id, (dicts, owner))) | skip
            ds = [d for k, d in dicts.items() if k not in mine and not hidden(hp, d, owner)]
            s = hp.idset(ds) if hasattr(hp, 'idset') else hp.iso(*ds)
            n = 0
            kinds = {0: (hp.Clodo(dictof=()), None)}
            for r in s.byclodo.parts:
                k = r.kind
                for d in r.nodes:
                    n += 1
                    own = owner.get(id(d), (d, ()))[1]
                    want = {id(type(o)) for o in own} or {0}
                    for t in own:
                        if id(type(t)) not in kinds:
                            kinds[id(type(t))] = hp.Clodo(dictof=type(t)), type(t)
                    ok = any(k == kinds[x][0] for x in want)
                    ctx.check(ok, lambda: '%s, %s: dict of %r is %r' % (mode, m, [short(o) for o in own], k.brief))
            ctx.add('dictionaries', n)
            for t in types_:
                d = rawdict(t)
                o = hp.iso(d).owners
                ctx.check([id(x) for x in o.nodes] == [id(t)], lambda: '%s, %s: owner of the dict of %r is %r' % (mode, m, t, list(o.nodes)))
            ctx.add('types', len(types_))
            del objs, pool, owner, dicts, mine, ds, s, d, r, k, o, t, kinds, types_, own, want
            gc.collect()
            hp.iso({}).byclodo.kind     # (fills the caches)
            if ctx.full:
                return


def short(o):
    try:
        return (type(o).__name__, getattr(o, '__name__', None) or getattr(o, '__qualname__', None))
    except Exception:
        return type(o).__name__


def hidden(hp, d, owner):
    tag = hp.View._hiding_tag_
    if d.get('_hiding_tag_') is tag:
        return True
    for o in owner.get(id(d), (0, ()))[1]:
        if type(o).__module__.startswith('guppy') or getattr(o, '_hiding_tag_', None) is not None:
            return True
    return False
