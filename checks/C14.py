"""Every classification is a partition by its key."""
import itertools, gc, types, sys
from gr import World, iso_classes, names
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of object sets x classifiers (with combinations) and of object graphs, against independently computed keys'
RULE = ('all classifiers, their dictof, refdby, pairwise and some threefold combinations, findex and biper of kinds, over every subset of a universe '
        'with instances, subclass instances, modules, classes, functions and their dictionaries, unowned dictionaries, an unmanaged object and equal '
        'but distinct values; referrer-based classifiers over every small digraph realised with containers of several types; the producer '
        'classifier over objects allocated at known lines, with every filename and line selector')
BOUNDS = dict(quick='universe of 12 objects, subsets up to 4 plus complements; 3-node digraphs (loops) x 5 container assignments; 8 producers',
              thorough='universe of 15 objects, all subsets up to 6; 4-node digraphs up to isomorphism')
ASSUME = ['the identity-set classifier (documented for internal use) is not combined with others', 'every dictionary in the universe has at most one owner (sharing is C29)', 'the heap is that under a private root']

Use = hp
P = hp._parent.Path


def shards(tier):
    out = [dict(part='base', k=k, of=24) for k in range(24)]
    out += [dict(part='graph', k=k, of=24) for k in range(24)]
    out += [dict(part='prod', k=k, of=2) for k in range(2)]
    out += [dict(part='low', k=k, of=2) for k in range(2)]
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


class A(object):
    pass


class B(A):
    pass


class Meta(type):
    pass


class C(object, metaclass=Meta):
    __slots__ = 'x', '__dict__'


class SubDict(dict):
    __slots__ = ()


class Hostile(type):
    # equal to everything
    def __eq__(self, other):
        return True
    # (with globals of its own, so that it does not make the heap of the test
    # everything this module refers to)
    __eq__ = types.FunctionType(__eq__.__code__, {'__builtins__': {}})
    __hash__ = type.__hash__


class H1(metaclass=Hostile):
    pass


class H2(metaclass=Hostile):
    pass


def func():
    pass


class Universe:
    def __init__(self, full):
        a, a2, b, c = A(), A(), B(), C()
        a.x = [1000001]
        a2.x = 5
        b.y = {}
        c.z = c
        m = types.ModuleType('amodule')
        m.u = a
        m2 = types.ModuleType('amodule')
        func.attr = 1
        nodict = {}
        o = [a, a.__dict__, b, b.__dict__, m, m.__dict__, {}, C, c.__dict__, func.__dict__, H1(), H2()]
        if full:
            o += [SubDict(), [], m2]
        o[6][1] = a.x
        self.objs = o
        self.keep = [a2, a2.__dict__, m2, c]
        root = [o, self.keep]
        self.root = root
        own = {}
        for x in (a, a2, b, m, c, func, m2):
            own[id(x.__dict__)] = x
        for x in (A, B, C, Meta):
            for d in gc.get_referents(x):
                if type(d) is dict and '__doc__' in d:
                    own[id(d)] = x
        self.own = own
        self.idx = {id(x): i for i, x in enumerate(o)}
        # the heap and its inverse, as the interpreter traverses it
        self.inv = inv = {}
        heap = {id(root): root}
        work = [root]
        tag = TAG
        while work:
            s = work.pop()
            for t in gc.get_referents(s):
                inv.setdefault(id(t), {})[id(s)] = s
                if id(t) not in heap:
                    heap[id(t)] = t
                    work.append(t)
        self.heap = heap

    def mask(self, nodes):
        m = 0
        for x in nodes:
            m |= 1 << self.idx[id(x)]
        return m


# -- classifiers and the keys they document

def er_base(U):
    typ = lambda o: id(type(o))
    own = U.own

    def clodo(o):
        if type(o) is dict:
            w = own.get(id(o))
            return ('dictof', id(type(w))) if w is not None else ('dict',)
        return id(type(o))
    base = [
        ('Unity', hp.Unity, lambda o: 0),
        ('Type', hp.Type, typ),
        ('Clodo', hp.Clodo, clodo),
        ('Size', hp.Size, sys.getsizeof),
        ('Id', hp.Id, id),
        ('Idset', hp.Idset, id),
        ('Module', hp.Module, lambda o: id(o) if type(o) is types.ModuleType else None),
    ]

    def dictof(key):
        def f(o):
            if type(o) is not dict:
                return 'not a dict'
            w = own.get(id(o))
            return ('of', key(w)) if w is not None else 'no owner'
        return f
    out = list(base)
    for n, er, key in base:
        if n not in ('Idset',):
            out.append((n + '.dictof', er.dictof, dictof(key)))
    out.append(('Type.dictof.dictof', hp.Type.dictof.dictof, dictof(dictof(typ))))
    for (n1, e1, k1), (n2, e2, k2) in itertools.combinations(out[:5] + out[6:7] + [out[8]], 2):
        out.append(('%s & %s' % (n1, n2), e1 & e2, (lambda k1, k2: lambda o: (k1(o), k2(o)))(k1, k2)))
    out.append(('Size & Type & Clodo', hp.Size & hp.Type & hp.Clodo, lambda o: (sys.getsizeof(o), typ(o), clodo(o))))
    kinds = [(hp.Type(dict), lambda o: type(o) is dict),
             (hp.Type(A).dictof, lambda o: type(o) is dict and type(own.get(id(o))) is A and True),
             (hp.Size(sys.getsizeof(U.objs[0])), lambda o: sys.getsizeof(o) == sys.getsizeof(U.objs[0])),
             (hp.Size(100).alt('<'), lambda o: sys.getsizeof(o) < 100),
             (hp.Type(A).alt('<='), lambda o: issubclass(type(o), A)),
             (hp.Type(type).alt('<'), lambda o: type(o) is not type and issubclass(type(o), type)),
             (hp.Module(at=hex(id(U.objs[4]))) if 0 else hp.Module.classifier.get_kind(U.objs[4]), lambda o: o is U.objs[4]),
             (hp.iso(*U.objs[2:5]), lambda o: any(o is x for x in U.objs[2:5])),
             ]

    def findex(preds):
        def f(o):
            for i, p in enumerate(preds):
                if p(o):
                    return i
            return len(preds)
        return f
    for i, (k, p) in enumerate(kinds):
        out.append(('biper(%d)' % i, k.biper, findex([p])))
    for i, j in itertools.permutations(range(len(kinds)), 2):
        if (i + 2 * j) % 5 == 0:
            out.append(('findex(%d,%d)' % (i, j), hp.findex(kinds[i][0], kinds[j][0]), findex([kinds[i][1], kinds[j][1]])))
    out.append(('findex(all)', hp.findex(*[k for k, p in kinds]), findex([p for k, p in kinds])))
    out.append(('findex() & Type', hp.findex(kinds[0][0], kinds[2][0]) & hp.Type, lambda o: (findex([kinds[0][1], kinds[2][1]])(o), typ(o))))

    def refd(key):
        return lambda o: frozenset(key(s) for s in U.inv.get(id(o), {}).values())
    refs = [('Rcs', hp.Rcs, refd(clodo)), ('Type.refdby', hp.Type.refdby, refd(typ)), ('Size.refdby', hp.Size.refdby, refd(sys.getsizeof)),
            ('Id.refdby', hp.Id.refdby, refd(id)), ('Unity.refdby', hp.Unity.refdby, refd(lambda o: 0)),
            ('Module.refdby', hp.Module.refdby, refd(base[6][2])),
            ('Type.dictof.refdby', hp.Type.dictof.refdby, refd(dictof(typ))),
            ('Rcs & Type', hp.Rcs & hp.Type, lambda o: (refd(clodo)(o), typ(o))),
            ('Type.refdby.refdby', hp.Type.refdby.refdby, refd(refd(typ)))]
    out += refs
    return out


class Judge:
    """One classifier with its key function over a fixed list of objects."""

    def __init__(self, ctx, name, er, key, objs):
        self.ctx = ctx
        self.name = name
        self.er = er
        self.objs = objs
        self.keys = [key(o) for o in objs]
        self.ix = {id(o): i for i, o in enumerate(objs)}
        self.kinds = {}
        self.all = imm(objs)

    def mask(self, nodes):
        m = 0
        for o in nodes:
            m |= 1 << self.ix.get(id(o), len(self.objs))
        return m

    def groups(self, X):
        g = {}
        for i in bits(X):
            g[self.keys[i]] = g.get(self.keys[i], 0) | 1 << i
        return g

    def names(self, X):
        return [type(self.objs[i]).__name__ + '#%d' % i for i in bits(X) if i < len(self.objs)]

    def low(self, X):
        """The class partition only."""
        ns = imm([self.objs[i] for i in bits(X)])
        got = []
        for k, s in self.er.classifier.partition(ns):
            got.append(self.mask(s.nodes))
        if sorted(got) != sorted(self.groups(X).values()):
            self.ctx.fail('%s splits %s into %s' % (self.name, self.names(X), [self.names(g) for g in got]))

    def check(self, X):
        ctx = self.ctx
        want = self.groups(X)
        x = V.idset(imm([self.objs[i] for i in bits(X)]))
        y = x.by(self.er)
        parts = y.parts
        got = [self.mask(p.nodes) for p in parts]
        if sorted(got) != sorted(want.values()):
            ctx.fail('%s splits %s into %s' % (self.name, self.names(X), [self.names(g) for g in got]))
            return
        if len(y) != len(want):
            ctx.fail('%s: %d parts of %s, want %d' % (self.name, len(y), self.names(X), len(want)))
        for p, m in zip(parts, got):
            i = next(bits(m))
            self.kind(self.keys[i], p.kind, p, x, m)

    def kind(self, key, kind, part, x, m):
        """kind is the class of key; part = the members of x in it (mask m)."""
        ctx = self.ctx
        sel = self.mask((x & kind).nodes)
        if sel != m:
            ctx.fail('%s: selecting %s from %d objects gives %s, its class is %s' % (self.name, kind, x.count, self.names(sel), self.names(m)))
        old = self.kinds.get(key)
        if old is not None:
            if not (old == kind):
                ctx.fail('%s: the kinds of %s are unequal: %s and %s' % (self.name, self.names(m), old, kind))
            elif hash(old) != hash(kind):
                ctx.fail('%s: the kinds of %s are equal but their hashes are not: %s' % (self.name, self.names(m), kind))
            return
        members = sum(1 << i for i, k in enumerate(self.keys) if k == key)
        for k2, other in self.kinds.items():
            if other == kind:
                ctx.fail('%s: one kind %s for two keys' % (self.name, kind))
        self.kinds[key] = kind
        got = self.mask((V.idset(self.all) & kind).nodes)
        if got != members:
            ctx.fail('%s: objects of kind %s are %s, want %s' % (self.name, kind, self.names(got), self.names(members)))
        got = self.mask((kind & V.idset(self.all)).nodes)
        if got != members:
            ctx.fail('%s: kind %s & all gives %s, want %s' % (self.name, kind, self.names(got), self.names(members)))
        inv = self.mask((V.idset(self.all) - kind).nodes)
        if inv != (1 << len(self.objs)) - 1 & ~members:
            ctx.fail('%s: all - kind %s gives %s' % (self.name, kind, self.names(inv)))
        for i, o in enumerate(self.objs):
            if (o in kind) != bool(members >> i & 1):
                ctx.fail('%s: %s %s %s' % (self.name, self.names(1 << i), 'in' if o in kind else 'not in', kind))
            if members >> i & 1:
                k = self.er[V.iso(o)]
                if k != kind:
                    ctx.fail('%s: er[%s] is %s, want %s' % (self.name, self.names(1 << i), k, kind))
        ctx.check(repr(kind) and kind.brief, 'representation')

    def union(self, X):
        """The kind of a mixed set contains exactly the objects of the kinds in it."""
        k = V.idset(imm([self.objs[i] for i in bits(X)])).by(self.er).kind
        ks = {self.keys[i] for i in bits(X)}
        want = sum(1 << i for i, q in enumerate(self.keys) if q in ks)
        got = self.mask((V.idset(self.all) & k).nodes)
        if got != want:
            self.ctx.fail('%s: kind of %s selects %s, want %s' % (self.name, self.names(X), self.names(got), self.names(want)))
        got = sum(1 << i for i, o in enumerate(self.objs) if o in k)
        if got != want:
            self.ctx.fail('%s: kind of %s contains %s, want %s' % (self.name, self.names(X), self.names(got), self.names(want)))


def run_base(shard, ctx):
    thorough = ctx.tier == 'thorough'
    U = Universe(thorough)
    V.root = U.root
    V.clear_retainers()
    ers = er_base(U)
    n = len(U.objs)
    lim = 6 if thorough else 4
    subsets = [X for X in range(1, 1 << n) if bin(X).count('1') <= lim or bin(X).count('1') >= n - 1]
    for name, er, key in ers[shard['k']::shard['of']]:
        if not ctx.case('base', name):
            continue
        j = Judge(ctx, name, er, key, U.objs)
        heavy = 'refdby' in name or 'Rcs' in name
        for X in subsets:
            c = bin(X).count('1')
            if c <= 2 or c >= n - 1 or not heavy and c == 3 and X % 3 == 0:
                j.check(X)
                ctx.add('transitions', 1)
            if c <= 2 or c >= n - 1:
                j.union(X)
            j.low(X)
            ctx.add('states', 1)
            if ctx.full:
                return
        ctx.state(name)


# -- referrers over graphs

ASSIGN = [('list', 'list', 'list', 'list'), ('list', 'dict', 'inst', 'slot'), ('slot', 'nset', 'sublist', 'celllist'), ('inst', 'inst', 'dict', 'list'),
          ('dict', 'slot', 'nset', 'inst')]


def rels(w, i, j):
    """Relations of the edge i -> j."""
    o, t = w.objs[i], w.objs[j]
    if type(o) in (list,) or isinstance(o, list) and t is not type(o):
        return {(2, k) for k, x in enumerate(o) if x is t}
    if type(o) is dict:
        return {(2, k) for k, x in o.items() if x is t}
    if t is type(o):
        return {(4, 'ob_type')}
    if type(o) is types.CellType:
        return {(1, 'cell_contents')}
    if hasattr(o, '__slots__'):
        return {(1, s) for s in o.__slots__ if getattr(o, s, None) is t}
    if hasattr(o, '__dict__'):
        r = {(1, k) for k, v in o.__dict__.items() if v is t}
        return r | ({(1, '__dict__')} if t is o.__dict__ else set())
    return {(9, k) for k, x in enumerate(imm(o)) if x is t}


def run_graph(shard, ctx):
    n = 4 if ctx.tier == 'thorough' else 3
    gs = iso_classes(n, n == 3, True)
    for E in gs[shard['k']::shard['of']]:
        for K in ASSIGN:
            if not ctx.case('graph', E, K[:n]):
                continue
            w = World(n, E, K[:n])
            V.root = w.objs[0]
            V.clear_retainers()
            heap = w.reach(1)
            own = {id(o.__dict__): o for o in w.objs if hasattr(o, '__dict__') and not isinstance(o, type)}
            # without the root (its referrers are not asked for) and the classes
            objs = [o for i, o in enumerate(w.objs) if i and not w.cls >> i & 1]
            inv = {}
            for i in bits(heap):
                for j in bits(w.adj[i]):
                    inv.setdefault(id(w.objs[j]), []).append(i)

            def clodo(o):
                if type(o) is dict:
                    x = own.get(id(o))
                    return ('dictof', id(type(x))) if x is not None else ('dict',)
                return id(type(o))

            def refd(key):
                return lambda o: frozenset(key(w.objs[i]) for i in inv.get(id(o), ()))

            def via(o):
                return frozenset(r for i in inv.get(id(o), ()) for r in rels(w, i, w.index[id(o)]))
            ers = [('Rcs', hp.Rcs, refd(clodo)), ('Via', hp.Via, via), ('Id.refdby', hp.Id.refdby, refd(id)),
                   ('Type.refdby', hp.Type.refdby, refd(lambda o: id(type(o)))),
                   ('Via & Rcs', hp.Via & hp.Rcs, lambda o: (via(o), refd(clodo)(o))),
                   ('Via & Type', hp.Via & hp.Type, lambda o: (via(o), id(type(o))))]
            for name, er, key in ers:
                j = Judge(ctx, '%s %s: %s' % (E, K[:n], name), er, key, objs)
                full = (1 << len(objs)) - 1
                for X in range(1, full + 1):
                    # caches from single objects, then bigger sets, and the other way round
                    j.low(X if len(E) % 2 else full + 1 - X)
                j.check(full)
                j.union(full)
                if len(objs) > 1:
                    j.check(1)
                    j.union(2)
                ctx.add('transitions', full + 3)
                if name == 'Via':
                    for i, o in enumerate(objs):
                        k = V.iso(o).by(er).kind
                        got = {(r.kind, r.relator) for r in k.arg}
                        if got != j.keys[i]:
                            ctx.fail('%s %s: %s is referred via %s, want %s' % (E, K[:n], j.names(1 << i), got, set(j.keys[i])))
                elif name == 'Id.refdby':
                    for i, o in enumerate(objs):
                        k = V.iso(o).by(er).kind
                        got = {id(q.arg) for q in k.arg.kinds} if k is not hp.sonokind.refdby else set()
                        if got != j.keys[i]:
                            ctx.fail('%s %s: %s has referrers %s, want %d' % (E, K[:n], j.names(1 << i), len(got), len(j.keys[i])))
            ctx.state((tuple(E), K[:n]))
            w.dissolve()
            if ctx.full:
                return


# -- producers

def run_prod(shard, ctx):
    import tracemalloc
    files = ['/lib/a.py', '/lib/ab.py', '/lib/a.py', '/x/a.py']
    objs = []
    where = []
    keep = []
    for f, l in itertools.product(dict.fromkeys(files), (1, 2, 7)):
        ns = {'A': A}
        code = compile('\n' * (l - 1) + 'def f(): return A()', f, 'exec')
        exec(code, ns)
        keep.append(ns)
        where.append((f, l))
    tracemalloc.start(1)
    try:
        for ns in keep:
            objs.append(ns['f']())
    finally:
        pass
    objs.append(keep)           # allocated before tracing
    where.append(None)
    n = len(objs)
    cls = hp.Prod
    j = Judge(ctx, 'Prod', cls, {id(o): w for o, w in zip(objs, where)}.__getitem__ if 0 else (lambda o: where[[x is o for x in objs].index(True)]), objs)
    for X in range(1 + shard['k'], 1 << n, shard['of'] * (1 if ctx.tier == 'thorough' else 5)):
        if not ctx.case('prod', X):
            continue
        j.low(X)
        if bin(X).count('1') <= 2 or X % 16 == 1:
            j.check(X)
        ctx.add('transitions', 1)
        if ctx.full:
            break
    ctx.state(shard['k'])
    # selectors
    allset = V.idset(imm(objs))
    names_ = list(dict.fromkeys(files)) + ['/lib/', '/lib/a', '', '/nosuch', None]
    OPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
           '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
    for l in range(0, 9):
        for op in ('<', '<=', '>', '>='):
            if not ctx.case('line', l, op):
                continue
            got = j.mask((allset & hp.Prod(None, l).alt(op)).nodes)
            # a place without line is never equal to another; with only a line given, the relations compare lines
            want = sum(1 << i for i, wh in enumerate(where) if wh and (wh[1] <= l if op in ('<', '<=') else wh[1] >= l))
            strict = sum(1 << i for i, wh in enumerate(where) if wh and OPS[op](wh[1], l))
            if got not in (want, strict) or op in ('<=', '>=') and got != want:
                ctx.fail('line %s %d selects %s' % (op, l, [where[i] for i in bits(got)]))
            ctx.add('transitions', 1)
    for f in names_:
        if f is None:
            continue
        if not ctx.case('file', f):
            continue
        got = j.mask((allset & hp.Prod(f)).nodes)
        want = sum(1 << i for i, wh in enumerate(where) if wh and wh[0].startswith(f))
        if got != want:
            ctx.fail('Prod(%r) selects %s' % (f, [where[i] for i in bits(got)]))
    for f, l in itertools.product(names_[:3], range(9)):
        if ctx.case('exact', f, l):
            for k in (hp.Prod(f, l), hp.Prod(filename=f, lineno=l)):
                got = j.mask((allset & k).nodes)
                want = sum(1 << i for i, wh in enumerate(where) if wh == (f, l))
                if got != want:
                    ctx.fail('%r selects %s' % (k, [where[i] for i in bits(got)]))
    if ctx.case('none'):
        ctx.eq(j.mask((allset & hp.Prod()).nodes), 1 << n - 1, 'Prod() selects')
    # a function's source range
    if ctx.case('source'):
        src = run_prod_here()
        o = src()
        inside = V.iso(o) & hp.Prod(run_prod_here)
        ctx.eq(len(inside.nodes), 1, 'object allocated in the function')
        o2 = A()
        ctx.eq(len((V.iso(o2) & hp.Prod(run_prod_here)).nodes), 0, 'object allocated elsewhere')
    tracemalloc.stop()


def run_prod_here():
    def make():
        return A()
    return make


# -- the low-level interface

def run_low(shard, ctx):
    """classify, partition, epartition and select of raw classifiers agree with each other."""
    U = Universe(True)
    V.root = U.root
    n = len(U.objs)
    ops = ['<', '<=', '==', '!=', '>', '>=']
    hv = V.hv
    memo = {}
    clis = [('type', hv.cli_type(), type, lambda a, b: issubclass(a, b)),
            ('size', hv.cli_indisize({}), sys.getsizeof, lambda a, b: a <= b),
            ('id', hv.cli_id(), lambda o: o, lambda a, b: id(a) <= id(b)),
            ('none', hv.cli_none(), lambda o: None, lambda a, b: True),
            ('user', hv.cli_user_defined(hv.cli_type(), dict, len_, None), lambda o: len_(o) if type(o) is dict else None, None),
            ('type&size', hv.cli_and((hv.cli_type(), hv.cli_indisize(memo)), {}), lambda o: (type(o), sys.getsizeof(o)), None)]
    for name, cli, key, le in clis:
        for X in range(1 + shard['k'], 1 << n, shard['of'] * (3 if ctx.tier == 'thorough' else 29)):
            if not ctx.case('low', name, X):
                continue
            objs = [U.objs[i] for i in bits(X)]
            kinds = [cli.classify(o) for o in objs]
            for o, k in zip(objs, kinds):
                if tuple(k) != key(o) if name == 'type&size' else k is not key(o) and k != key(o):
                    ctx.fail('%s classifies %s as %r' % (name, type(o), k))
            want = {}
            for arg in (objs, imm(objs), iter(objs), tuple(objs)):
                if name == 'id':        # its kinds need not be hashable
                    continue
                part = cli.partition(arg)
                got = sorted(U.mask(v) for v in part.values())
                want = {}
                for i in bits(X):
                    k = kinds[[x is U.objs[i] for x in objs].index(True)]
                    want[id(k) if name != 'user' else k] = want.get(id(k) if name != 'user' else k, 0) | 1 << i
                ctx.eq(got, sorted(want.values()), '%s.partition' % name)
            ep = cli.epartition(imm(objs))
            got = sorted(U.mask(ep[k]) for k in ep.get_domain())
            if name not in ('user', 'id'):
                ctx.eq(got, sorted(want.values()), '%s.epartition' % name)
            for k in {id(q): q for q in kinds}.values():
                for op in ops:
                    if le is None and op not in ('==', '!='):
                        ctx.raises(ValueError, cli.select, objs, k, op)
                        continue
                    got = U.mask(cli.select(objs, k, op))
                    if op in ('==', '!='):
                        f = (lambda a: (a is k) == (op == '==')) if name != 'user' else (lambda a: (a == k) == (op == '=='))
                    elif op == '<':
                        f = lambda a: a is not k and le(a, k)
                    elif op == '<=':
                        f = lambda a: le(a, k)
                    elif op == '>':
                        f = lambda a: a is not k and le(k, a)
                    else:
                        f = lambda a: le(k, a)
                    want2 = sum(1 << i for i, q in zip(bits(X), kinds) if f(q))
                    if got != want2:
                        ctx.fail('%s.select(%s, %r) gives %s' % (name, op, k, got))
            ctx.raises(ValueError, cli.select, objs, kinds[0], '=')
            ctx.raises(TypeError, cli.select, objs, kinds[0], 1)
            ctx.add('transitions', 1)
            if ctx.full:
                return
    ctx.state(shard['k'])


def len_(o):
    return len(o)
