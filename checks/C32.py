"""The printed form of a kind denotes the kind."""
import sys, types, gc, itertools, tracemalloc
from hps import *

LEVEL = 'exploration'
TECHNIQUE = 'exhaustive enumeration of kind expressions over all classifiers up to a nesting depth, each printed, evaluated and compared'
RULE = ('kinds of every classifier (every type that the interpreter knows and classes, modules, keys, attributes and files with awkward names; sizes; '
        'identities; referrer and relation kinds; producers; dict owners), all their complements, dictof, refdby, pairwise and threefold Boolean '
        'combinations, and all kinds that classifying small sets by any classifier yields: the printed form is evaluated in a namespace with the '
        'session, and the result compared by ==, !=, hash, inclusion, membership and selection from a probe universe; brief forms are compared '
        'too, and that no two unequal kinds of one classifier print the same')
BOUNDS = dict(quick='every type reachable by subclassing from object, all pairs of 30 representative kinds x 4 operators and complements, triples of 6 kinds; sets up to 3 objects x 11 classifiers',
              thorough='all pairs of 60 kinds, triples of 16 kinds x all operators; sets up to 4 objects')
ASSUME = ['classes have a string as __module__, modules a string as __name__',
          'kinds of the classifiers that have no printed arguments (findex, biper, Idset) are left out',
          'relations whose printed form is ambiguous by construction (keys without an evaluable repr) are left out']

ODD = ['A', 'a b', "q'", 'q"', 'q\'"', '<x>', 'x>', '<', 'None', 'd.e', '\\', '\n', 'ü', '', ' ', 'at', '0x1', 'def']


def classes():
    out = []
    for i, n in enumerate(ODD):
        out.append(type(n, (), dict(__module__='m')))
    for m in ('a.b', 'x y', "q'", '<m>', 'ü', 'm '):
        out.append(type('C', (), dict(__module__=m)))
    out.append(type('C', (), dict(__module__='m')))
    out.append(type('C', (), dict(__module__='m')))
    out.append(type('M', (type,), dict(__module__='m'))('N', (), dict(__module__='m')))
    class G: pass
    out.append(G)
    return out


tracemalloc.start()
CL = classes()


def alltypes():
    seen, todo, out = set(), [object], []
    while todo:
        t = todo.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        out.append(t)
        todo += type.__subclasses__(t)
    ok = [t for t in out if isinstance(getattr(t, '__module__', None), str)]
    return sorted(ok, key=lambda t: (t.__module__, t.__name__))


def modules():
    out = [m for n, m in sorted(sys.modules.items()) if isinstance(m, types.ModuleType) and isinstance(getattr(m, '__name__', None), str)]
    return out + MODS


MODS = [types.ModuleType(n) for n in ODD] + [types.ModuleType('sys'), types.ModuleType('C32_odd')]
sys.modules['C32_odd'] = types.ModuleType('C32_odd')
sys.modules['C32 q\'"'] = types.ModuleType('C32 q\'"')


class Inst(object):
    pass


class Slot(object):
    __slots__ = 'a', 'b'


KEYS = ['a', 'x y', "q'", 'q"', ']', '"]', "']", '[', '\\', '\n', 'ü', '', 0, 1, -1, 10 ** 20, 1.5, None, True, b'b', b']', (1, 2), (), ('a', ']'), frozenset()]


def probes():
    r = CL[0]
    out = [1, 'a', b'', 2.5, None, (), (1,), [], [1], {}, {1: 2}, set(), frozenset((1,)), r, int, type, sys, MODS[0], MODS[-1], sys.modules['C32_odd'], len, gc]
    for c in CL[:6]:
        i = c()
        i.a = 1
        out += [i, i.__dict__]
    i, j = Inst(), Inst()
    i.x, j.y = [], i
    out += [i, j, i.__dict__, j.__dict__, i.x, probes, probes.__code__, probes.__dict__, sys.__dict__, MODS[0].__dict__]
    return out


PROBES = probes()
PSET = hp.idset(PROBES) if hasattr(hp, 'idset') else hp.iso(*PROBES)
NS = dict(hp=hp, hpy=lambda: hp)


def same(ctx, k, what, sel=True):
    s = repr(k)
    try:
        k2 = eval(s, dict(NS))
    except Exception as e:
        ctx.fail('%s prints as %s, which fails: %r' % (what, s[:200], e))
        return None
    ctx.check(k2 == k and k == k2 and not k2 != k and not k != k2, '%s prints as %s, which denotes something else' % (what, s[:200]))
    ctx.check(hash(k2) == hash(k), '%s: hash of %s' % (what, s[:200]))
    if isinstance(k, V._parent.UniSet.UniSet):
        ctx.check(k2 <= k and k <= k2, '%s: inclusion with %s' % (what, s[:200]))
        for n in 'brief', 'str':
            try:
                b, b2 = (k.brief, k2.brief) if n == 'brief' else (str(k), str(k2))
            except Exception as e:
                ctx.fail('%s: the %s form fails: %r' % (what, n, e))
            else:
                ctx.check(b.count('(') == b.count(')') and sorted(b) == sorted(b2), '%s: %s forms %s and %s' % (what, n, b[:200], b2[:200]))
        if sel:
            ctx.eq((PSET & k2).nodes, (PSET & k).nodes, what + ': selection')
    return s


def ref(kind):
    return hp.Clodo.sokind(kind)


def atoms(tier):
    i = PROBES[22]
    out = [('Type int', hp.Type(int)), ('Type C', hp.Type(CL[1])), ('Type None', hp.Type(type(None))), ('Type module', hp.Type(types.ModuleType)), ('Type dict', hp.Type(dict)),
           ('Clodo C', hp.Clodo(CL[0])), ('Clodo dictof C', hp.Clodo(dictof=CL[0])), ('no owner', hp.Clodo(dictof=())), ('Type.dictof', hp.Type(CL[2]).dictof),
           ('Module sys', hp.Module('sys')), ('Module odd', hp.Module(at=id(MODS[2]))), ('Module()', hp.Module()), ('Module.dictof', hp.Module('sys').dictof),
           ('Size', hp.Size(24)), ('Size 0', hp.Size(0)), ('Size big', hp.Size(10 ** 9)), ('Size alt', hp.Size(64).alt('>=')), ('Type alt', hp.Type(object).alt('<')),
           ('Prod alt', hp.Prod('f')), ('Prod fun', hp.Prod(probes)),
           ('Id', hp.Id(id(i))), ('Id.dictof', hp.Id(id(i)).dictof),
           ('Rcs int', hp.Clodo.sokind(int).refdby), ('Rcs two', hp.Clodo.sokind(int)(dictof=CL[1]).refdby), ('Type.refdby', hp.Type.sokind(CL[0]).refdby), ('sokind none', hp.Clodo.sokind(dictof=()).refdby),
           ('Type sokind', hp.Type.sokind(int)(str).refdby), ('Size sokind', hp.Size.sokind(24).refdby),
           ('Via', hp.Via('.a')), ('Via two', hp.Via("['x']", '[1]')), ('Via keys', hp.Via('.keys()[0]')), ('Via inset', hp.Via('list(_)[0]') if 0 else hp.Via("->x")),
           ('Prod', hp.Prod('f', 3)), ('Prod odd', hp.Prod("a'\"b", 1)), ('Prod none', hp.Prod()), ('Prod file', hp.Prod('f', None)),
           ('Nothing', hp.Nothing), ('Anything', hp.Anything)]
    if tier == 'thorough':
        out += [('Type %r' % t.__name__, hp.Type(t)) for t in CL[:14]]
        out += [('Size %d' % n, hp.Size(n)) for n in (1, 8, 16)] + [('Via ' + v, hp.Via(v)) for v in ('.b', '[0]', "['b']", '->f', '.f_locals [\'a\']', ".f_locals['a']", '->f_valuestack[0]')]
    return out


CORE = [0, 1, 6, 7, 9, 13, 16, 18, 24, 28, 2, 8, 12, 19, 25, 31]
OPS = dict(zip('&|-^', (lambda a, b: a & b, lambda a, b: a | b, lambda a, b: a - b, lambda a, b: a ^ b)))


def shards(tier):
    n = 8 if tier == 'quick' else 24
    return ([dict(part='types', k=k, of=4) for k in range(4)] + [dict(part='atoms', k=k, of=4) for k in range(4)] +
            [dict(part='pairs', k=k, of=n) for k in range(n)] + [dict(part='triples', k=k, of=n) for k in range(n)] +
            [dict(part='sets', k=k, of=n) for k in range(n)])


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def mine(shard, it):
    return itertools.islice(it, shard['k'], None, shard['of'])


def dist(ctx, seen, s, k, what):
    """Unequal kinds print differently."""
    if s is None:
        return
    o = seen.setdefault(s, k)
    ctx.check(o == k, '%s prints as %s, as another kind does' % (what, s[:200]))


def run_types(shard, ctx):
    seen = {}
    for t in mine(shard, alltypes()):
        if ctx.full:
            return
        if not ctx.case('type', t.__module__, t.__name__):
            continue
        n = '%s.%s' % (t.__module__, t.__name__)
        for what, f in (('Type(%s)', lambda: hp.Type(t)), ('~Type(%s)', lambda: ~hp.Type(t)), ('Type(%s).dictof', lambda: hp.Type(t).dictof),
                        ('Clodo(%s)', lambda: hp.Clodo(t) if t is not dict else hp.Type(t)), ('Clodo(dictof=%s)', lambda: hp.Clodo(dictof=t)),
                        ('Type.sokind(%s).refdby', lambda: hp.Type.sokind(t).refdby), ('Clodo.sokind(%s)', lambda: hp.Clodo.sokind(t) if t is not dict else hp.Type.sokind(t)),
                        ('Clodo.sokind(dictof=%s).refdby', lambda: hp.Clodo.sokind(dictof=t).refdby),
                        ('Clodo.sokind(%s)(int)', lambda: hp.Clodo.sokind(t)(int) if t is not dict else hp.Type.sokind(t)(int))):
            k = f()
            dist(ctx, seen, same(ctx, k, what % n), k, what % n)
            ctx.add('kinds', 1)


def run_atoms(shard, ctx):
    seen = {}
    L = [('Module ' + repr(m.__name__), lambda m=m: hp.Module(at=id(m)) if sys.modules.get(m.__name__) is not m else hp.Module(m.__name__)) for m in modules()]
    L += [('Module dict ' + repr(m.__name__), lambda m=m: hp.Module(at=id(m)).dictof) for m in MODS]
    L += [('Size %d' % n, lambda n=n: hp.Size(n)) for n in list(range(0, 200)) + [2 ** i for i in range(8, 62)]]
    L += [('Id %d' % i, lambda o=o: hp.Id(id(o))) for i, o in enumerate(PROBES)]
    L += [('Id.dictof %d' % i, lambda o=o: hp.Id(id(o)).dictof) for i, o in enumerate(PROBES)]
    L += [('Id.refdby %d' % i, lambda o=o: hp.Id.sokind(id(o)).refdby) for i, o in enumerate(PROBES)]
    L += [('Prod %r %r' % (f, n), lambda f=f, n=n: hp.Prod(f, n)) for f in ODD + [None] for n in (0, 1, 10, None) if (f, n) != (None, None)]
    L += [('%s alt %s' % (n, c), lambda f=f, c=c: f.alt(c)) for n, f in (('Size', hp.Size(64)), ('Type', hp.Type(type)), ('Prod', hp.Prod('f', 3)), ('Prod f', hp.Prod('f', None)), ('Prod l', hp.Prod(None, 3)))
          for c in ('<', '<=', '>', '>=', '==', '!=')]
    L += [('Prod %r' % (f,), lambda f=f: hp.Prod(f)) for f in ODD + [probes, same, CL[-1], Inst]]
    L += [('Via [%r]' % (x,), lambda x=x: hp.Via('[%r]' % (x,))) for x in KEYS]
    L += [('Via two [%r]' % (x,), lambda x=x: hp.Via('[%r]' % (x,), '.a')) for x in KEYS]
    L += [('Via %s' % x, lambda x=x: hp.Via(x)) for x in ['.a', '._', '.a_1', '.keys()[0]', '.keys()[12]', '.__dict__.keys()[3]', '->a', '->f_valuestack[0]', '->f_valuestack[11]', 'list(_)[3]', 'list(_)[13]',
                                                           ".f_locals['a']", ".f_locals [']']", ".f_locals ['a']", ".f_locals['.0']"]]
    for what, f in mine(shard, L):
        if ctx.full:
            return
        if not ctx.case('atom', what):
            continue
        k = f()
        dist(ctx, seen, same(ctx, k, what), k, what)
        if what.startswith('Via ') and not what.startswith('Via two'):
            ctx.check(repr(k).endswith('Via(%r)' % what[4:]), '%s prints as %s' % (what, repr(k)))
        same(ctx, ~k, '~' + what)
        ctx.add('kinds', 2)


def run_pairs(shard, ctx):
    A = atoms(ctx.tier)
    if ctx.tier == 'quick':     # the others are met alone, and in every pair in the thorough tier
        A = [A[i] for i in range(len(A)) if i not in (3, 8, 11, 14, 15, 26, 31, 35)]
    for (na, a), (nb, b) in mine(shard, itertools.product(A, A)):
        if ctx.full:
            return
        if not ctx.case('pair', na, nb):
            continue
        for o, f in OPS.items():
            k = f(a, b)
            n = '%s %s %s' % (na, o, nb)
            same(ctx, k, n)
            if ctx.tier == 'thorough' or o in '&|':
                same(ctx, ~k, '~(%s)' % n, sel=False)
            ctx.add('kinds', 2)
            ctx.add('distinct_nontrivial', 1)


def run_triples(shard, ctx):
    A = atoms(ctx.tier)
    C = [A[i] for i in CORE[:6 if ctx.tier == 'quick' else 16]]
    for (na, a), (nb, b), (nc, c) in mine(shard, itertools.product(C, C, C)):
        if ctx.full:
            return
        if not ctx.case('triple', na, nb, nc):
            continue
        for (o, f), (p, g) in itertools.product(OPS.items(), OPS.items()):
            if ctx.tier == 'quick' and o in '-^' and p in '-^':
                continue
            k = g(f(a, b), c)
            same(ctx, k, '(%s %s %s) %s %s' % (na, o, nb, p, nc), sel=False)
            ctx.add('kinds', 1)


def run_sets(shard, ctx):
    root = {}
    i, j, l = Inst(), Inst(), Slot()
    i.p, j.p, l.a = [1], i, j
    base = [i, i.__dict__, j, l, [1], {'q': 1}, (i,), MODS[1], MODS[2], Inst, 'text']
    for n, x in enumerate(KEYS):
        o = Inst()
        o.n = n
        root[x] = o
        base.append(o)
    base[5]['z'] = base[4]
    # met at positions of two digits, as a key, as an item and in a set
    k1, k2, k3 = Inst(), Inst(), Slot()
    d = dict.fromkeys(range(100, 112))
    d[k1] = d[k2] = None
    root['d'] = d
    root['many'] = [None] * 12 + [k3, k2]
    root['set'] = {k3}
    base[9:9] = [k1, k2, k3]
    root['base'] = list(base)
    ers = ['Type', 'Clodo', 'Size', 'Module', 'Id', 'Rcs', 'Via', 'Unity', 'Clodo.dictof']
    E = []
    old = V.root
    V.root = root
    try:
        for e in ers:
            er = hp
            for p in e.split('.'):
                er = getattr(er, p)
            E.append((e, er))
        E += [('Type & Size', hp.Type & hp.Size), ('Size & Via', hp.Size & hp.Via)]
        n = 3 if ctx.tier == 'quick' else 4
        pool = list(range(12)) + [15, 18, 23, 27, 33, 37]
        for r in range(1, n + 1):
            for c in mine(shard, itertools.combinations(pool if r < n else pool[:8] + pool[9:12], r)):
                if ctx.full:
                    return
                if not ctx.case('set', *c):
                    continue
                S = hp.iso(*[base[x] for x in c])
                for e, er in E:
                    V.root = root
                    X = S.by(er)
                    kind = X.kind
                    V.root = old
                    what = 'the kind of %s by %s' % (list(c), e)
                    if same(ctx, kind, what, sel='Rcs' not in e and 'Via' not in e):
                        k2 = eval(repr(kind), dict(NS))
                        V.root = root
                        ctx.eq((S & k2).nodes, S.nodes, what + ': selects the set')
                    ctx.add('kinds', 1)
    finally:
        V.root = old
