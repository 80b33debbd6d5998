"""Kind expressions mean what they denote."""
import itertools, sys, types
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of kind expressions up to a nesting depth over every classifier family, against Boolean membership over a universe of objects'
RULE = ('all expressions built with &, |, -, ^ and ~ from atoms of every family (types, sizes, their comparison alternatives, dict owners of kinds of several '
        'classifiers, identities, modules, identity sets, findex and biper kinds, Anything and Nothing): membership by selection and by "in", every reported '
        'inclusion, equality, disjointness and hash, and the laws of Boolean algebra between expressions without object sets; all pairs of object sets and '
        'node sets under the same operators, exactly')
BOUNDS = dict(quick='33 atoms and their complements: all pairs x 4 operators; 15 atoms: all (a op b) op c, c op (a op b); 5 atoms: all (a op b) op (c op d); 64 x 64 object sets x operand forms',
              thorough='33 atoms: all (a op b) op c, c op (a op b); 9 atoms: all (a op b) op (c op d); 128 x 128 object sets')
ASSUME = ['a universe of 17 objects stands for all objects when claims between kinds are judged (a claim that is true of the universe is accepted)',
          'inclusion between kinds is only required to be reported for the laws listed, and when no object set is a part of an expression']

sz = sys.getsizeof


def shards(tier):
    t = tier == 'thorough'
    return ([dict(part='pairs', k=k, of=16) for k in range(16)] + [dict(part='deep', k=k, of=32 if not t else 96) for k in range(32 if not t else 96)] +
            [dict(part='deep2', k=k, of=16 if not t else 96) for k in range(16 if not t else 96)] + [dict(part='sets', k=k, of=8) for k in range(8)] +
            [dict(part='derived', k=k, of=8) for k in range(8)])


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


class A(object):
    pass


class B(A):
    pass


class SubDict(dict):
    __slots__ = ()


class Big(object):
    __slots__ = 'a', 'b', 'c', 'd', 'e', 'f', 'g', '__dict__'


class U:
    """The objects expressions are evaluated on."""

    def __init__(self):
        a, a2, b, big, m, m2 = A(), A(), B(), Big(), types.ModuleType('one'), types.ModuleType('two')
        a.x = 1
        a2.x = 2
        b.y = {}
        big.z = []
        self.objs = objs = [a, a.__dict__, a2, a2.__dict__, b, b.__dict__, big, big.__dict__, m, m.__dict__, m2, m2.__dict__, {}, SubDict(), A, [], {1: a}]
        self.owner = {id(x.__dict__): x for x in (a, a2, b, big, m, m2)}
        self.ix = {id(o): i for i, o in enumerate(objs)}
        self.n = len(objs)
        self.ALL = (1 << self.n) - 1
        self.root = [objs]
        V.root = self.root
        V.clear_retainers()
        self.all = V.idset(imm(objs))

    def mem(self, pred):
        return sum(1 << i for i, o in enumerate(self.objs) if pred(o))

    def mask(self, nodes):
        m = 0
        for o in nodes:
            m |= 1 << self.ix.get(id(o), self.n)
        return m

    def own(self, o):
        return self.owner.get(id(o)) if type(o) is dict else None

    def names(self, m):
        return ['%s#%d' % (type(self.objs[i]).__name__, i) if i < self.n else '?' for i in bits(m)]

    def atoms(self):
        objs, own = self.objs, self.own
        a, adict, a2, b, big, m = objs[0], objs[1], objs[2], objs[4], objs[6], objs[8]
        s = sz(a)
        T = hp.Type
        out = [
            # the first ones serve for the deeper expressions
            ('A', lambda: T(A), lambda o: type(o) is A),
            ('Adict', lambda: T(A).dictof, lambda o: type(own(o)) is A),
            ('subA', lambda: T(A).alt('<='), lambda o: issubclass(type(o), A)),
            ('size', lambda: hp.Size(s), lambda o: sz(o) == s),
            ('dict', lambda: T.Dict, lambda o: type(o) is dict),
            ('sizedict', lambda: hp.Size(s).dictof, lambda o: own(o) is not None and sz(own(o)) == s),
            ('iso', lambda: V.iso(a, adict, b, objs[12]), lambda o: o is a or o is adict or o is b or o is objs[12]),
            ('nodict', lambda: hp.Clodo(dictof=()), lambda o: type(o) is dict and own(o) is None),
            ('module', lambda: T.Module, lambda o: type(o) is types.ModuleType),
            ('size<', lambda: hp.Size(s).alt('<='), lambda o: sz(o) <= s),
            ('id', lambda: hp.Id(id(a)), lambda o: o is a),
            ('anydict', lambda: hp.Anything.dictof, lambda o: own(o) is not None),
            ('themodule', lambda: hp.Module(at=id(m)), lambda o: o is m),
            ('findex', lambda: hp.findex(T(A), T.Dict)(1), lambda o: type(o) is dict),
            ('biper', lambda: T(A).biper(1), lambda o: type(o) is not A),
            #
            ('B', lambda: T(B), lambda o: type(o) is B),
            ('subobject', lambda: T(object).alt('<='), lambda o: True),
            ('subdict', lambda: T(dict).alt('<='), lambda o: isinstance(o, dict)),
            ('superB', lambda: T(B).alt('>='), lambda o: issubclass(B, type(o))),
            ('notA', lambda: T(A).alt('!='), lambda o: type(o) is not A),
            ('size>', lambda: hp.Size(s).alt('>'), lambda o: sz(o) > s),
            ('Clodo.A', lambda: hp.Clodo(A), lambda o: type(o) is A),
            ('Clodo.Adict', lambda: hp.Clodo(dictof=A), lambda o: type(own(o)) is A),
            ('moduledict', lambda: T.Module.dictof, lambda o: type(own(o)) is types.ModuleType),
            ('subAdict', lambda: T(A).alt('<=').dictof, lambda o: own(o) is not None and issubclass(type(own(o)), A)),
            ('ABdict', lambda: (T(A) | T(B)).dictof, lambda o: type(own(o)) in (A, B)),
            ('notAdict', lambda: (~T(A)).dictof, lambda o: own(o) is not None and type(own(o)) is not A),
            ('isodict', lambda: V.iso(a, b).dictof, lambda o: own(o) is a or own(o) is b),
            ('iddict', lambda: hp.Id(id(a)).dictof, lambda o: own(o) is a),
            ('themoduledict', lambda: hp.Module(at=id(m)).dictof, lambda o: own(o) is m),
            ('nomodule', lambda: hp.Module(), lambda o: type(o) is not types.ModuleType),
            ('iso1', lambda: V.iso(a), lambda o: o is a),
            ('Anything', lambda: hp.Anything, lambda o: True),
            ('Nothing', lambda: hp.Nothing, lambda o: False),
        ]
        return [(n, f, self.mem(p), n in ('iso', 'iso1', 'isodict')) for n, f, p in out]

    def literals(self, count=None):
        out = []
        for n, f, m, s in self.atoms()[:count]:
            out.append((n, f(), m, s))
        for n, f, m, s in self.atoms()[:count]:
            out.append(('~' + n, ~f(), self.ALL & ~m, s))
        return out


OPS = [('&', lambda a, b: a & b, lambda a, b: a & b), ('|', lambda a, b: a | b, lambda a, b: a | b),
       ('-', lambda a, b: a - b, lambda a, b: a & ~b), ('^', lambda a, b: a ^ b, lambda a, b: a ^ b)]


class Judge:
    def __init__(self, ctx, u):
        self.ctx = ctx
        self.u = u

    def select(self, name, k, m):
        got = self.u.mask((self.u.all & k).nodes)
        if got != m:
            self.ctx.fail('%s is %s: selects %s, want %s' % (name, k, self.u.names(got), self.u.names(m)))
            return False
        return True

    def contains(self, name, k, m):
        got = 0
        for i, o in enumerate(self.u.objs):
            if o in k:
                got |= 1 << i
        if got != m:
            self.ctx.fail('%s is %s: contains %s, want %s' % (name, k, self.u.names(got), self.u.names(m)))

    def claims(self, n1, k1, m1, n2, k2, m2):
        """What is reported about two kinds must be so."""
        f = self.ctx.fail
        le = k1 <= k2
        ge = k1 >= k2
        if le and m1 & ~m2:
            f('%s <= %s is reported, but not so for %s' % (n1, n2, self.u.names(m1 & ~m2)))
        if ge and m2 & ~m1:
            f('%s >= %s is reported, but not so for %s' % (n1, n2, self.u.names(m2 & ~m1)))
        if k1.disjoint(k2) and m1 & m2:
            f('%s and %s are reported disjoint, but share %s' % (n1, n2, self.u.names(m1 & m2)))
        if (k1 == k2) != (le and ge):
            f('%s == %s is %s, <= is %s, >= is %s' % (n1, n2, k1 == k2, le, ge))
        if (k1 != k2) == (k1 == k2):
            f('%s != %s is %s, == too' % (n1, n2, k1 != k2))
        if (k1 < k2) != (le and not ge) or (k1 > k2) != (ge and not le):
            f('%s < %s is %s, > is %s, <= is %s, >= is %s' % (n1, n2, k1 < k2, k1 > k2, le, ge))
        if le and ge and hash(k1) != hash(k2):
            f('%s == %s but their hashes differ' % (n1, n2))
        return le, ge


LAWS = [
    ('a & b == b & a', lambda a, b: (a & b) == (b & a)),
    ('a | b == b | a', lambda a, b: (a | b) == (b | a)),
    ('a ^ b == b ^ a', lambda a, b: (a ^ b) == (b ^ a)),
    ('a & (a | b) == a', lambda a, b: (a & (a | b)) == a),
    ('a | (a & b) == a', lambda a, b: (a | (a & b)) == a),
    ('~(a & b) == ~a | ~b', lambda a, b: ~(a & b) == (~a | ~b)),
    ('~(a | b) == ~a & ~b', lambda a, b: ~(a | b) == (~a & ~b)),
    ('~~(a | b) == a | b', lambda a, b: ~~(a | b) == (a | b)),
    ('~~(a & b) == a & b', lambda a, b: ~~(a & b) == (a & b)),
    ('a - b == a & ~b', lambda a, b: (a - b) == (a & ~b)),
    ('(a & b) | (a - b) == a', lambda a, b: ((a & b) | (a - b)) == a),
    ('a - b and a & b are disjoint', lambda a, b: (a - b).disjoint(a & b)),
    ('a & b <= a | b', lambda a, b: (a & b) <= (a | b)),
    ('a & b <= a', lambda a, b: (a & b) <= a),
    ('a <= a | b', lambda a, b: a <= (a | b)),
]


def run_pairs(shard, ctx):
    u = U()
    j = Judge(ctx, u)
    lits = u.literals()
    again = u.literals()        # the same kinds, made once more
    for i, (n1, k1, m1, s1) in enumerate(lits):
        if i % shard['of'] != shard['k']:
            continue
        if ctx.case('literal', n1):
            j.select(n1, k1, m1)
            j.contains(n1, k1, m1)
            j.claims(n1, k1, m1, n1, again[i][1], m1)
            if not k1 == again[i][1] and not n1.endswith(('biper', 'findex')):
                ctx.fail('%s is not equal to itself when made again' % n1)
            if not ~~k1 == k1:
                ctx.fail('~~%s is not equal to %s' % (n1, n1))
            if (k1 & ~k1) is not hp.Nothing:
                ctx.fail('%s & ~%s is %s' % (n1, n1, k1 & ~k1))
            if bool(k1) != (k1 is not hp.Nothing):
                ctx.fail('bool(%s) is %s' % (n1, bool(k1)))
        for n2, k2, m2, s2 in again:
            if not ctx.case('pair', n1, n2):
                continue
            for op, f, g in OPS:
                name = '%s %s %s' % (n1, op, n2)
                k, m = f(k1, k2), g(m1, m2)
                j.select(name, k, m)
                j.contains(name, k, m)
                j.claims(name, k, m, n1, k1, m1)
                j.claims(n2, k2, m2, name, k, m)
                if ctx.full:
                    return
            j.claims(n1, k1, m1, n2, k2, m2)
            ctx.add('states', 4)
            if not s1 and not s2:
                for name, law in LAWS:
                    if not law(k1, k2):
                        ctx.fail('%s is not so for a = %s, b = %s' % (name, n1, n2))
                    ctx.add('transitions', 1)
    ctx.state(shard['k'])


def run_deep(shard, ctx):
    u = U()
    j = Judge(ctx, u)
    lits = u.literals(15 if ctx.tier == 'quick' else None)
    i = 0
    for (n1, k1, m1, s1), (n2, k2, m2, s2) in itertools.combinations(lits, 2):
        i += 1
        if i % shard['of'] != shard['k'] or not ctx.case('deep', n1, n2):
            continue
        for op, f, g in OPS:
            ks, ms = f(k1, k2), g(m1, m2)
            name = '(%s %s %s)' % (n1, op, n2)
            for n3, k3, m3, s3 in lits:
                for op2, f2, g2 in OPS:
                    k, m = f2(ks, k3), g2(ms, m3)
                    j.select('%s %s %s' % (name, op2, n3), k, m)
                    if op2 in '-&':
                        k, m = f2(k3, ks), g2(m3, ms)
                        j.select('%s %s %s' % (n3, op2, name), k, m)
                    elif op2 == '|' and not (s1 or s2 or s3):
                        if not ks <= k or not k3 <= k:
                            ctx.fail('%s | %s does not include both' % (name, n3))
                    if ctx.full:
                        return
                if ks <= k3 and ms & ~m3:
                    ctx.fail('%s <= %s is reported, but not so for %s' % (name, n3, u.names(ms & ~m3)))
                if k3 <= ks and m3 & ~ms:
                    ctx.fail('%s <= %s is reported, but not so for %s' % (n3, name, u.names(m3 & ~ms)))
                if ks.disjoint(k3) and m3 & ms:
                    ctx.fail('%s and %s are reported disjoint, but share %s' % (name, n3, u.names(ms & m3)))
                ctx.add('states', 6)
                ctx.add('transitions', 3)
    ctx.state(shard['k'])


def run_deep2(shard, ctx):
    u = U()
    j = Judge(ctx, u)
    lits = u.literals(5 if ctx.tier == 'quick' else 9)
    pairs = []
    for (n1, k1, m1, s1), (n2, k2, m2, s2) in itertools.combinations(lits, 2):
        for op, f, g in OPS[:2]:
            pairs.append(('(%s %s %s)' % (n1, op, n2), f(k1, k2), g(m1, m2), s1 or s2))
    for i, (n1, k1, m1, s1) in enumerate(pairs):
        if i % shard['of'] != shard['k'] or not ctx.case('deep2', n1):
            continue
        if not s1:
            j.contains(n1, ~k1, u.ALL & ~m1)
        for n2, k2, m2, s2 in pairs:
            for op, f, g in OPS:
                j.select('%s %s %s' % (n1, op, n2), f(k1, k2), g(m1, m2))
            j.claims(n1, k1, m1, n2, k2, m2)
            ctx.add('states', 4)
            ctx.add('transitions', 1)
            if ctx.full:
                return
    ctx.state(shard['k'])


def run_derived(shard, ctx):
    """Dict kinds, bipartitions and first-match indexes of compound kinds."""
    u = U()
    j = Judge(ctx, u)
    lits = u.literals(None if ctx.tier == 'thorough' else 15)
    i = 0
    for (n1, k1, m1, s1), (n2, k2, m2, s2) in itertools.product(lits, repeat=2):
        i += 1
        if i % shard['of'] != shard['k'] or not ctx.case('derived', n1, n2):
            continue
        if n1 != n2:
            fx = hp.findex(k1, k2)
            j.select('findex(%s, %s)(0)' % (n1, n2), fx(0), m1)
            j.select('findex(%s, %s)(1)' % (n1, n2), fx(1), m2 & ~m1)
            j.select('findex(%s, %s)(2)' % (n1, n2), fx(2), u.ALL & ~m1 & ~m2)
        if i % (3 if ctx.tier == 'quick' else 1) == 0:
            for op, f, g in OPS[:2]:
                name = '(%s %s %s)' % (n1, op, n2)
                k, m = f(k1, k2), g(m1, m2)
                if k is hp.Nothing:
                    continue
                want = u.mem(lambda o: u.own(o) is not None and m >> u.ix[id(u.own(o))] & 1)
                j.select(name + '.dictof', k.dictof, want)
                j.select(name + '.biper(0)', k.biper(0), m)
                j.select(name + '.biper(1)', k.biper(1), u.ALL & ~m)
        ctx.add('states', 5)
        ctx.add('transitions', 1)
        if ctx.full:
            return
    ctx.state(shard['k'])


def run_sets(shard, ctx):
    """Object sets, with exact answers."""
    u = U()
    n = 6 if ctx.tier == 'quick' else 7
    objs = u.objs[:n - 1] + [A]

    def nodes(X):
        return imm([objs[i] for i in bits(X)])

    def mask(s):
        m = 0
        for o in s:
            m |= 1 << [o is x for x in objs].index(True)
        return m
    forms = [('set', lambda X: V.idset(nodes(X))), ('iso', lambda X: V.iso(*[objs[i] for i in bits(X)])),
             ('by', lambda X: V.idset(nodes(X)).by('Type')), ('immnodeset', nodes)]
    for X in range(1 << n):
        if X % shard['of'] != shard['k']:
            continue
        for Y in range(1 << n):
            if not ctx.case('sets', X, Y):
                continue
            for i, (fn, ff) in enumerate(forms):
                for l, (gn, gf) in enumerate(forms):
                    if i == 3 or l and i and (X ^ Y ^ i ^ l) & 3:
                        continue
                    a, b = ff(X), gf(Y)
                    for op, f, g in OPS:
                        r = f(a, b)
                        r = mask(getattr(r, 'nodes', r))
                        if r != g(X, Y):
                            ctx.fail('%s %s %s %s %s gives %s' % (fn, bin(X), op, gn, bin(Y), bin(r)))
                    got = (a == b, a != b, a <= b, a < b, a >= b, a > b)
                    sub, sup = not X & ~Y, not Y & ~X
                    want = (X == Y, X != Y, sub, sub and X != Y, sup, sup and X != Y)
                    if got != want:
                        ctx.fail('%s %s compared with %s %s: %s, want %s' % (fn, bin(X), gn, bin(Y), got, want))
                    if l != 3:
                        if a.disjoint(b) != (not X & Y):
                            ctx.fail('%s %s disjoint %s %s: %s' % (fn, bin(X), gn, bin(Y), a.disjoint(b)))
                        if X == Y and hash(a) != hash(b):
                            ctx.fail('equal sets %s have different hashes' % bin(X))
                    ctx.add('states', 1)
            ctx.add('transitions', 4)
            if ctx.full:
                return
        if ctx.case('set', X):
            for fn, ff in forms[:3]:
                a = ff(X)
                ctx.eq(a.count, bin(X).count('1'), 'count')
                ctx.eq(bool(a), bool(X), 'bool')
                ctx.eq([i for i, o in enumerate(objs) if o in a], list(bits(X)), 'in')
                ctx.eq(mask((a & A).nodes), mask([o for o in nodes(X) if type(o) is A]), 'set & type')
                ctx.eq(mask((A & a).nodes), mask([o for o in nodes(X) if type(o) is A]), 'type & set')
                ctx.eq(mask((a - A).nodes), mask([o for o in nodes(X) if type(o) is not A]), 'set - type')
                ctx.eq(mask((a - ~a).nodes), X, 'a - ~a')
                ctx.eq(mask((V.idset(nodes((1 << n) - 1)) & ~a).nodes), (1 << n) - 1 & ~X, 'all & ~a')
                ctx.eq(mask((V.idset(nodes((1 << n) - 1)) & (A - a)).nodes), mask([o for o in objs if type(o) is A]) & ~X, 'type - set')
                if bin(X).count('1') == 1:
                    ctx.check(a.theone is objs[next(bits(X))], 'theone')
                else:
                    ctx.raises(ValueError, lambda: a.theone)
                for bad in (1, None, [], 'x'):
                    for op, f, g in OPS:
                        ctx.raises(TypeError, f, a, bad)
                    ctx.raises(TypeError, lambda: a <= bad)
                    ctx.raises(TypeError, lambda: a >= bad)
    ctx.state(shard['k'])
