"""Word rewriting, Kan extensions and permutations of iterators."""
import itertools, functools
import guppy
from guppy.etc.KnuthBendix import KnuthBendix
from guppy.etc.IterPermute import iterpermute
from guppy.etc import Cat as cat, RE

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of presentations, categories and functors on the real implementation, against congruence closure, finite models and an independent completion'
RULE = ('all presentations of monoids with few short relations: all words up to a length compared by normal form with the congruence (every use of every '
        'relation in every context, all transformations of three points that satisfy the relations, and an independent completion); all small categories '
        'with all set-valued functors on a small graph: the Kan extension, colimit and coequalizer against union-find on all pairs of element and path; '
        'listings of arrows; all products of small iterators')
BOUNDS = dict(quick='two letters, 1 or 2 relations, words of length up to 3 (and 3 relations up to 2), words up to 5, both notations; 10 target categories, '
                    '3 source graphs, functors into sets of up to 2 elements; 4 iterators of up to 3 items',
              thorough='single relations of words up to 4, words up to 6, three letters; sets of up to 3 elements')
ASSUME = ['completion is given a bound on its iterations; presentations for which it gives up are counted, not judged']
CONTEXT = [''.join(w) for n in range(3) for w in itertools.product('ab', repeat=n)]


def words(n, letters='ab'):
    return [''.join(w) for k in range(n + 1) for w in itertools.product(letters, repeat=k)]


def shards(tier):
    return [dict(part='kb', k=k, of=32) for k in range(32)] + [dict(part='perm', k=0)] + [dict(part='kan', k=k, of=16) for k in range(16)] + \
        [dict(part='colimit', k=k, of=8) for k in range(8)] + [dict(part='arrows', k=k, of=8) for k in range(8)] + [dict(part='tester', k=0), dict(part='graph', k=0)]


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


# ---------------------------------------------------------------- completion

class GaveUp(Exception):
    pass


def complete(E, limit=60):
    """A plain completion by shortlex; gives the rules, or raises GaveUp."""
    def key(w):
        return len(w), w
    rules = {}

    def red(w):
        changed = True
        while changed:
            changed = False
            for l, r in rules.items():
                i = w.find(l)
                if i >= 0:
                    w = w[:i] + r + w[i + len(l):]
                    changed = True
        return w
    todo = list(E)
    steps = 0
    while todo:
        steps += 1
        if steps > 3000 or len(rules) > limit:
            raise GaveUp
        todo.sort(key=lambda e: len(e[0]) + len(e[1]), reverse=True)
        u, v = todo.pop()
        u, v = red(u), red(v)
        if u == v:
            continue
        if key(u) < key(v):
            u, v = v, u
        for l in [l for l in rules if u in l]:
            todo.append((l, rules.pop(l)))
        rules[u] = v
        if len(u) > 14:
            raise GaveUp
        for l, r in list(rules.items()):
            for (a, x), (b, y) in ((u, v), (l, r)), ((l, r), (u, v)):
                for i in range(1, min(len(a), len(b)) + 1):
                    if a[-i:] == b[:i] and not (i == len(a) == len(b)):
                        todo.append((x + b[i:], a[:-i] + y))
    return red


MAPS = list(itertools.product(range(3), repeat=3))


def models(E, letters):
    """Assignments of maps of {0,1,2} to the letters that satisfy the relations."""
    r = []
    for m in itertools.product(MAPS, repeat=len(letters)):
        d = dict(zip(letters, m))

        def val(w, d=d):
            p = (0, 1, 2)
            for c in w:
                f = d[c]
                p = (f[p[0]], f[p[1]], f[p[2]])
            return p
        if all(val(u) == val(v) for u, v in E):
            r.append(val)
    return r


def presentations(tier):
    ws = words(3 if tier == 'quick' else 4)
    rel = [(u, v) for u in ws for v in ws if u < v or (len(u) < len(v) and u != v and not v < u)]
    rel = sorted({tuple(sorted(p, key=lambda w: (len(w), w))) for p in itertools.combinations(ws, 2)}, key=lambda p: (len(p[1]), p))
    for p in rel:
        yield [p]
        yield [p[::-1]]
    small = [p for p in rel if len(p[1]) < 4]
    for p, q in itertools.combinations(small, 2):
        yield [p, q]
    for p, q in itertools.combinations([p for p in rel if len(p[1]) <= 2], 2):
        yield [q[::-1], p]
    for t in itertools.combinations([p for p in rel if len(p[1]) <= 2], 3):
        yield list(t)


THREE = [[('ab', 'c'), ('bc', 'a'), ('ca', 'b')], [('aa', ''), ('bb', ''), ('cc', ''), ('aba', 'bab'), ('ac', 'ca'), ('bcb', 'cbc')], [('ab', 'c'), ('ba', 'c')],
         [('aaa', 'b'), ('bb', 'c'), ('cc', '')], [('abc', ''), ('bca', ''), ('cab', '')], [('ac', 'ca'), ('bc', 'cb'), ('aa', ''), ('bbb', '')]]


def run_kb(shard, ctx):
    n = 5 if ctx.tier == 'quick' else 6
    letters = 'ab'
    items = list(presentations(ctx.tier)) + [('abc', E) for E in THREE]
    W = words(n)
    for i, E in enumerate(items):
        if i % shard['of'] != shard['k']:
            continue
        if not ctx.case('presentation', E):
            continue
        if isinstance(E, tuple):
            presentation(ctx, E[1], E[0], words(4, 'abc'), True)
        else:
            presentation(ctx, E, 'ab', W, i // 32 % (8 if ctx.tier == 'quick' else 4) == 0)
        if ctx.full:
            return


NAMES = dict(plain=dict(a='a', b='b', c='c'), dotted=dict(a='a', b='b', c='c'), long=dict(a='aa', b='a', c='ab'))


def presentation(ctx, E, letters, W, thorough):
    E = [tuple(e) for e in E]
    red = None
    for style in ('plain', 'dotted', 'long') if thorough else ('plain', 'dotted'):
        names = NAMES[style]
        delim = '' if style == 'plain' else '.'

        def enc(w):
            return delim.join([names[c] for c in w])
        wrapped = style == 'dotted'

        def encE(w):
            return '.' + enc(w) + '.' if wrapped and w else enc(w)
        try:
            A = KnuthBendix([(encE(u), encE(v)) for u, v in E], delim=delim, max_iterations=5 if max(len(w) for e in E for w in e) < 4 else 3)
        except ValueError as e:
            if 'did not terminate' not in str(e):
                ctx.fail('%s: %s' % (E, e))
            ctx.add('gave_up', 1)
            continue
        ctx.add('completed', 1)
        nf = {w: A.reduce(enc(w)) for w in W}
        for w in W:
            if A.reduce(nf[w]) != nf[w]:
                ctx.fail('%s %s: the normal form %r of %r reduces further to %r' % (style, E, nf[w], w, A.reduce(nf[w])))
                return
            if delim and A.reduce(delim + enc(w) + delim) != nf[w]:
                ctx.fail('%s %s: delimiters matter for %r' % (style, E, w))
                return
        # Every use of a relation in every context
        for u, v in E:
            for x in CONTEXT:
                for y in CONTEXT:
                    p, q = A.reduce(enc(x + u + y)), A.reduce(enc(x + v + y))
                    if p != q or not A(enc(x + u + y), enc(x + v + y)):
                        ctx.fail('%s %s: %r and %r are equal, but have the normal forms %r and %r' % (style, E, x + u + y, x + v + y, p, q))
                        return
        ctx.add('transitions', len(W))
        # Words taken to be equal are so in all models
        classes = {}
        for w in W:
            classes.setdefault(nf[w], []).append(w)
        if red is None:
            try:
                red = complete(E)
            except GaveUp:
                red = False
        if red:
            mine = {}
            for w in W:
                mine.setdefault(red(w), []).append(w)
            if sorted(mine.values()) != sorted(classes.values()):
                a = {w: k for k, c in mine.items() for w in c}
                for c in classes.values():
                    for w in c:
                        if a[w] != a[c[0]]:
                            ctx.fail('%s %s: %r and %r are not equal, but have the same normal form' % (style, E, c[0], w))
                            return
                for c in mine.values():
                    for w in c:
                        if nf[w] != nf[c[0]]:
                            ctx.fail('%s %s: %r and %r are equal, but have the normal forms %r and %r' % (style, E, c[0], w, nf[c[0]], nf[w]))
                            return
            ctx.add('decided', 1)
        if thorough or not red:
            for val in models(E, letters):
                for c in classes.values():
                    v = val(c[0])
                    for w in c:
                        if val(w) != v:
                            ctx.fail('%s %s: %r and %r have the same normal form, but differ in a model' % (style, E, c[0], w))
                            return
        ctx.state((style, tuple(E)))


# ---------------------------------------------------------------- permutations

def run_perm(shard, ctx):
    n = 4
    for m in range(5):
        for lens in itertools.product(range(n + (m < 4)), repeat=m):
            if not ctx.case('perm', lens):
                continue
            for kind in ('list', 'iter'):
                args = [['%d%d' % (i, j) for j in range(k)] for i, k in enumerate(lens)]
                got = list(iterpermute(*[a if kind == 'list' else iter(a) for a in args]))
                if len(got) != len(set(got)) or set(got) != set(itertools.product(*args)):
                    ctx.fail('iterpermute of %s: %d items, %d different' % (args, len(got), len(set(got))))
            # Equal items at different positions count separately
            args = [[0] * k for k in lens]
            if len(list(iterpermute(*args))) != len(list(itertools.product(*args))):
                ctx.fail('iterpermute of equal items')
            ctx.add('transitions', 1)
            ctx.state(lens)


# ---------------------------------------------------------------- Kan extensions

def KE():
    return guppy.Root().guppy.etc.KanExtension


# Target categories with finitely many arrows, or bounded in test: (objects, arrows, relations)
TARGETS = {
    'point': ([0], {}, []),
    'idempotent': ([0], {'e': (0, 0)}, [(('e', 'e'), ('e',))]),
    'involution': ([0], {'i': (0, 0)}, [(('i', 'i'), ())]),
    'cyclic3': ([0], {'g': (0, 0)}, [(('g', 'g', 'g'), ())]),
    'arrow': ([0, 1], {'f': (0, 1)}, []),
    'parallel': ([0, 1], {'f': (0, 1), 'g': (0, 1)}, []),
    'iso': ([0, 1], {'f': (0, 1), 'g': (1, 0)}, [(('f', 'g'), ()), (('g', 'f'), ())]),
    'retract': ([0, 1], {'s': (0, 1), 'r': (1, 0)}, [(('s', 'r'), ())]),
    'square': ([0, 1, 2, 3], {'a': (0, 1), 'b': (0, 2), 'c': (1, 3), 'd': (2, 3)}, [(('a', 'c'), ('b', 'd'))]),
    'free square': ([0, 1, 2, 3], {'a': (0, 1), 'b': (0, 2), 'c': (1, 3), 'd': (2, 3)}, []),
    'nilpotent': ([0], {'n': (0, 0)}, [(('n', 'n', 'n'), ('n', 'n'))]),
    'loop at end': ([0, 1], {'f': (0, 1), 'e': (1, 1)}, [(('f', 'e'), ('f',)), (('e', 'e'), ('e',))]),
    'two words': ([0], {'a': (0, 0), 'b': (0, 0)}, [(('a', 'a'), ('a',)), (('b', 'b'), ('b',)), (('a', 'b'), ('b', 'a'))]),
    'long names': ([0, 1, 2], {'f%d' % i: (i % 2, i % 2 + 1) for i in range(5)}, [(('f0', 'f1'), ('f2', 'f3')), (('f4', 'f1'), ('f4', 'f3'))]),
}
# Source graphs: (objects, arrows)
SOURCES = {
    'one': ([0], {}),
    'two': ([0, 1], {}),
    'arrow': ([0, 1], {'x': (0, 1)}),
    'pair': ([0, 1], {'x': (0, 1), 'y': (0, 1)}),
    'loop': ([0], {'l': (0, 0)}),
}


def paths(objects, arrows, n):
    """All paths up to length n: (source, names, target)."""
    r = [(o, (), o) for o in objects]
    new = r
    for _ in range(n):
        new = [(s, p + (a,), arrows[a][1]) for s, p, t in new for a in sorted(arrows) if arrows[a][0] == t]
        r = r + new
    return r


class UF(dict):
    def find(self, x):
        while self[x] != x:
            x = self[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self[a] = b


def kan_oracle(A, B, R, X0, X1, F0, F1, n):
    """Classes of ((A, x), path) for paths up to n, by union-find."""
    objects, arrows = B
    ps = paths(objects, arrows, n)
    uf = UF()
    tgt = {}
    for a in A[0]:
        for x in X0[a]:
            for s, p, t in ps:
                if s == F0[a]:
                    uf[((a, x),) + p] = ((a, x),) + p
                    tgt[((a, x),) + p] = t
    rules = [(((a0, x),) + tuple(F1[a]), ((a1, X1[a][x]),)) for a, (a0, a1) in A[1].items() for x in X0[a0]]
    for e in list(uf):
        for l, r in rules:
            if e[:len(l)] == l and r + e[len(l):] in uf:
                uf.union(e, r + e[len(l):])
        for l, r in R:
            for l, r in ((l, r), (r, l)):
                for i in range(1, len(e) + 1):
                    if e[i:i + len(l)] == tuple(l):
                        if not l:
                            # an identity at the object reached
                            o = tgt[e[:i]]
                            if arrows[r[0]][0] != o:
                                continue
                        e2 = e[:i] + tuple(r) + e[i + len(l):]
                        if e2 in uf:
                            uf.union(e, e2)
    return uf, tgt


def functors(A, B, maxset, n):
    """All functors X: A -> Sets of up to maxset elements, F: A -> paths of B up to n."""
    objs, arrs = A
    for sizes in itertools.product(range(maxset + 1), repeat=len(objs)):
        X0 = dict(zip(objs, [list(range(10 * o, 10 * o + k)) for o, k in zip(objs, sizes)]))
        maps = []
        for a in sorted(arrs):
            s, t = arrs[a]
            maps.append([dict(zip(X0[s], vs)) for vs in itertools.product(X0[t], repeat=len(X0[s]))])
        for X1 in itertools.product(*maps):
            for Fo in itertools.product(B[0], repeat=len(objs)):
                F0 = dict(zip(objs, Fo))
                ps = paths(B[0], B[1], n)
                choices = [[p for s, p, t in ps if s == F0[arrs[a][0]] and t == F0[arrs[a][1]]] for a in sorted(arrs)]
                for F1 in itertools.product(*choices):
                    yield X0, dict(zip(sorted(arrs), X1)), F0, dict(zip(sorted(arrs), F1))


def run_kan(shard, ctx):
    i = 0
    for tn, T in TARGETS.items():
        B = T[0], T[1]
        for sn, A in SOURCES.items():
            small = len(B[0]) > 2
            maxset = (2 if ctx.tier == 'quick' else 3) - (small and len(A[0]) > 1 and ctx.tier == 'quick')
            for X0, X1, F0, F1 in functors(A, B, maxset, 2 if len(B[1]) < 3 else 1):
                i += 1
                if i % shard['of'] != shard['k'] or not ctx.case('kan', tn, sn, X0, X1, F0, F1):
                    continue
                kan(ctx, tn, A, T, X0, X1, F0, F1)
                if ctx.full:
                    return


def kan(ctx, tn, A, T, X0, X1, F0, F1):
    B, R = T[:2], T[2]
    C = cat
    ke = KE()
    try:
        l = ke.lke(C.Graph(*A), C.Graph(*B), R, C.Functor(X0, {a: C.Function(f, X0[A[1][a][0]], X0[A[1][a][1]]) for a, f in X1.items()}), C.Functor(F0, F1))
    except ValueError as e:
        if 'did not terminate' in str(e):
            ctx.add('gave_up', 1)
            return
        raise
    longest = 4
    uf, tgt = kan_oracle(A, B, R, X0, X1, F0, F1, longest + 2)
    total = 0
    KB = {}
    for o in B[0]:
        try:
            KB[o] = [tuple(x) for x in l.K.fo[o]]
        except RE.InfiniteError:
            KB[o] = None
            # Look at the words up to a length instead
            ws = l.K.fo[o].re.get_words_memo()
            KB[o] = [tuple(x) for n in range(longest + 2) for x in ws.get_words_of_length(n)]
            ctx.add('infinite', 1)
        if len(KB[o]) != len(set(KB[o])):
            ctx.fail('%s: K(%s) has duplicates: %s' % (tn, o, KB[o]))
            return
        classes = {}
        for e in KB[o]:
            if e not in uf:
                if len(e) <= longest + 1:
                    ctx.fail('%s: K(%s) contains %s, which is no element and path' % (tn, o, e))
                    return
                continue
            if tgt[e] != o:
                ctx.fail('%s: K(%s) contains %s which ends at %s' % (tn, o, e, tgt[e]))
                return
            k = uf.find(e)
            if k in classes:
                ctx.fail('%s: K(%s) contains %s and %s, which are equal' % (tn, o, e, classes[k]))
                return
            classes[k] = e
        for e in uf:
            if tgt[e] == o and len(e) <= longest - 1 and uf.find(e) not in classes:
                ctx.fail('%s: K(%s) contains nothing equal to %s: %s' % (tn, o, e, KB[o]))
                return
        total += len(KB[o])
        KB[o] = classes
    for b, (s, t) in B[1].items():
        f = l.K.fa[b]
        for k, e in KB[s].items():
            if len(e) > longest:
                continue
            r = f(e)
            if r not in uf or uf.find(r) != uf.find(e + (b,)):
                ctx.fail('%s: K(%s) takes %s to %s' % (tn, b, e, r))
                return
            if KB[t].get(uf.find(r)) != r:
                ctx.fail('%s: K(%s) takes %s to %s, which is not in K(%s)' % (tn, b, e, r, t))
                return
    for u, v in R:
        src = B[1][(u or v)[0]][0]
        for k, e in KB[src].items():
            if len(e) > 2:
                continue
            p = q = e
            for b in u:
                p = l.K.fa[b](p)
            for b in v:
                q = l.K.fa[b](q)
            if p != q:
                ctx.fail('%s: K does not satisfy %s = %s at %s' % (tn, u, v, e))
                return
    for a in A[0]:
        nat = l.nat[a]
        for x in X0[a]:
            if uf.find(nat[x]) != uf.find(((a, x),)) or KB[F0[a]].get(uf.find(nat[x])) != nat[x]:
                ctx.fail('%s: the natural transformation takes %s in %s to %s' % (tn, x, a, nat[x]))
                return
    ctx.add('transitions', total)
    ctx.state((tn, repr((A, X0, X1, F0, F1))))


def run_colimit(shard, ctx):
    C = cat
    i = 0
    for m, n in itertools.product(range(4), range(4 if ctx.tier == 'quick' else 5)):
        S0, S1 = list(range(m)), ['s%d' % k for k in range(n)]
        for f0, f1 in itertools.product(itertools.product(S1, repeat=m), repeat=2):
            i += 1
            if i % shard['of'] != shard['k'] or not ctx.case('coequalizer', f0, f1, n):
                continue
            uf = UF((x, x) for x in S1)
            for a, b in zip(f0, f1):
                uf.union(a, b)
            f = KE().coequalizer(S0, S1, C.Function(dict(zip(S0, f0)), S0, S1), C.Function(dict(zip(S0, f1)), S0, S1))
            d = f.asdict()
            if set(d) != set(S1) or list(f.src) != S1:
                ctx.fail('coequalizer of %s, %s: defined on %s' % (f0, f1, sorted(d)))
                continue
            for a, b in itertools.combinations(S1, 2):
                if (uf.find(a) == uf.find(b)) != (d[a] == d[b]):
                    ctx.fail('coequalizer of %s, %s: %s' % (f0, f1, d))
                    break
            tgt = list(f.tgt)
            if len(tgt) != len(set(tgt)) or set(tgt) != set(d.values()):
                ctx.fail('coequalizer of %s, %s: target %s' % (f0, f1, tgt))
            ctx.add('transitions', 1)
            ctx.state((n, f0, f1))
    for sn, A in SOURCES.items():
        for X0, X1, F0, F1 in functors(A, ([0], {}), 3, 0):
            i += 1
            if i % shard['of'] != shard['k'] or not ctx.case('colimit', sn, X0, X1):
                continue
            uf = UF(((a, x), (a, x)) for a in A[0] for x in X0[a])
            for a, (s, t) in A[1].items():
                for x in X0[s]:
                    uf.union((s, x), (t, X1[a][x]))
            X = C.Functor(X0, {a: C.Function(f, X0[A[1][a][0]], X0[A[1][a][1]]) for a, f in X1.items()})
            ob, fs = KE().colimit(C.Graph(*A), X)
            ob = list(ob)
            img = {(a, x): fs[a][x] for a in A[0] for x in X0[a]}
            if len(ob) != len(set(ob)) or set(ob) != set(img.values()):
                ctx.fail('colimit %s: object %s, image %s' % (sn, ob, img))
            for p, q in itertools.combinations(sorted(img), 2):
                if (img[p] == img[q]) != (uf.find(p) == uf.find(q)):
                    ctx.fail('colimit %s of %s: %s and %s' % (sn, X1, p, q))
                    break
            ctx.state(('colimit', sn, repr((X0, X1))))


def classes_of_paths(T, n):
    objects, arrows, R = T
    uf = UF((((s,) + p), ((s,) + p)) for s, p, t in paths(objects, arrows, n))
    tgt = {(s,) + p: t for s, p, t in paths(objects, arrows, n)}
    for e in list(uf):
        for l, r in R:
            for l, r in ((l, r), (r, l)):
                for i in range(1, len(e) + 1):
                    if e[i:i + len(l)] == tuple(l) and (l or arrows[r[0]][0] == tgt[e[:i]]):
                        e2 = e[:i] + tuple(r) + e[i + len(l):]
                        if e2 in uf:
                            uf.union(e, e2)
    return uf, tgt


def run_arrows(shard, ctx):
    C = cat
    i = 0
    for tn, T in TARGETS.items():
        if not T[1]:
            continue
        for fr, n in itertools.product((0, 1), (1, 2, 3, 4)):
            i += 1
            if i % shard['of'] != shard['k'] or not ctx.case('arrows', tn, fr, n):
                continue
            uf, tgt = classes_of_paths(T, n + 3)
            c = C.oarcat(T[0], T[1], T[2])
            m = KE().arrows_map(c, from_objects=fr, coverage='length%d' % n)
            for o in T[0]:
                got = [tuple(x) for x in m[o]]
                es = []
                for x in got:
                    s = o if fr else T[1][x[0]][0]
                    e = (s,) + x
                    if e not in tgt or (not fr and tgt[e] != o) or not 1 <= len(x) <= n:
                        ctx.fail('%s: %r is not an arrow %s %s' % (tn, x, 'from' if fr else 'to', o))
                        return
                    es.append(e)
                seen = {uf.find(e) for e in es}
                if len(seen) != len(es):
                    ctx.fail('%s: arrows %s %s: %s are not all different' % (tn, 'from' if fr else 'to', o, got))
                    return
                ident = {uf.find((x,)) for x in T[0]}
                for e in uf:
                    if 2 <= len(e) <= n + 1 and (e[0] == o if fr else tgt[e] == o) and uf.find(e) not in seen and uf.find(e) not in ident:
                        ctx.fail('%s: arrows %s %s: nothing equal to %s in %s' % (tn, 'from' if fr else 'to', o, e, got))
                        return
            ctx.add('transitions', len(T[0]))
            ctx.state(('arrows', tn, fr, n))


def run_tester(shard, ctx):
    """The tests made of a category accept exactly the values at which its relations hold."""
    C = cat
    for tn, T in TARGETS.items():
        if not T[1] or len(T[1]) > 3:
            continue
        objects, arrows, R = T
        fns = list(itertools.product(range(2), repeat=2))
        for fv in itertools.product(fns, repeat=len(arrows)):
            if not ctx.case('tester', tn, fv):
                continue
            fa = {a: (lambda x, f=f: f[x]) for a, f in zip(sorted(arrows), fv)}
            tab = dict(zip(sorted(arrows), fv))
            c = C.oarcat(objects, arrows, R)

            def follow(p, x):
                for a in p:
                    x = tab[a][x]
                return x
            ke = KE()
            for o in objects:
                for v in range(2):
                    now = [(u, w) for u, w in R if arrows[(u or w)[0]][0] == o]
                    # A relation that does not hold at the value itself, or anywhere reachable
                    direct = any(follow(u, v) != follow(w, v) for u, w in now)
                    anywhere = any(follow(u, follow(p, v)) != follow(w, follow(p, v)) for s, p, t in paths(objects, arrows, 3) if s == o
                                   for u, w in R if arrows[(u or w)[0]][0] == t)
                    try:
                        ke.category_tester((None, fa, c)).test_object(o, v)
                        ok = True
                    except ValueError as e:
                        ok = False
                    if ok and direct:
                        ctx.fail('%s with %s: value %s at %s is accepted though a relation fails' % (tn, tab, v, o))
                        return
                    if not ok and not anywhere:
                        ctx.fail('%s with %s: value %s at %s is rejected though all relations hold' % (tn, tab, v, o))
                        return
                    ctx.add('transitions', 1)


def run_graph(shard, ctx):
    C = cat
    # Duals
    for tn, T in TARGETS.items():
        if not ctx.case('dual', tn):
            continue
        c = C.oarcat(*T)
        d = c.get_dual()
        for a, (s, t) in T[1].items():
            if (d.graph.source(a), d.graph.target(a)) != (t, s):
                ctx.fail('dual of %s: arrow %s' % (tn, a))
        if [(tuple(u)[::-1], tuple(v)[::-1]) for u, v in d.relations] != [(tuple(u), tuple(v)) for u, v in T[2]]:
            ctx.fail('dual of %s: relations' % tn)
        C.check_cat(c)
        C.check_cat(d)
    # Unsuitable graphs and rules are refused
    for arrows in itertools.product([(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 1)], repeat=2):
        g = C.Graph([0, 1], dict(f=arrows[0], g=arrows[1]))
        if not ctx.case('graph', arrows):
            continue
        try:
            C.check_graph(g)
            ok = True
        except ValueError:
            ok = False
        if ok != all(o in (0, 1) for a in arrows for o in a):
            ctx.fail('check_graph of %s: %s' % (arrows, ok))
        for w in itertools.product('fgh', repeat=2):
            try:
                C.check_rules([(w, ('f',))], g)
                ok = True
            except ValueError:
                ok = False
            if ok != ('h' not in w and g.arrows[w[0]][1] == g.arrows[w[1]][0]):
                ctx.fail('check_rules of %s in %s: %s' % (w, arrows, ok))
    if ctx.case('function'):
        f = C.Function({1: 2, 3: 4}, [1, 3], [2, 4])
        ctx.eq((f(1), f[3], f.asdict(), f.items(), f.keys(), f.values()), (2, 4, {1: 2, 3: 4}, [(1, 2), (3, 4)], [1, 3], [2, 4]), 'function')
        f = C.Identity([1, 2])
        ctx.eq((f(1), f[2], f.asdict(), f.src, f.tgt), (1, 2, {1: 1, 2: 2}, [1, 2], [1, 2]), 'identity')
