"""Ranges, indexing, slicing, shifting, int and pickle conversions of bit sets."""
import sys
LEVEL = 'exploration'
RULE = ('case = one (low, step) of a range with all high ends, one set with all slices / shifts / conversions, or one extreme '
        'argument tuple; distinct = distinct argument tuples; non-trivial = the resulting set is non-empty or the documented error is due')
BOUNDS = {'quick': 'ranges: low in [-66,66], length up to 200, steps 1..70 and around 127/128/192/1000; all 2^9 subsets of a 9-position '
                   'universe with every slice in [-10,10]; shifts in [-200,200]',
          'thorough': 'ranges: low in [-130,130], length up to 520, steps 1..140; 2^12 subsets'}
ASSUME = ['64-bit words and 64-bit ints', 'reference: Python range, sorted lists and integers']
MAX = sys.maxsize
MIN = -MAX - 1
U9 = (-65, -64, -1, 0, 1, 63, 64, 127, 200)
U12 = (-129, -65, -64, -1, 0, 1, 62, 63, 64, 127, 128, 200)


def shards(tier):
    q = tier == 'quick'
    out = []
    los = list(range(-66, 67)) if q else list(range(-130, 131))
    n = 24 if q else 64
    for i in range(n):
        out.append(dict(what='range', los=los[i::n], span=200 if q else 520,
                        steps=[*range(1, 71), 127, 128, 129, 192, 1000] if q else [*range(1, 141), 191, 192, 193, 256, 1000]))
    for i in range(16):
        out.append(dict(what='conv', u=9 if q else 12, i=i, n=16))
    out += [dict(what='ext'), dict(what='extshift'), dict(what='big'), dict(what='errors')]
    return out


def run(shard, ctx):
    globals()['do_' + shard['what']](shard, ctx)


def do_range(shard, ctx):
    from guppy.sets import immbitrange
    span = shard['span']
    for lo in shard['los']:
        for step in shard['steps']:
            if not ctx.case(lo, step):
                continue
            if ctx.full:
                return
            his = range(lo - 2, lo + span)
            for hi in his:
                b = immbitrange(lo, hi, step)
                w = range(lo, hi, step)
                if list(b) != list(w) or len(b) != len(w):
                    ctx.fail('immbitrange(%d,%d,%d) is %r' % (lo, hi, step, b))
                    break
            else:
                # identical to the set built element-wise, so no stray empty words
                from guppy.sets import ImmBitSet
                c = ImmBitSet(w)
                if not (b == c and hash(b) == hash(c) and b <= c and c <= b and b._indisize == c._indisize if hasattr(b, '_indisize') else b == c and hash(b) == hash(c)):
                    ctx.fail('immbitrange(%d,%d,%d) layout' % (lo, hi, step))
                if step == 1:
                    if lo == 0 and list(immbitrange(hi)) != list(range(hi)) or list(immbitrange(lo, hi)) != list(w):
                        ctx.fail('short forms %d %d' % (lo, hi))
            ctx.add('evaluations', len(his))
            ctx.add('distinct_nontrivial', len(his) - 3)


def safe(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


def do_ext(shard, ctx):
    """Ranges and singletons at both ends of the machine range."""
    from guppy.sets import immbitrange, immbit
    ends = sorted({s + d for s in (MIN, MAX, 0, 64, -64, MIN + 64, MAX - 64, MAX - 63, MIN + 128, MAX - 128)
                   for d in (-3, -2, -1, 0, 1, 2, 3, 62, 63, 64, 65)})
    steps = [1, 2, 3, 5, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 1 << 31, 1 << 32, (1 << 62) - 1, 1 << 62, (1 << 62) + 1, MAX - 1, MAX, MAX + 1, 0, -1, MIN, -64]
    for lo in ends:
        for hi in ends:
            for step in steps:
                if not ctx.case(lo, hi, step):
                    continue
                if ctx.full:
                    return
                ctx.state((lo, hi, step))
                got = safe(lambda: list(immbitrange(lo, hi, step)) if step <= 0 or len3(lo, hi, step) < 3000 else immbitrange(lo, hi, step) and 'big')
                if not all(MIN <= x <= MAX for x in (lo, hi, step)):
                    ok = got == 'OverflowError'
                    want = 'OverflowError'
                elif step <= 0:
                    want = 'ValueError'
                    ok = got == want
                else:
                    n = len3(lo, hi, step)
                    if n < 3000:
                        want = list(range(lo, hi, step))
                        ok = got == want
                    else:
                        want = 'OverflowError'
                        ok = got in ('OverflowError', 'MemoryError') and n >= 1 << 31
                if not ok:
                    ctx.fail('immbitrange(%d,%d,%d): %s want %s' % (lo, hi, step, str(got)[:300], str(want)[:300]))
    for x in ends:
        if ctx.case('bit', x):
            ctx.state(x)
            got = safe(lambda: list(immbit(x)))
            ctx.eq(got, [x] if MIN <= x <= MAX else 'OverflowError', 'immbit(%d)' % x)
            if MIN <= x <= MAX:
                b = immbit(x)
                ctx.eq((x in b, b[0], b[-1], len(b), bool(b)), (True, x, x, 1, True), 'immbit(%d)' % x)
                for d in (1, -1, 64, -64):
                    if MIN <= x + d <= MAX:
                        ctx.eq(x + d in b, False, '%d in immbit(%d)' % (x + d, x))


def len3(lo, hi, step):
    return max(0, (hi - lo + step - 1) // step)


def do_extshift(shard, ctx):
    from guppy.sets import ImmBitSet, MutBitSet
    pts = [MIN, MIN + 1, MIN + 63, MIN + 64, MIN + 65, -1 << 62, -64, -1, 0, 1, 64, 1 << 62, MAX - 64, MAX - 63, MAX - 62, MAX - 1, MAX]
    shifts = sorted(set(pts + [s + d for s in (0, 1 << 62, -1 << 62, MAX, MIN) for d in (-65, -64, -63, -2, -1, 0, 1, 2, 63, 64, 65)]))
    sets = [(p,) for p in pts] + [(p, q) for p in pts for q in pts if p < q]

    class S(ImmBitSet):
        pass
    for s in sets + [()]:
        for k in shifts:
            if not ctx.case(s, k):
                continue
            if ctx.full:
                return
            ctx.state((s, k))
            w = [x + k for x in s]
            want = w if all(MIN <= x <= MAX for x in w + [k]) else 'OverflowError'
            for x, f in ((ImmBitSet(s), list), (MutBitSet(s), list), (S(s), list), (~ImmBitSet(s), lambda r: list(~r))):
                got = safe(lambda: f(x << k))
                if got != want and not (want == 'OverflowError' and not s):
                    ctx.fail('%r << %d: %r want %r' % (x, k, got, want))


def do_conv(shard, ctx):
    import bs
    import copy
    import pickle
    from guppy.sets import ImmBitSet, MutBitSet, immbitset
    U = U9 if shard['u'] == 9 else U12
    probes = sorted({u + d for u in U for d in (-1, 0, 1)})
    subs = sorted(bs.subsets(U), key=lambda s: (len(s), sorted(s)))
    idx = [None] + list(range(-10, 11)) + [MAX, MIN, MAX - 1, -MAX]

    class S(ImmBitSet):
        pass
    for s in subs[shard['i']::shard['n']]:
        if not ctx.case(sorted(s)):
            continue
        if ctx.full:
            return
        ctx.state(s)
        l = sorted(s)
        order = l[::2] + l[1::2]
        forms = [('imm', ImmBitSet(l), False), ('mut', MutBitSet(l), False), ('mut0', bs.mut(order, 0, (700, -700, 90)), False), ('sub', S(l), False),
                 ('cpl', ~ImmBitSet(l), True), ('mutcpl', bs.mut(order, 0, (700, -700), True), True)]
        for fn, x, cpl in forms:
            # indices
            for i in (0, -1):
                got = safe(lambda: x[i])
                want = (l[i] if l else 'IndexError') if not cpl else ('TypeError', 'IndexError')
                if not (got == want or cpl and got in want):
                    ctx.fail('%s[%d] is %r want %r' % (fn, i, got, want))
            # slices: exact, or refused with IndexError; [:], [:n>0], [-n:] are supported
            for a in idx:
                for b in idx:
                    got = safe(lambda: x[a:b])
                    ctx.add('evaluations')
                    if isinstance(got, str) and got in (('IndexError', 'TypeError') if cpl else ('IndexError',)):
                        must = (a in (None, 0) and (b is None or b > 0)) or (b in (None,) and a is not None and a < 0)
                        if must and not cpl:
                            ctx.fail('%s[%r:%r] refused' % (fn, a, b))
                        continue
                    if isinstance(got, str):
                        ctx.fail('%s[%r:%r] gave %r' % (fn, a, b, got))
                        continue
                    if cpl:
                        if not (a in (None, 0) and b in (None, MAX)) or bs.view(got, probes) != (True, s):
                            ctx.fail('%s[%r:%r] gave %r' % (fn, a, b, got))
                        continue
                    if list(got) != l[a:b] or not got.is_immutable or len(got) != len(l[a:b]) or got != ImmBitSet(l[a:b]) or hash(got) != hash(ImmBitSet(l[a:b])):
                        ctx.fail('%s[%r:%r] is %r' % (fn, a, b, got))
            # shifts
            for k in (-200, -129, -128, -127, -65, -64, -63, -2, -1, 0, 1, 2, 63, 64, 65, 127, 128, 129, 200):
                r = x << k
                ctx.add('evaluations')
                v = bs.view(r, [p + k for p in probes])
                if v != (cpl, frozenset(e + k for e in s)) or not r.is_immutable or not r == (~ImmBitSet([e + k for e in l]) if cpl else ImmBitSet([e + k for e in l])):
                    ctx.fail('%s << %d is %r' % (fn, k, r))
            # int
            got = safe(lambda: int(x))
            n = sum(1 << e for e in l) if not l or l[0] >= 0 else None
            want = 'OverflowError' if n is None else ~n if cpl else n
            ctx.eq(got, want, 'int(%s)' % fn)
            if n is not None:
                ctx.eq(bs.view(immbitset(got), probes), (cpl, s), 'immbitset(int(%s))' % fn)
                ctx.eq(bs.view(MutBitSet(got), probes), (cpl, s), 'MutBitSet(int(%s))' % fn)
                if not cpl:
                    ctx.eq(bs.view(ImmBitSet(got), probes), (cpl, s), 'ImmBitSet(int(%s))' % fn)
            # pickle, copy, repr
            for what, f in [('pickle%d' % p, lambda p=p: pickle.loads(pickle.dumps(x, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)] + [
                    ('copy', lambda: copy.copy(x)), ('deepcopy', lambda: copy.deepcopy(x)), ('mutcopy', lambda: x.mutcopy()), ('repr', lambda: eval(repr(x), dict(ImmBitSet=ImmBitSet, MutBitSet=MutBitSet, S=S)))]:
                y = f()
                ctx.add('evaluations')
                try:
                    if bs.deep_view(y, probes) != (cpl, s) or y.is_immutable != (x.is_immutable and what != 'mutcopy') or y != x:
                        ctx.fail('%s of %s is %r' % (what, fn, y))
                    if not y.is_immutable:
                        # the copy is independent
                        y ^= (0,)
                        if bs.view(x, probes) != (cpl, s):
                            ctx.fail('%s of %s shares' % (what, fn))
                except bs.Broken as e:
                    ctx.fail('%s of %s: %s' % (what, fn, e))
            if bs.view(x, probes) != (cpl, s):
                ctx.fail('%s changed to %r' % (fn, x))


def do_big(shard, ctx):
    """Sets beyond the default segment size, filled in several orders."""
    import bs
    from guppy.sets import ImmBitSet, MutBitSet, immbitrange
    for step in (1, 7, 63, 64, 65, 640):
        for n in (499, 500, 501, 1000, 1001, 1003, 4000):
            for order in ('up', 'down', 'mid', 'zig', 'mul'):
                if not ctx.case(step, n, order):
                    continue
                ctx.state((step, n, order))
                l = [i * step for i in range(n)]
                if order == 'down':
                    seq = l[::-1]
                elif order == 'mid':
                    seq = l[n // 2:] + l[:n // 2]
                elif order == 'zig':
                    seq = [x for p in zip(l, l[::-1]) for x in p]
                elif order == 'mul':
                    seq = [l[i * 377 % n] for i in range(n)] + l
                else:
                    seq = l
                m = MutBitSet()
                for x in seq:
                    m.add(x)
                r = immbitrange(0, n * step, step)
                if list(m) != l or list(r) != l or m != r or r != m or not m <= r or len(m) != n:
                    ctx.fail('content')
                s = m[:]
                if s != r or hash(s) != hash(r):
                    ctx.fail('snapshot')
                half = immbitrange(0, n * step, 2 * step)
                m2 = m.mutcopy()
                m2 -= half
                if list(m2) != l[1::2] or list(m) != l or m == m2 or not m2 < m or m <= m2:
                    ctx.fail('difference')
                m2 |= half
                if m2 != m or list(m2) != l:
                    ctx.fail('union')
                m2 &= half
                if m2 != half or list(m2) != l[::2]:
                    ctx.fail('intersection')
                m2 ^= m
                if list(m2) != l[1::2]:
                    ctx.fail('symmetric difference')
                a, b = l[:], []
                for i in range(n):
                    b.append(m.pop(0 if i % 3 else -1))
                    if b[-1] != a.pop(0 if i % 3 else -1):
                        ctx.fail('pop')
                        break
                if m or list(m) or m != ImmBitSet() or s != r:
                    ctx.fail('emptied')


def do_errors(shard, ctx):
    """Unsuitable arguments of every constructor, index and slice."""
    import guppy.sets.setsc as sc
    from guppy.sets import ImmBitSet, MutBitSet, immbitset, immbit, immbitrange
    bad = [None, 1.5, 'x', b'x', [], {}, object(), int, 1 << 63, -(1 << 63) - 1, 1j, slice(1), ()]
    good = [0, 1, -1, MAX, MIN]
    xs = [ImmBitSet(), ImmBitSet([1, 64]), MutBitSet(), MutBitSet([1, 64]), ~ImmBitSet([1])]
    ORD = (TypeError, ValueError, OverflowError, IndexError)

    def t(*desc, f):
        if ctx.case(*desc):
            ctx.state(repr(desc))
            try:
                f()
            except ORD:
                return
            except BaseException as e:
                ctx.fail('%r' % (e,))
                return
            return True
    for i, x in enumerate(xs):
        for j, b in enumerate(bad):
            if t('index', i, j, f=lambda: x[b]) and b not in (slice(1),):
                ctx.fail('index accepted')
            for k, g in enumerate(good + bad):
                for form in ('ab', 'ba', 'step'):
                    sl = slice(b, g) if form == 'ab' else slice(g, b) if form == 'ba' else slice(None, None, b)
                    r = t('slice', i, j, k, form, f=lambda: x[sl])
                    if r and b is not None:
                        ctx.fail('slice %r accepted' % sl)
            if not isinstance(b, int):
                if t('in', i, j, f=lambda: b in x):
                    ctx.fail('in accepted')
            if t('<<', i, j, f=lambda: x << b):
                ctx.fail('<< accepted')
    for fn, f in (('immbit', immbit), ('immbitrange', immbitrange), ('immbitset', immbitset), ('ImmBitSet', ImmBitSet), ('MutBitSet', MutBitSet), ('_bs', sc._bs)):
        for j, b in enumerate(bad):
            t(fn, j, f=lambda: f(b))
            t(fn, j, 'kw', f=lambda: f(arg=b, foo=b))
            for k, c in enumerate(bad + good):
                t(fn, j, k, f=lambda: f(b, c))
                t(fn, k, j, 'r', f=lambda: f(c, b))
                t(fn, k, j, '3', f=lambda: f(c, b, b))
        t(fn, f=f)
        t(fn, 4, f=lambda: f(1, 2, 3, 4))
