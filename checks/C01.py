"""Bit-set algebra: all pairs of subsets of a universe that straddles word borders, the
sign and distant words, all operand kinds on both sides, all operators plain and in place."""
import itertools, operator
LEVEL = 'exploration'
RULE = ('case = (left subset, right subset); inside a case every operator is applied to every pair of operand kinds '
        '(immutable, complemented, mutable in several segmentations, mutable complemented, subclasses, int, list, tuple, '
        'dict, set, iterator), plain and in place; distinct = distinct (operator, left model, right model) triples; '
        'a pair is non-trivial when both operands are non-empty')
BOUNDS = {'quick': 'universe of 7 positions over 5 words: all 16384 pairs', 'thorough': 'universe of 10 positions over 6 words: all pairs'}
ASSUME = ['64-bit words', 'the reference is Python frozenset plus a complement flag']
U7 = (-65, -1, 0, 63, 64, 200, 1000)
U10 = (-129, -65, -64, -1, 0, 63, 64, 127, 200, 1000)
OPF = {'&': operator.and_, '|': operator.or_, '-': operator.sub, '^': operator.xor}
IOP = {'&': operator.iand, '|': operator.ior, '-': operator.isub, '^': operator.ixor}


def shards(tier):
    n = 7 if tier == 'quick' else 10
    k = 4 if tier == 'quick' else 6      # first k positions of the left set are fixed by the shard
    return [dict(n=n, k=k, mask=m, what='pairs') for m in range(1 << k)] + [dict(what='bad'), dict(what='conv')]


def run(shard, ctx):
    import bs
    from bs import ImmBitSet, MutBitSet, BitSet, view, OPS, m_not, immbitset
    if shard['what'] == 'bad':
        return bad(ctx)
    if shard['what'] == 'conv':
        return conv(ctx)
    U = U7 if shard['n'] == 7 else U10
    probes = sorted({u + d for u in U for d in (-1, 0, 1)} | {500, -500})
    k, mask = shard['k'], shard['mask']

    class SImm(ImmBitSet):
        pass

    class SMut(MutBitSet):
        pass
    subs = list(bs.subsets(U))
    lefts = [s for s in subs if all((U[i] in s) == bool(mask >> i & 1) for i in range(k))]
    gh = (130, 300, -300)

    def kinds(s):
        """name, model, maker of a fresh operand"""
        l = sorted(s)
        r = l[::-1]
        yield 'imm', (False, s), lambda: ImmBitSet(l)
        yield 'cpl', (True, s), lambda: ~ImmBitSet(l)
        yield 'mut', (False, s), lambda: bs.mut(l)
        yield 'mut0', (False, s), lambda: bs.mut(l[::2] + l[1::2], 0, gh)
        yield 'mutcpl', (True, s), lambda: bs.mut(r, 0, (), True)

    def kinds2(s):
        l = sorted(s)
        yield 'simm', (False, s), lambda: SImm(l)
        yield 'smut', (False, s), lambda: SMut(l)

    def convertibles(s):
        l = sorted(s)
        yield 'list', (False, s), lambda: list(l)
        yield 'iter', (False, s), lambda: iter(l)
        yield 'dup', (False, s), lambda: tuple(l + l)
        yield 'duplist', (False, s), lambda: l + l[:1]
        yield 'dict', (False, s), lambda: dict.fromkeys(l)
        yield 'set', (False, s), lambda: set(l)
        if not l or l[0] >= 0:
            yield 'int', (False, s), lambda: bs.word_index(l)
            yield 'negint', (True, s), lambda: ~bs.word_index(l)

    class DictSub(dict):
        pass
    left_k = {s: list(kinds(s)) + list(kinds2(s)) for s in lefts}
    right_k = {}
    for s in subs:
        right_k[s] = list(kinds(s))
    conv_k = {s: list(convertibles(s)) for s in subs}
    # The operand kinds whose code path is chosen per operand (not per pair) are combined with every
    # set on the other side; the kinds which only pass through a conversion get the 4 plain operators.
    for ls in lefts:
        for rs in subs:
            if not ctx.case(sorted(ls), sorted(rs)):
                continue
            if ctx.full:
                return
            for o, mf in OPS.items():
                pf, jf = OPF[o], IOP[o]
                for ln, lm, lmk in left_k[ls]:
                    for rn, rm, rmk in right_k[rs] + conv_k[rs]:
                        want = mf(lm, rm)
                        ctx.state((o, lm, rm)) if ln in ('imm', 'cpl') and rn in ('imm', 'cpl') and ls and rs else 0
                        isconv = rn not in ('imm', 'cpl', 'mut', 'mut0', 'mutcpl')
                        if ln[0] == 's' and isconv:
                            continue
                        a, b = lmk(), rmk()
                        try:
                            r = pf(a, b)
                            ctx.add('evaluations')
                            if not isinstance(r, BitSet) or not r.is_immutable:
                                raise bs.Broken('result is a %s' % type(r).__name__)
                            g = view(r, probes)
                            if g != want:
                                raise bs.Broken('is %r want %r' % (g, want))
                            if rn != 'iter':
                                if view(a, probes) != lm:
                                    raise bs.Broken('left operand changed to %r' % (view(a, probes),))
                                if isconv:
                                    if b != rmk():
                                        raise bs.Broken('right operand changed to %r' % (b,))
                                elif view(b, probes) != rm:
                                    raise bs.Broken('right operand changed to %r' % (view(b, probes),))
                            # in place
                            b = rmk()
                            c = a
                            c = jf(c, b)
                            if ln in ('mut', 'mut0', 'mutcpl', 'smut'):
                                if c is not a:
                                    raise bs.Broken('in-place result is another object')
                                if c.is_immutable:
                                    raise bs.Broken('in-place result immutable')
                            elif view(a, probes) != lm:
                                raise bs.Broken('immutable left operand changed in place')
                            g = view(c, probes)
                            if g != want:
                                raise bs.Broken('in place is %r want %r' % (g, want))
                            if not isconv and view(b, probes) != rm:
                                raise bs.Broken('right operand changed in place to %r' % (view(b, probes),))
                            # convertible on the left
                            if isconv and ln in ('imm', 'cpl', 'mut0', 'mutcpl'):
                                b = rmk()
                                a = lmk()
                                r = pf(b, a)
                                want2 = mf(rm, lm)
                                if not isinstance(r, BitSet) or not r.is_immutable:
                                    raise bs.Broken('reflected result is a %s' % type(r).__name__)
                                g = view(r, probes)
                                if g != want2:
                                    raise bs.Broken('reflected is %r want %r' % (g, want2))
                                if view(a, probes) != lm:
                                    raise bs.Broken('operand changed by reflected operator')
                        except bs.Broken as e:
                            ctx.fail('%s%r %s %s%r: %s' % (ln, lm, o, rn, rm, e))
                        except Exception as e:
                            ctx.fail('%s%r %s %s%r: raised %r' % (ln, lm, o, rn, rm, e))
            if rs == ls:
                unary(ctx, bs, left_k[ls], probes)


def unary(ctx, bs, kinds, probes):
    """Complement and self-application."""
    for ln, lm, lmk in kinds:
        a = lmk()
        r = ~a
        try:
            if bs.deep_view(r, probes) != bs.m_not(lm) or not r.is_immutable:
                raise bs.Broken('~ is %r' % (bs.view(r, probes),))
            if bs.deep_view(~~a, probes) != lm or bs.deep_view(a, probes) != lm:
                raise bs.Broken('~~ or operand')
            for o, mf in bs.OPS.items():
                a = lmk()
                if bs.view(OPF[o](a, a), probes) != mf(lm, lm):
                    raise bs.Broken('x %s x' % o)
                b = a
                b = IOP[o](b, b)
                if bs.view(b, probes) != mf(lm, lm):
                    raise bs.Broken('x %s= x is %r' % (o, bs.view(b, probes)))
            ctx.add('evaluations')
        except bs.Broken as e:
            ctx.fail('%s%r: %s' % (ln, lm, e))


def bad(ctx):
    """Operands that do not convert."""
    import bs
    U = (-1, 0, 64)
    probes = (-2, -1, 0, 1, 63, 64, 65, 500)

    class BadIter:
        def __iter__(self):
            yield 0
            raise KeyError('x')

    class IntSub(int):
        pass
    bads = [('none', lambda: None, TypeError), ('float', lambda: 1.5, TypeError), ('str', lambda: 'ab', TypeError),
            ('obj', lambda: object(), TypeError), ('list-str', lambda: [0, 'a'], TypeError),
            ('tuple-float', lambda: (0, 1.0), TypeError), ('dict-str', lambda: {0: 1, 'a': 2}, TypeError),
            ('set-none', lambda: {None}, TypeError), ('big', lambda: [0, 1 << 63], OverflowError),
            ('nbig', lambda: (0, -(1 << 63) - 1), OverflowError), ('dbig', lambda: {0: 1, 1 << 64: 2}, OverflowError),
            ('gen-big', lambda: iter([0, 1 << 63]), OverflowError),
            ('baditer', BadIter, KeyError), ('nested', lambda: [[0]], TypeError), ('type', lambda: int, TypeError)]
    for s in bs.subsets(U):
        for kn, m, mk in (('imm', (False, s), lambda: bs.ImmBitSet(s)), ('cpl', (True, s), lambda: ~bs.ImmBitSet(s)),
                          ('mut', (False, s), lambda: bs.mut(s, 0, (300,))), ('mutcpl', (True, s), lambda: bs.mut(s, 0, (), True))):
            for bn, bmk, exc in bads:
                for o in OPF:
                    for form in ('plain', 'reflected', 'inplace'):
                        if not ctx.case(kn, sorted(s), o, bn, form):
                            continue
                        ctx.state((kn, s, o, bn, form))
                        a, b = mk(), bmk()
                        try:
                            if form == 'plain':
                                r = OPF[o](a, b)
                            elif form == 'reflected':
                                if bn == 'type' and o == '|':
                                    raise TypeError
                                r = OPF[o](b, a)
                            else:
                                c = a
                                r = IOP[o](c, b)
                        except exc:
                            pass
                        except BaseException as e:
                            ctx.fail('raised %r, want %r' % (e, exc))
                        else:
                            ctx.fail('returned %r' % (r,))
                        # an in-place union or difference may have merged the item read before the bad one
                        ok = [m]
                        if form == 'inplace' and o in '|-' and kn in ('mut', 'mutcpl'):
                            ok.append(bs.OPS[o](m, (False, frozenset([0]))))
                        ctx.check(bs.view(a, probes) in ok, lambda: 'operand after failed operation: %r' % (bs.view(a, probes),))


def conv(ctx):
    """Shape of the constructors on small inputs, singletons, immutability of shared values."""
    import bs
    probes = sorted({u + d for u in U10 for d in (-1, 0, 1)})
    for s in bs.subsets(U10[2:8]):
        for cpl in (0, 1):
            if not ctx.case(sorted(s), cpl):
                continue
            ctx.state((s, cpl))
            x = bs.ImmBitSet(s)
            if cpl:
                x = ~x
            m = (bool(cpl), s)
            ctx.eq(bs.deep_view(x, probes), m, 'imm')
            mt = x.mutcopy()
            ctx.eq(bs.deep_view(mt, probes), m, 'mutcopy')
            ctx.eq(bs.deep_view(bs.MutBitSet(x), probes), m, 'MutBitSet(x)')
            ctx.eq(bs.deep_view(immbs(x), probes), m, 'immbitset(x)')
            ctx.eq(bs.deep_view(immbs(mt), probes), m, 'immbitset(mut)')
            mt ^= x
            ctx.eq(bs.deep_view(mt, probes), (False, frozenset()), 'x^=x')
            if cpl:
                ctx.raises(TypeError, bs.ImmBitSet, x)
                ctx.raises(TypeError, bs.ImmBitSet, x.mutcopy())
            else:
                ctx.eq(bs.deep_view(bs.ImmBitSet(mt | x), probes), m, 'ImmBitSet')


def immbs(x):
    from guppy.sets import immbitset
    return immbitset(x)
