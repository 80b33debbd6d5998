"""Comparisons and hashing of bit sets over all internal layouts."""
import itertools, operator
LEVEL = 'exploration'
RULE = ('case = one left set in one internal layout (insertion order x segment size x which bits were removed again, '
        'complemented or not, or immutable), compared with all six operators against every right set in every layout of the '
        'right-hand family; distinct = distinct (left value, right value) pairs and layouts; all are non-trivial')
BOUNDS = {'quick': '4 words, all 24 insertion orders, splitting sizes 0/500, all removals and pops; several-bit-per-word immutables',
          'thorough': '5 words, all 120 insertion orders, splitting sizes 0/1/500, all removals and pops'}
ASSUME = ['64-bit words', 'reference: inclusion of Python frozensets with a complement flag over an infinite universe']
CMP = {'==': operator.eq, '!=': operator.ne, '<=': operator.le, '<': operator.lt, '>=': operator.ge, '>': operator.gt}
WORDS = (-70, 3, 64, 200, 300)


def shards(tier):
    k = 4 if tier == 'quick' else 5
    out = []
    for i, p in enumerate(itertools.permutations(range(k))):
        if tier == 'quick':
            out.append(dict(what='layout', k=k, perm=p, split=(0, 500)))
        else:
            out.append(dict(what='layout', k=k, perm=p, split=(0, 1, 500)))
    for i in range(16):
        out.append(dict(what='imm', k=16 if tier == 'thorough' else 8, i=i))
    out.append(dict(what='other'))
    out.append(dict(what='hash'))
    return out


def want(o, a, b, bs):
    if o == '==':
        return a == b
    if o == '!=':
        return a != b
    if o == '<=':
        return bs.m_le(a, b)
    if o == '<':
        return bs.m_le(a, b) and a != b
    if o == '>=':
        return bs.m_le(b, a)
    return bs.m_le(b, a) and a != b


def table(models, bs):
    """pairs of models -> tuple of six answers"""
    t = {}
    for a in models:
        for b in models:
            t[a, b] = tuple(want(o, a, b, bs) for o in CMP)
    return t


def layouts(bs, bits, perm, split, small=False):
    """Every mutable bit set got by adding all bits in the order perm, removing a subset, popping
    some from both ends and adding one back."""
    order = [bits[i] for i in perm]
    for s in split:
        for gone in bs.subsets(bits):
            left = sorted(set(bits) - gone)
            for low in range(len(left) + 1):
                for high in range(len(left) + 1 - low):
                    rest = left[low:len(left) - high]
                    out = sorted(set(bits) - set(rest))
                    for back in [None] + (out[:1] + out[-1:] if not small and low + high else []):
                        for late in (False, True):
                            if late and (small or not gone):
                                continue
                            for cpl in (False, True):
                                m = bs.MutBitSet()
                                m._splitting_size = s
                                for b in order:
                                    m.add(b)
                                if late:                      # remove by an in-place operation instead of one by one
                                    m -= sorted(gone)
                                else:
                                    for b in sorted(gone):
                                        m.remove(b)
                                for i in range(low):
                                    m.pop(0)
                                for i in range(high):
                                    m.pop()
                                if back is not None:
                                    m.add(back)
                                if cpl:
                                    m ^= -1
                                yield (cpl, frozenset(rest if back is None else rest + [back])), (s, sorted(gone), low, high, back, late, cpl), m


def run(shard, ctx):
    import bs
    w = shard['what']
    if w == 'other':
        return other(ctx, bs)
    if w == 'hash':
        return hashes(ctx, bs)
    if w == 'imm':
        return imm(ctx, bs, shard)
    bits = WORDS[:shard['k']]
    models = [(c, s) for s in bs.subsets(bits) for c in (False, True)]
    t = table(models, bs)
    rights = []
    for m in models:
        x = bs.ImmBitSet(m[1])
        rights.append((m, 'imm', ~x if m[0] else x))
    # the right-hand family: layouts of a few characteristic insertion orders
    k = len(bits)
    perms = list(itertools.permutations(range(k))) if k <= 4 else [p for p in itertools.permutations(range(k)) if p[0] in (0, k - 1)]
    for p in perms[::1 if k <= 4 else 7]:
        for m, d, x in layouts(bs, bits, p, shard['split'][:1], True):
            # removal by pops only, or by remove only
            if not (d[1] and (d[2] or d[3])):
                rights.append((m, (p, d), x))
    fs = list(CMP.values())
    names = list(CMP)
    for m, d, x in layouts(bs, bits, shard['perm'], shard['split']):
        if not ctx.case(shard['perm'], d):
            continue
        if ctx.full:
            return
        ctx.state((m, repr(d), getattr(x, '_num_seg', 0)))
        for rm, rd, y in rights:
            e = t[m, rm]
            got = (x == y, x != y, x <= y, x < y, x >= y, x > y)
            if got != e:
                ctx.fail('mut%r vs %r%r: %r want %r' % (m, rd, rm, dict(zip(names, got)), dict(zip(names, e))))
                break
            if rd == 'imm':
                e2 = t[rm, m]
                got = (y == x, y != x, y <= x, y < x, y >= x, y > x)
                if got != e2:
                    ctx.fail('%r%r vs mut%r: %r want %r' % (rd, rm, m, dict(zip(names, got)), dict(zip(names, e2))))
                    break
        ctx.add('evaluations', 6 * len(rights))
        if (x == x, x <= x, x < x, x != x) != (True, True, False, False):
            ctx.fail('comparison with itself')
        if bs.view(x, [p + q for p in bits for q in (-1, 0, 1)]) != m:
            ctx.fail('comparison changed the set')


def imm(ctx, bs, shard):
    """Immutable pairs with several bits per word and words missing on either side."""
    U = (-65, -64, -1, 0, 1, 63, 64, 130) if shard['k'] == 8 else (-130, -65, -64, -1, 0, 1, 63, 64, 65, 130)
    models = [(c, s) for s in bs.subsets(U) for c in (False, True)]
    objs = []
    for m in models:
        x = bs.ImmBitSet(m[1])
        objs.append((m, ~x if m[0] else x))
    from bs import m_le
    for m, x in objs[shard['i']::16]:
        if not ctx.case(m):
            continue
        if ctx.full:
            return
        a = m[1]
        h = hash(x)
        for rm, y in objs:
            le = (m[1] <= rm[1] if not rm[0] else not (m[1] & rm[1])) if not m[0] else (rm[0] and rm[1] <= m[1])
            ge = (rm[1] <= m[1] if not m[0] else not (rm[1] & m[1])) if not rm[0] else (m[0] and m[1] <= rm[1])
            eq = m == rm
            if (x == y, x != y, x <= y, x < y, x >= y, x > y) != (eq, not eq, le, le and not eq, ge, ge and not eq):
                ctx.fail('%r vs %r' % (m, rm))
                break
            if eq and hash(y) != h:
                ctx.fail('hash of equal %r' % (m,))
        ctx.add('evaluations', 6 * len(objs))
        ctx.state(m)


def hashes(ctx, bs):
    """Equal immutable sets made in different ways hash alike and serve as dict keys; mutable ones do not hash."""
    import pickle
    U = (-65, -1, 0, 63, 64, 130)

    class S(bs.ImmBitSet):
        pass
    for s in bs.subsets(U):
        if not ctx.case(sorted(s)):
            continue
        ctx.state(s)
        l = sorted(s)
        ms = [bs.mut(p, sp, g) for p in (l, l[::-1], l[::2] + l[1::2]) for sp in (0, 1, 500) for g in ((), (300, -300), (65, 131, 1, 700))]
        xs = [bs.ImmBitSet(l), bs.immbitset(l), bs.ImmBitSet(iter(l)), S(l), bs.ImmBitSet(l + [900]) - [900],
              (bs.ImmBitSet(l) << 64) << -64, (bs.ImmBitSet(l) << 3) << -3, pickle.loads(pickle.dumps(bs.ImmBitSet(l))),
              ~~bs.ImmBitSet(l), bs.ImmBitSet(l) ^ [5000] ^ [5000]]
        xs += [bs.ImmBitSet(m) for m in ms] + [bs.immbitset(m) for m in ms] + [S(m) for m in ms]
        xs += [m[:] for m in ms] + [m | [] for m in ms]
        # Whatever was asked of one of them before
        used = []
        for ask in (len, bool, list, repr, int, pickle.dumps, lambda x: x in x, lambda x: x & [0], lambda x: x[:2], lambda x: ~x, lambda x: bs.MutBitSet(x).add(7)):
            for x in (bs.ImmBitSet(l), bs.mut(l, 500, ())[:]):
                try:
                    ask(x)
                except (TypeError, OverflowError, ValueError):
                    pass
                used.append(x)
        xs += used
        for x in xs:
            for y in xs:
                if not (x == y and hash(x) == hash(y) and not x != y and x <= y and not x < y):
                    ctx.fail('equal sets %r %r' % (x, y))
        ctx.add('evaluations', len(xs) ** 2)
        ctx.eq(len(dict.fromkeys(xs)), 1, 'distinct dict keys')
        cs = [~x for x in xs]
        ctx.eq(len(dict.fromkeys(cs)), 1, 'distinct complemented dict keys')
        for m in ms:
            ctx.raises(TypeError, hash, m)
            if any(m != x or not m == x for x in xs):
                ctx.fail('mutable differs')
            if any(m == x for x in cs):
                ctx.fail('equals complement')
        cm = [bs.mut(l, sp, g, True) for sp in (0, 500) for g in ((), (300, -300))]
        for m in cm:
            if any(m != x or not (x == m) for x in cs):
                ctx.fail('complemented mutable differs')


def other(ctx, bs):
    """Comparison with things that are not bit sets."""
    U = (0, 64)
    outs = [None, 0, 1, 1.5, 'x', [], [0], (0,), {0}, frozenset(), {}, object(), int]
    for s in bs.subsets(U):
        for kn, x in (('imm', bs.ImmBitSet(s)), ('cpl', ~bs.ImmBitSet(s)), ('mut', bs.mut(s)), ('mutcpl', bs.mut(s, cpl=True))):
            for i, o in enumerate(outs):
                for name, f in CMP.items():
                    if not ctx.case(kn, sorted(s), i, name):
                        continue
                    ctx.state((kn, s, i, name))
                    for a, b in ((x, o), (o, x)):
                        try:
                            r = f(a, b)
                        except TypeError:
                            continue
                        # identity-based default comparison is fine; a claim of relation is not
                        if name == '!=':
                            ctx.check(r is True, 'not equal is %r' % (r,))
                        else:
                            ctx.check(r is False, '%s is %r' % (name, r))
