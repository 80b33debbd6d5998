"""Operation histories on mutable bit sets: every sequence up to a depth from several
start layouts, against a Python set with a complement flag."""
LEVEL = 'model_checking'
RULE = ('case = one whole history executed on a fresh mutable bit set, with every return value compared, and after it the '
        'content by all observers and every snapshot, slice, copy and iterator taken on the way; state = distinct '
        '(content, segment count, snapshot contents) reached; transition = one operation executed and compared')
BOUNDS = {'quick': 'all histories of length <= 4 (26 operations, 3 start layouts; <= 3 for 9 more) and <= 4 of the method alphabet',
          'thorough': 'all histories of length <= 5 (12 start layouts up to 4) and <= 5 of the method alphabet'}
ASSUME = ['64-bit words', 'start layouts: empty or five words inserted in different orders with segment splitting sizes 0, 1 and 500']
P = (-70, 3, 5, 64, 200, 300)
PROBES = sorted({p + d for p in P for d in (-1, 0, 1)} | {0, 128, 500})
FULL = (-70, 3, 64, 200, 300)
# the second element is the splitting size; None: the set is made from an immutable one and shares its storage
STARTS = [((), 0), ((3, 64, 300), None), ((3, 300, 64, -70, 200), 0),
          ((-70, 300, 64, 3, 200), 0), ((300, 200, 64, 3, -70), 0), ((-70, 3, 64, 200, 300), 0), ((-70, 3, 64, 200, 300), 500),
          ((64, -70, 300, 3, 200), 0), ((-70, 300, 200, 64, 3), 0), ((-70, 300, 3, 64, 200), 1), ((), 500), ((3, 300, 200, 5, 64, -70), 1)]
VE, IE, TE, OE = 'ValueError', 'IndexError', 'TypeError', 'OverflowError'
OK = None


def fs(*a):
    return frozenset(a)


# An operation is (name, impl, model): impl(m, snaps) returns a value or raises; model(state) gives
# (expected return value, new state, expected snapshot or None).  state = (cpl, frozenset).

def op_add(p):
    def f(m, sn):
        return m.add(p)

    def g(s):
        return None, ((s[0], s[1] - {p}) if s[0] else (s[0], s[1] | {p})), OK
    return 'add %d' % p, f, g


def has(s, p):
    return (p in s[1]) != s[0]


def setto(s, p, on):
    return (s[0], s[1] | {p}) if on != s[0] else (s[0], s[1] - {p})


def op_remove(p):
    def f(m, sn):
        return m.remove(p)

    def g(s):
        return (None, setto(s, p, False), OK) if has(s, p) else (VE, s, OK)
    return 'remove %d' % p, f, g


def op_append(p):
    def f(m, sn):
        return m.append(p)

    def g(s):
        return (VE, s, OK) if has(s, p) else (None, setto(s, p, True), OK)
    return 'append %d' % p, f, g


def op_discard(p):
    def f(m, sn):
        return m.discard(p)

    def g(s):
        return None, setto(s, p, False), OK
    return 'discard %d' % p, f, g


def op_tas(p):
    def f(m, sn):
        return m.tas(p)

    def g(s):
        return has(s, p), setto(s, p, True), OK
    return 'tas %d' % p, f, g


def op_tac(p):
    def f(m, sn):
        return m.tac(p)

    def g(s):
        return has(s, p), setto(s, p, False), OK
    return 'tac %d' % p, f, g


def op_pop(i):
    def f(m, sn):
        return m.pop(i)

    def g(s):
        if s[0] or not s[1]:
            return VE, s, OK
        e = (min if i == 0 else max)(s[1])
        return e, (False, s[1] - {e}), OK
    return 'pop %d' % i, f, g


def op_clear():
    return 'clear', (lambda m, sn: m.clear()), (lambda s: (None, (False, fs()), OK))


def op_iop(o, mk, model, name):
    import operator
    import bs
    jf = {'&': operator.iand, '|': operator.ior, '-': operator.isub, '^': operator.ixor}[o]
    mf = bs.OPS[o]

    def f(m, sn):
        c = m
        c = jf(c, mk(m))
        if c is not m:
            return 'another object'

    def g(s):
        return None, mf(s, model(s)), OK
    return '%s= %s' % (o, name), f, g


def op_snap(kind):
    import bs

    def f(m, sn):
        if kind == 'imm':
            x = bs.immbitset(m)
        elif kind == 'len':
            # a short-lived snapshot whose length and hash were asked for
            x = bs.immbitset(m)
            len(x)
            hash(x)
            return
        elif kind == 'slice2':
            x = m[:2]
        elif kind == 'slice-2':
            x = m[-2:]
        elif kind == 'copy':
            x = m.mutcopy()
        elif kind == 'iter':
            x = iter(m)
        elif kind == 'or':
            x = m | (0,)
        sn.append((kind, x))

    def g(s):
        if kind == 'imm' or kind == 'copy':
            return None, s, (kind, s)
        if kind == 'len':
            return (TE if s[0] else None), s, OK
        if kind == 'iter':
            return (TE, s, OK) if s[0] else (None, s, (kind, s))
        if kind == 'or':
            return None, s, (kind, setto(s, 0, True))
        if s[0]:
            return IE, s, OK
        l = sorted(s[1])
        return None, s, (kind, (False, frozenset(l[:2] if kind == 'slice2' else l[-2:])))
    return 'take ' + kind, f, g


def op_drop():
    def f(m, sn):
        if sn:
            sn.pop(0)
    return 'drop snapshot', f, (lambda s: (None, s, 'drop'))


def alphabet(which):
    import bs
    c = lambda s: (lambda st: (False, frozenset(s)))
    if which == 'struct':
        a = [op_add(p) for p in (-70, 3, 5, 64, 200, 300)]
        a += [op_remove(p) for p in (-70, 3, 64, 300)]
        a += [op_pop(0), op_pop(-1), op_clear()]
        big = bs.mut((3, 300, 64, -70, 200), 0)
        a += [op_iop('|', lambda m: (300, 64), c((300, 64)), '(300,64)'), op_iop('|', lambda m: big, c(FULL), 'five words in segments'),
              op_iop('-', lambda m: big, c(FULL), 'five words in segments'),
              op_iop('&', lambda m: [3, 64, 200], c((3, 64, 200)), '[3,64,200]'),
              op_iop('^', lambda m: bs.ImmBitSet([5, 200, 64]), c((5, 64, 200)), 'imm{5,64,200}'),
              op_iop('^', lambda m: -1, lambda s: (True, fs()), '-1'),
              op_iop('^', lambda m: m, lambda s: s, 'itself'),
              op_iop('|', lambda m: m, lambda s: s, 'itself')]
        a += [op_snap('imm'), op_snap('len'), op_snap('iter'), op_snap('copy'), op_drop()]
        return a
    a = []
    for p in (3, 64):
        a += [op_add(p), op_append(p), op_discard(p), op_remove(p), op_tas(p), op_tac(p)]
    a += [op_pop(0), op_pop(-1), op_clear(), op_iop('^', lambda m: -1, lambda s: (True, fs()), '-1'),
          op_snap('slice2'), op_snap('slice-2'), op_snap('or'), op_snap('copy'), op_drop(),
          op_iop('-', lambda m: ~bs.ImmBitSet([3, 5]), lambda s: (True, fs(3, 5)), 'cpl{3,5}'),
          op_iop('&', lambda m: m, lambda s: s, 'itself'), op_iop('-', lambda m: m, lambda s: s, 'itself')]
    bad = [('add str', lambda m, sn: m.add('x'), lambda s: (TE, s, OK)), ('tas big', lambda m, sn: m.tas(1 << 63), lambda s: (OE, s, OK)),
           ('pop 1', lambda m, sn: m.pop(1), lambda s: (VE if s[0] else IE, s, OK)), ('remove None', lambda m, sn: m.remove(None), lambda s: (TE, s, OK)),
           ('ior None', lambda m, sn: m.__ior__(None), lambda s: (TE, s, OK)), ('[1]', lambda m, sn: m[1], lambda s: (IE, s, OK))]
    return a + bad


def shards(tier):
    out = []
    na, nb = 26, 30
    q = tier == 'quick'
    for i, st in enumerate(STARTS):
        depth = (4 if i < 3 else 3) if q else (5 if i < 12 else 4)
        if i < 3 or not q:
            out += [dict(alpha='struct', start=i, depth=depth, first=f) for f in range(na)]
        else:
            out.append(dict(alpha='struct', start=i, depth=depth, first=None))
    for i in (0, 1, 2):
        out += [dict(alpha='method', start=i, depth=(4 if i == 1 else 3) if q else 5 if i == 1 else 4, first=f) for f in range(nb)]
    if q:
        # interleave so that long and short shards mix
        out = out[::2] + out[1::2]
    return out


def run(shard, ctx):
    import bs
    A = alphabet(shard['alpha'])
    assert len(A) == (26 if shard['alpha'] == 'struct' else 30), len(A)
    order, split = STARTS[shard['start']]
    names = [a[0] for a in A]
    impls = [a[1] for a in A]
    models = [a[2] for a in A]
    memo = {}

    def step(i, s):
        k = (i, s)
        r = memo.get(k)
        if r is None:
            r = memo[k] = models[i](s)
        return r
    view, deep = bs.view, bs.deep_view
    EXC = (ValueError, IndexError, TypeError, OverflowError)
    ntrans = 0

    def leaf(seq, exp, s, snaps):
        if split is None:
            m = bs.MutBitSet(bs.ImmBitSet(order))
        else:
            m = bs.MutBitSet()
            m._splitting_size = split
            for b in order:
                m.add(b)
        sn = []
        for i, e in zip(seq, exp):
            try:
                r = impls[i](m, sn)
            except EXC as x:
                r = type(x).__name__
            if r != e:
                ctx.fail('step %r of %r gave %r, want %r' % (names[i], [names[j] for j in seq], r, e))
                return
        try:
            v = deep(m, PROBES)
            if v != s:
                raise bs.Broken('content %r want %r' % (v, s))
            if len(sn) != len(snaps):
                raise bs.Broken('%d snapshots, want %d' % (len(sn), len(snaps)))
            for (k, x), (k2, w) in zip(sn, snaps):
                if k == 'iter':
                    if list(x) != sorted(w[1]):
                        raise bs.Broken('iterator taken earlier differs from %r' % (sorted(w[1]),))
                    continue
                if view(x, PROBES) != w:
                    raise bs.Broken('%s taken earlier is %r, was %r' % (k, view(x, PROBES), w))
                if k == 'imm' or k[:2] == 'sl':
                    if not x.is_immutable:
                        raise bs.Broken('snapshot is mutable')
                elif k == 'copy':
                    if x.is_immutable:
                        raise bs.Broken('copy is immutable')
        except bs.Broken as x:
            ctx.fail('after %r: %s' % ([names[j] for j in seq], x))
        ctx.state((s, getattr(m, '_num_seg', 0), tuple(snaps)))

    def rec(seq, exp, s, snaps, depth):
        nonlocal ntrans
        if ctx.full:
            return
        if seq and ctx.case([names[j] for j in seq] if ctx.only is not None else seq):
            leaf(seq, exp, s, snaps)
            ntrans += len(seq)
        if not depth:
            return
        for i in range(len(A)):
            e, t, sp = step(i, s)
            if sp is None:
                ns = snaps
            elif sp == 'drop':
                ns = snaps[1:]
            else:
                ns = snaps + (sp,)
            rec(seq + (i,), exp + (e,), t, ns, depth - 1)

    s0 = (False, frozenset(order))
    if shard['first'] is None:
        rec((), (), s0, (), shard['depth'])
    else:
        i = shard['first']
        e, t, sp = step(i, s0)
        rec((i,), (e,), t, () if sp is None or sp == 'drop' else (sp,), shard['depth'] - 1)
    ctx.add('transitions', ntrans)
    ctx.sample({'operations': names, 'start': [order, split]}) if shard['first'] in (None, 0) else 0
