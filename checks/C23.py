"""Running out of memory raises MemoryError and corrupts nothing."""
import array, gc, sys, types
import faultlib
fault = faultlib.load()
import ops
from ops import OPS, POOL, MutBitSet, MutNodeSet

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive fault injection into the real implementation: every allocation of every operation fails, alone, in intervals and in pairs, with a ledger of references and of allocated blocks'
RULE = ('for every operation of a catalogue covering the entry points of both compiled modules on small operands: the number n of allocations it makes is counted, then '
        'it is run with every interval [a, b) of them failing, with all from a on failing, and with every two of them failing; the outcome, the operands, a retry with memory, '
        'the use of the operands for other operations, the reference counts of the elements and the number of allocated blocks are compared with the run without failures')
BOUNDS = dict(quick='some 2430 operations; every allocation alone and from there on; every interval for those with at most 150 allocations, every pair for those with at most 60',
              thorough='every interval and every pair for all operations')
ASSUME = ['the allocations made by the interpreter itself on behalf of the operation also fail',
          'in-place operations that take an iterable or several edges may have done a part of it']

HUGE = 1 << 40

# Objects and blocks released twice or used after their release are found by the debug allocator.
ENV = dict(PYTHONMALLOC='debug')


def shards(tier):
    n = 48
    return [[i, n] for i in range(n)]


def refs():
    return [sys.getrefcount(o) for o in POOL]


def outcome(c, f):
    """Call f, and give what happened in a comparable form."""
    try:
        r = f()
    except Exception as e:
        e.__traceback__ = None
        return ('exc', type(e).__name__)
    try:
        return ('ok', c.norm(r))
    finally:
        del r


def run(shard, ctx):
    gc.disable()
    gc.collect()
    gc.freeze()
    i, n = shard
    for name in list(OPS)[i::n]:
        run_op(name, OPS[name], ctx)
        if ctx.full:
            return


def fill():
    """Fill the interpreter's free lists, which take up what was not allocated from them."""
    a = [[] for i in range(100)]
    a = [{} for i in range(100)]
    for n in range(1, 20):
        a = [(0,) * (n - n + n) for i in range(4)]


def run_op(name, make, ctx):
    c = make()
    if c is None:
        return
    c = None
    fill()
    for i in range(3):          # (warms up the free lists)
        c = make()
        want = outcome(c, lambda: fault.call(HUGE, HUGE, c.f, c.args, c.kw))
        n = fault.last()[0]
        new = c.values()
        fixed = c.fixed()
        c = None
    c = make()
    old = c.values()
    ctx.add('operations')
    ctx.add('allocations', n)
    python = isinstance(c.f, types.FunctionType)
    c = None
    gc.collect()
    for a, b, also in plans(n, ctx.tier):
        if python and also >= 0:
            continue        # (the interpreter loses the exception when it cannot make a frame for the traceback)
        if ctx.case(name, a, b if b != HUGE else 'on', also):
            one(name, make, a, b, also, ctx, want, old, new, fixed)
            if ctx.full:
                return


WINDOW = dict(quick=150, thorough=10**9)
PAIR = dict(quick=60, thorough=10**9)


def plans(n, tier):
    """The allocations that fail: from a on until before b, and one more."""
    for a in range(n):
        yield a, HUGE, -1
        for b in range(a + 1, n + 1 if n <= WINDOW[tier] else a + 2):
            yield a, b, -1
    if n <= PAIR[tier]:
        # (what follows a failure may allocate more than it did without)
        for a in range(n):
            for also in range(a + 2, n + 2):
                yield a, a + 1, also


def one(name, make, a, b, also, ctx, want, old, new, fixed):
    live = array.array('l', [0] * 200)        # (whose items are no objects)
    for rep in range(3):
        attempt(name, make, a, b, also, ctx, want, old, new, fixed, rep)
        live[rep] = fault.live()
    if live[0] < live[1] < live[2]:
        # until the free lists of the interpreter are full
        for rep in range(3, 200):
            attempt(name, make, a, b, also, ctx, want, old, new, fixed, 1)
            live[rep] = fault.live()
            if not live[rep - 1] < live[rep]:
                return
        ctx.fail('blocks are leaked: %r' % [y - x for x, y in zip(live, live[1:])][-8:])


def attempt(name, make, a, b, also, ctx, want, old, new, fixed, rep):
    base = refs()
    c = make()
    out = outcome(c, lambda: fault.call(a, b, c.f, c.args, c.kw, also))
    hit = fault.last()[1]
    after = c.values()
    if rep == 0:
        ctx.add('failures', hit)
        if out[0] == 'exc':
            ctx.add('raised')
    ctx.check(c.fixed() == fixed, lambda: 'an operand that is not changed by it has changed: %r, was %r' % (c.fixed(), fixed))
    if not hit or out[0] == 'ok':
        ctx.check(out == want, lambda: 'result %r, want %r' % (out, want))
        ctx.check(after == new, lambda: 'operands afterwards %r, want %r' % (after, new))
    elif out == ('exc', 'MemoryError'):
        if rep:
            for x in c.changes:
                exercise(x, ctx)
        elif after == old:
            out = outcome(c, lambda: c.f(*c.args, **(c.kw or {})))
            ctx.check(out == want, lambda: 'result when tried again %r, want %r' % (out, want))
            ctx.check(c.values() == new, lambda: 'operands when tried again %r, want %r' % (c.values(), new))
        if after == old or after == new:
            pass
        elif c.partial:
            ctx.check(between(old, after, new), lambda: 'operands %r, neither %r nor %r nor a part' % (after, old, new))
        else:
            ctx.fail('operands %r, neither %r nor %r' % (after, old, new))
    else:
        ctx.check(out == want and after == new, lambda: 'raised %r (want %r)' % (out, want))
    c = None
    gc.collect()        # (also empties the free lists)
    sys._clear_type_cache()     # (which keeps the names that were looked up)
    if refs() != base:
        now = refs()
        ctx.check(now == base, lambda: 'references to the objects: %r' % [(i, y - x) for i, (x, y) in enumerate(zip(base, now)) if x != y])


BIT = (0, 63, -1, 64 * 41, -10**9)


def exercise(x, ctx):
    """What is left of an operand is as good as one that was made with these elements."""
    t = type(x)
    if t is MutBitSet:
        v = ops.norm(x)
        neg, s = '~' in v, set(v[-1])
        for b in BIT:
            x.add(b)
            (s.discard if neg else s.add)(b)
        for b in BIT[1:] + tuple(sorted(s))[::3]:
            x.discard(b)
            (s.add if neg else s.discard)(b)
        x ^= [1, 2, 3, 1000]
        s ^= {1, 2, 3, 1000}
        v = ops.norm(x)
        ctx.check(('~' in v, set(v[-1]), len(v[-1])) == (neg, s, len(s)), lambda: 'used further: %r, want %r' % (v, sorted(s)))
        if not neg:
            got = []
            while x:
                got.append(x.pop(len(got) % 2 - 1))
                if len(got) > len(s):
                    break
            ctx.check(sorted(got) == sorted(s), lambda: 'emptied by pop: %r, want %r' % (got, sorted(s)))
    elif t is MutNodeSet:
        s = set(map(id, x))
        for o in POOL[::2]:
            ctx.check(x.tas(o) == (id(o) in s), lambda: 'tas(%d) of %r' % (o.n, s))
            s.add(id(o))
        for o in POOL[::3]:
            ctx.check(x.tac(o) == (id(o) in s), lambda: 'tac(%d) of %r' % (o.n, s))
            s.discard(id(o))
        x ^= POOL[:5]
        s ^= set(map(id, POOL[:5]))
        ctx.check(sorted(map(id, x)) == sorted(s) and len(x) == len(s), lambda: 'used further: %r' % (x,))
        x.clear()
        ctx.check(not x and list(x) == [], lambda: 'not empty when cleared')
    elif t is ops.NodeGraph and not x.is_mapping:
        e = ops.edges(x)
        x.add_edge(POOL[0], POOL[1])
        x.add_edges_n1(POOL[4:7], POOL[2])
        x.add_edge(POOL[0], POOL[1])
        e += [(POOL[0], POOL[1])] + [(o, POOL[2]) for o in POOL[4:7]]
        ids = sorted(set([(id(a), id(b)) for a, b in e]))
        for o in POOL[:8]:
            got, exp = sorted(map(id, x[o])), [b for a, b in ids if a == id(o)]
            ctx.check(got == exp, lambda: 'used further: [%d] gives %r, want %r' % (o.n, got, exp))
        got = sorted([(id(a), id(b)) for a, b in x])
        ctx.check(got == ids, lambda: 'used further: edges %r, want %r' % (got, ids))
        del e
        x.clear()
        ctx.check(list(x) == [] and not len(x[POOL[0]]), lambda: 'not empty when cleared')


def between(old, after, new):
    for o, x, n in zip(old, after, new):
        o, x, n = set(o[-1]), set(x[-1]), set(n[-1])
        if not o & n <= x <= o | n:
            return False
    return True
