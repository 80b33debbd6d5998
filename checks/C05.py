"""Node sets are sets of objects by identity."""
import itertools, gc
import ns
from ns import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of operation histories on the real node sets against an identity-set model'
RULE = ('every operation sequence up to the depth from every initial subset (part ops), every pair of subsets with every '
        'operand kind and operator (part pairs), every finaliser action at every release (part dels); after each step the '
        'content, length, truth, membership and all earlier copies and iterators are compared with the model')
BOUNDS = dict(quick='3 objects, all operations to depth 2 and the core alphabet to depth 3; pairs over 4 objects; 3 finalisers',
              thorough='3 objects, all operations to depth 3, core alphabet to depth 4; pairs over 6 objects')
ASSUME = ['the model is a frozenset of indices', 'CPython object identity and address', 'a snapshot iterator may omit elements removed meanwhile']


def core_ops(n):
    ops = [('pop',), ('clear',), ('iter',), ('imm',)]
    for i in range(n):
        ops += [('add', i), ('remove', i), ('tac', i)]
    for op in INPLACE:
        ops += [(op, 'self', ()), (op, 'mut', (0, n - 1)), (op, 'dup', (0, 1))]
    return ops


def shards(tier):
    out = []
    n = 3
    full = single_ops(n) + inplace_ops(n, OPERANDS)
    core = core_ops(n)
    for k in range(8):
        out.append(dict(part='ops', alpha='full', depth=2 if tier == 'quick' else 3, k=k, of=8) if tier == 'quick' else
                   dict(part='ops', alpha='full', depth=3, k=k, of=8))
        out.append(dict(part='ops', alpha='core', depth=3 if tier == 'quick' else 4, k=k, of=8))
    for k in range(4 if tier == 'quick' else 16):
        out.append(dict(part='pairs', n=4 if tier == 'quick' else 6, k=k, of=4 if tier == 'quick' else 16))
    out.append(dict(part='dels'))
    out.append(dict(part='misc'))
    return out


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def run_ops(shard, ctx):
    n = 3
    U = universe(n)
    alpha = single_ops(n) + inplace_ops(n, OPERANDS) if shard['alpha'] == 'full' else core_ops(n)
    depth = shard['depth']
    inits = subsets(n) if shard['alpha'] == 'core' else [[], [0, 1], [0, 1, 2]]
    if shard['alpha'] == 'full' and depth > 2:
        inits = [[0, 2]]
    firsts = alpha[shard['k']::shard['of']]
    for cls in ((MutNodeSet, SubMut) if depth < 3 else (MutNodeSet,)):
        for init in inits:
            for seq in itertools.product(firsts, *[alpha] * (depth - 1)):
                if not ctx.case(cls.__name__, init, seq):
                    continue
                r = Run(ctx, U, cls, init)
                r.ever = set(init)
                for op in seq:
                    r.step(op)
                    r.ever &= r.want
                    ctx.add('transitions')
                    # prefixes are verified by the sequences that end there, except at depth 1
                    ctx.state((shard['alpha'], tuple(sorted(r.want)), len(r.snaps)))
                r.verify('after %s' % (seq,))
                r.finish()
                if ctx.full:
                    return


def mk(kind, U, idx):
    return operand(kind, U, idx)


def run_pairs(shard, ctx):
    n = shard['n']
    U = universe(n)
    S = subsets(n)
    lk = ['mut', 'imm', 'submut', 'subimm']
    rk = ['mut', 'imm', 'subimm', 'submut', 'list', 'dup', 'gen', 'seq']
    for a in S[shard['k']::shard['of']]:
        for b in S:
            A, B = frozenset(a), frozenset(b)
            for k1 in lk:
                for k2 in rk:
                    if not ctx.case('pair', k1, a, k2, b):
                        continue
                    for op, f in BINARY.items():
                        x, y = mk(k1, U, a), mk(k2, U, b)
                        r = f(x, y)
                        w = MODEL[op](A, B)
                        ctx.check(type(r) is ImmNodeSet, lambda: '%s gives %s' % (op, type(r)))
                        check_view(ctx, r, w, U, 'result of ' + op)
                        check_view(ctx, x, A, U, 'left operand after ' + op)
                        if k2 in ('mut', 'imm', 'submut', 'subimm'):
                            check_view(ctx, y, B, U, 'right operand after ' + op)
                        x, y = mk(k1, U, a), mk(k2, U, b)
                        r = INPLACE[op + '='](x, y) if 'mut' in k1 else BINARY[op](x, y)
                        z = x
                        z2 = mk(k2, U, b)
                        if op == '|':
                            z |= z2 if 'imm' in k1 else ()
                        elif op == '&':
                            z &= z2 if 'imm' in k1 else U
                        elif op == '-':
                            z -= z2 if 'imm' in k1 else ()
                        else:
                            z ^= z2 if 'imm' in k1 else ()
                        check_view(ctx, r, w, U, 'in-place result of ' + op)
                        check_view(ctx, z, w, U, 'assigned result of %s=' % op)
                        if 'imm' in k1:
                            ctx.check(z is not x or w == A, 'immutable operand replaced')
                            check_view(ctx, x, A, U, 'immutable left operand after in-place ' + op)
                        ctx.add('transitions', 3)
                    x, y = mk(k1, U, a), mk(k2, U, b)
                    if k2 in ('mut', 'imm', 'submut', 'subimm'):
                        for op, f in CMP.items():
                            ctx.eq(f(x, y), f(A, B), 'comparison %s' % op)
                        if 'imm' in k1 and 'imm' in k2 and A == B:
                            ctx.eq(hash(x), hash(y), 'hash')
                            ctx.check(len({x, y}) == 1, 'equal sets are different dict keys')
                    else:
                        ctx.eq(x == y, False, '== with a non node set')
                        ctx.eq(x != y, True, '!= with a non node set')
                        for op in ('<', '<=', '>', '>='):
                            ctx.raises(TypeError, CMP[op], x, y)
                        for op, f in BINARY.items():
                            ctx.raises(TypeError, f, mk(k2, U, b), x)
                    ctx.state((tuple(a), tuple(b), k1, k2))
                    if ctx.full:
                        return


def run_misc(shard, ctx):
    U = universe(4)
    for a in subsets(4):
        A = frozenset(a)
        for cls in (ImmNodeSet, SubImm):
            if ctx.case('obj_at', cls.__name__, a):
                s = cls([U[i] for i in a])
                for i, o in enumerate(U):
                    if i in A:
                        ctx.check(s.obj_at(id(o)) is o, 'obj_at')
                    else:
                        ctx.raises(ValueError, s.obj_at, id(o))
                    for d in (-16, -8, -1, 1, 8, 16):
                        if not any(id(p) == id(o) + d for p in U):
                            ctx.raises(ValueError, s.obj_at, id(o) + d)
                ctx.raises(ValueError, s.obj_at, 0)
                ctx.raises(ValueError, s.obj_at, -1)
                ctx.raises(TypeError, s.obj_at, 'x')
                ctx.raises(TypeError, s.obj_at)
                ctx.add('transitions', 30)
                ctx.check(s.is_immutable is True, 'is_immutable')
                t = cls(s)
                check_view(ctx, t, A, U, 'copy')
                for m in ('add', 'append', 'discard', 'remove', 'tas', 'tac', 'pop', 'clear'):
                    ctx.check(not hasattr(s, m), 'immutable set has ' + m)
                it = iter(s)
                ctx.eq(content(it, U), A, 'iterator')
                ctx.raises(StopIteration, next, it)
                ctx.raises(StopIteration, next, it)
        # hiding tags
        t1, t2 = object(), object()
        for tag in (None, t1):
            for tag2 in (None, t1, t2):
                if ctx.case('tag', a, tag is t1, tag2 is t2, tag2 is t1):
                    s = ImmNodeSet([U[i] for i in a], tag) if tag else ImmNodeSet([U[i] for i in a])
                    m = MutNodeSet([U[0], U[3]])
                    if tag2:
                        m._hiding_tag_ = tag2
                    for op, f in BINARY.items():
                        if tag is tag2 or tag is None and tag2 is None:
                            r = f(s, m)
                            check_view(ctx, r, MODEL[op](A, {0, 3}), U, 'tagged ' + op)
                            ctx.check(getattr(r, '_hiding_tag_', None) is tag, 'tag of the result')
                        else:
                            ctx.raises(ValueError, f, s, m)
                        i2 = ImmNodeSet([U[0], U[3]], tag2) if tag2 else ImmNodeSet([U[0], U[3]])
                        r = f(s, i2)
                        check_view(ctx, r, MODEL[op](A, {0, 3}), U, 'tagged imm ' + op)
                        ctx.check(getattr(r, '_hiding_tag_', None) is tag, 'tag of the result')
                    ctx.check(ImmNodeSet(s, t2)._hiding_tag_ is t2, 'retagged copy')
                    check_view(ctx, ImmNodeSet(s, t2), A, U, 'retagged copy')
        for bad in (5, None, object(), 2.5, BadIter()):
            if ctx.case('bad', a, type(bad).__name__):
                e = Boom if isinstance(bad, BadIter) else TypeError
                for cls in (MutNodeSet, ImmNodeSet):
                    ctx.raises(e, cls, bad)
                    s = cls([U[i] for i in a])
                    for op, f in BINARY.items():
                        ctx.raises(e, f, s, bad)
                    check_view(ctx, s, A, U, 'after failures')
                ctx.raises(TypeError, MutNodeSet, [], 1, 2)
                ctx.raises(TypeError, ImmNodeSet, [], None, 2)
                ctx.raises(TypeError, hash, MutNodeSet())
                ctx.raises(TypeError, NodeSet)


# ---- finalisers that use the set they are being released from

class D:
    log = []

    def __init__(self, n, act):
        self.n, self.act = n, act

    def __del__(self):
        D.log.append(self.n)
        self.act(self)


def run_dels(shard, ctx):
    keep = [object() for i in range(4)]

    def acts():
        def nothing(d, s): pass
        def read(d, s): [repr(type(x)) for x in s]; len(s); d in s
        def clear(d, s): s.clear()
        def addmany(d, s): [s.add(k) for k in keep]
        def popall(d, s):
            while s:
                s.pop()
        def empty(d, s): s.__isub__(list(s))
        def andself(d, s): s &= s
        def xorself(d, s): s ^= s
        def resurrect(d, s): GRAVE.append(d)
        def readd(d, s): s.add(d)
        return [nothing, read, clear, addmany, popall, empty, andself, xorself, resurrect, readd]

    rel = dict(clear=lambda s: s.clear(), iand=lambda s: s.__iand__([]), iandk=lambda s: s.__iand__(keep[:1]),
               isub=lambda s: s.__isub__(s), ixor=lambda s: s.__ixor__(s), isubl=lambda s: s.__isub__(ImmNodeSet(s)),
               ixorl=lambda s: s.__ixor__(list(s)), tac=lambda s: [s.tac(x) for x in list(s)], pop=lambda s: [s.pop() for i in range(len(s)) if s],
               discard=lambda s: [s.discard(x) for x in s], dealloc=None)
    GRAVE = []
    for combo in itertools.product(acts(), repeat=2):
        for extra in (0, 60):
            for rn, rf in rel.items():
                for drain in (False, True):
                    if not ctx.case('dels', [a.__name__ for a in combo], extra, rn, drain):
                        continue
                    D.log = []
                    GRAVE.clear()
                    s = MutNodeSet(keep[1:2])
                    dummy = s

                    class Ref:
                        s = dummy
                    objs = [D(i, (lambda d, f=combo[i % 2], R=Ref: f(d, R.s))) for i in range(2 + extra)]
                    for o in objs:
                        s.add(o)
                    n = len(objs)
                    it = iter(s) if drain else None
                    del objs, o
                    if rf is None:
                        Ref.s = MutNodeSet()
                        it = None
                        del s, dummy
                        gc.collect(0)
                        s = Ref.s
                    else:
                        rf(s)
                    if it is not None:
                        for x in it:
                            ctx.check(type(x) in (D, object), 'iterator gave a %s' % type(x))
                        x = it = None
                    inside = list(s)
                    ctx.eq(len(s), len(inside), 'len after finalisers')
                    ctx.check(all(x in s for x in inside), 'membership after finalisers')
                    live = {x.n for x in inside if type(x) is D} | {x.n for x in GRAVE}
                    x = None
                    del inside
                    dead = set(D.log)
                    ctx.check(len(D.log) == len(dead), 'finalised twice')
                    ctx.check(live | dead == set(range(n)) or rn == 'pop', lambda: 'objects neither alive nor finalised: %s' % (set(range(n)) - live - dead))
                    # break the cycle through the closures
                    Ref.s = MutNodeSet()
                    s.clear()
                    GRAVE.clear()
                    dummy = s = None
                    ctx.check(set(D.log) == set(range(n)), lambda: 'leaked: %s' % (set(range(n)) - set(D.log)))
                    ctx.add('transitions')
                    ctx.state(('del', combo[0].__name__, combo[1].__name__, rn, extra))
                    if ctx.full:
                        return
