"""Exhaustive operation histories over node sets, with an identity-set model and
(optionally) a reference ledger."""
import sys, gc
from guppy.sets import MutNodeSet, ImmNodeSet, NodeSet


class HostileError(Exception):
    pass


class H(object):
    """An object whose __eq__, __hash__ and __bool__ must never be used."""
    __slots__ = ('n',)

    def __eq__(self, other):
        raise HostileError('eq')
    __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__

    def __hash__(self):
        raise HostileError('hash')

    def __bool__(self):
        raise HostileError('bool')
    __len__ = __bool__

    def __repr__(self):
        return 'H%d' % self.n


class SubMut(MutNodeSet):
    pass


class SubImm(ImmNodeSet):
    pass


def universe(n):
    """n objects: two in the same 64-bit field of the address bit set, one in another
    field, one far away, then more of the same."""
    pool = [H() for i in range(4000)]
    spacer = [bytearray(1 << 20) for i in range(3)]
    pool += [H() for i in range(4000)]
    pool.sort(key=id)
    w = lambda o: id(o) // 8 // 64
    pick = []
    for i in range(len(pool) - 1):
        if w(pool[i]) == w(pool[i + 1]):
            pick = [pool[i], pool[i + 1]]
            break
    rest = [o for o in pool if w(o) != w(pick[0])]
    pick.append(rest[0])
    pick.append(rest[-1])
    near = [o for o in pool if w(o) == w(rest[-1]) and o is not rest[-1]] + rest[len(rest) // 2:]
    for o in near:
        if len(pick) >= n:
            break
        if not any(o is p for p in pick):
            pick.append(o)
    pick = pick[:n]
    for i, o in enumerate(pick):
        o.n = i
    assert len(pick) == n
    return pick


class Boom(Exception):
    pass


def gen(items, fail=None):
    for i, x in enumerate(items):
        if i == fail:
            raise Boom(i)
        yield x
    if fail is not None and fail >= len(items):
        raise Boom(len(items))


class BadIter:
    def __iter__(self):
        raise Boom('iter')


class Aliased:
    """Iterable handing out fresh iterators."""
    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


def subsets(n):
    return [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]


OPERANDS = ['mut', 'imm', 'list', 'dup', 'gen', 'seq', 'fail']


def operand(kind, U, idx):
    xs = [U[i] for i in idx]
    if kind == 'mut':
        return MutNodeSet(xs)
    if kind == 'submut':
        return SubMut(xs)
    if kind == 'imm':
        return ImmNodeSet(xs)
    if kind == 'subimm':
        return SubImm(xs)
    if kind == 'list':
        return xs[::-1]
    if kind == 'dup':
        return xs + xs[:1] + xs
    if kind == 'gen':
        return gen(xs)
    if kind == 'seq':
        return Aliased(xs)
    if kind == 'fail':
        return gen(xs, len(xs))
    raise KeyError(kind)


INPLACE = {'|=': lambda s, o: s.__ior__(o), '&=': lambda s, o: s.__iand__(o),
           '^=': lambda s, o: s.__ixor__(o), '-=': lambda s, o: s.__isub__(o)}
BINARY = {'|': lambda s, o: s | o, '&': lambda s, o: s & o, '^': lambda s, o: s ^ o, '-': lambda s, o: s - o}
MODEL = {'|': lambda a, b: a | b, '&': lambda a, b: a & b, '^': lambda a, b: a ^ b, '-': lambda a, b: a - b}
CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b,
       '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


def content(s, U):
    """Elements of s as indices in U, read by iteration; None for a stranger or repeat."""
    ids = {id(o): i for i, o in enumerate(U)}
    out = []
    for x in s:
        i = ids.get(id(x))
        if i is None or i in out:
            return None
        out.append(i)
    return frozenset(out)


def check_view(ctx, s, want, U, what):
    got = content(s, U)
    ok = ctx.check(got == want, lambda: '%s: contains %s, want %s' % (what, got, sorted(want)))
    ok &= ctx.check(len(s) == len(want), lambda: '%s: len %d, want %d' % (what, len(s), len(want)))
    ok &= ctx.check(bool(s) is bool(want), lambda: '%s: bool %s' % (what, bool(s)))
    mem = frozenset(i for i, o in enumerate(U) if o in s)
    ok &= ctx.check(mem == want, lambda: '%s: membership says %s, want %s' % (what, sorted(mem), sorted(want)))
    return ok


def single_ops(n):
    ops = [('pop',), ('clear',), ('iter',), ('imm',), ('copy',)]
    for i in range(n):
        for m in ('add', 'append', 'discard', 'remove', 'tas', 'tac'):
            ops.append((m, i))
    return ops


def inplace_ops(n, kinds):
    ops = []
    for op in INPLACE:
        for k in kinds:
            for sub in subsets(n):
                ops.append((op, k, tuple(sub)))
        ops.append((op, 'self', ()))
        ops.append((op, 'int', ()))
        ops.append((op, 'baditer', ()))
    return ops


class Run:
    """One history on one mutable node set."""

    def __init__(self, ctx, U, cls=MutNodeSet, init=()):
        self.ctx, self.U = ctx, U
        self.s = cls([U[i] for i in init])
        self.want = frozenset(init)
        self.snaps = []      # (kind, object, frozenset)

    def step(self, op):
        ctx, U, s, want = self.ctx, self.U, self.s, self.want
        name = op[0]
        if name in ('add', 'discard', 'append', 'remove', 'tas', 'tac'):
            i = op[1]
            x = U[i]
            had = i in want
            if name in ('append',) and had or name == 'remove' and not had:
                ctx.raises(ValueError, getattr(s, name), x)
            else:
                r = getattr(s, name)(x)
                ctx.check(r is (had if name in ('tas', 'tac') else None), lambda: '%s returned %r' % (op, r))
            self.want = want | {i} if name in ('add', 'append', 'tas') else want - {i}
        elif name == 'pop':
            if want:
                x = s.pop()
                i = [k for k, o in enumerate(U) if o is x]
                ctx.check(len(i) == 1 and i[0] in want, lambda: 'pop gave %s, not an element of %s' % (i, sorted(want)))
                del x
                self.want = want - set(i)
            else:
                ctx.raises(ValueError, s.pop)
        elif name == 'clear':
            ctx.check(s.clear() is None, 'clear() result')
            self.want = frozenset()
        elif name == 'iter':
            it = iter(s)
            self.snaps.append(('iter', it, want))
        elif name == 'imm':
            self.snaps.append(('imm', ImmNodeSet(s), want))
        elif name == 'copy':
            self.snaps.append(('mut', MutNodeSet(s), want))
        else:
            op0, kind, sub = op
            b = frozenset(sub)
            if kind == 'self':
                r = INPLACE[op0](s, s)
                b = want
            elif kind == 'int':
                ctx.raises(TypeError, INPLACE[op0], s, 17)
                return
            elif kind == 'baditer':
                ctx.raises(Boom, INPLACE[op0], s, BadIter())
                return
            else:
                o = operand(kind, U, sub)
                if kind == 'fail':
                    ctx.raises(Boom, INPLACE[op0], s, o)
                    # what was read before the error may have been merged, nothing else
                    full = MODEL[op0[0]](want, b)
                    got = content(s, U)
                    ctx.check(got is not None and got - want <= full - want and want - got <= want - full,
                              lambda: 'after a failed %s: %s' % (op, got))
                    self.want = got if got is not None else want
                    return
                r = INPLACE[op0](s, o)
                if kind in ('mut', 'imm'):
                    check_view(ctx, o, b, U, 'right operand after %s' % (op,))
            ctx.check(r is s, lambda: '%s did not return the set itself' % (op,))
            del r
            self.want = MODEL[op0[0]](want, b)

    def verify(self, what):
        check_view(self.ctx, self.s, self.want, self.U, what)
        for k, o, w in self.snaps:
            if k != 'iter':
                check_view(self.ctx, o, w, self.U, '%s taken earlier, %s' % (k, what))

    def finish(self):
        for k, o, w in self.snaps:
            if k == 'iter':
                # a live iterator never yields anything outside the set, nor twice
                got = content(o, self.U)
                self.ctx.check(got is not None and got <= w and got >= (w & self.want) - (w - self.ever),
                               lambda: 'iterator yielded %s, set was %s' % (got, sorted(w)))
