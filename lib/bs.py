"""Reference model and builders for bit sets.

A model value is (cpl, frozenset): the finite set, or the complement of it.
view() reads a real bit set back into that form using only membership tests and
(for finite ones) iteration and len, cross-checked against each other.
"""
import itertools
from guppy.sets import ImmBitSet, MutBitSet, BitSet, immbit, immbitset, immbitrange

FARS = (10**6 + 7, -10**6 - 7)


def m_not(a):
    return (not a[0], a[1])


def m_and(a, b):
    if not a[0] and not b[0]:
        return (False, a[1] & b[1])
    if not a[0]:
        return (False, a[1] - b[1])
    if not b[0]:
        return (False, b[1] - a[1])
    return (True, a[1] | b[1])


def m_or(a, b):
    return m_not(m_and(m_not(a), m_not(b)))


def m_sub(a, b):
    return m_and(a, m_not(b))


def m_xor(a, b):
    return m_or(m_sub(a, b), m_sub(b, a))


def m_le(a, b):
    """Subset; the universe is infinite for our purposes (far positions exist)."""
    r = m_sub(a, b)
    return r == (False, frozenset())


OPS = {'&': m_and, '|': m_or, '-': m_sub, '^': m_xor}


class Broken(Exception):
    pass


def view(b, probes):
    """(cpl, frozenset) of real bit set b; probes must cover every position that may be set."""
    far = FARS[0] in b
    if (FARS[1] in b) != far:
        raise Broken('membership of far positions disagree')
    got = frozenset(p for p in probes if (p in b) != far)
    if far:
        return (True, got)
    l = list(b)
    if len(l) != len(got) or frozenset(l) != got:
        raise Broken('iteration %r but membership %r' % (l, sorted(got)))
    if len(b) != len(l):
        raise Broken('len %d but iteration %r' % (len(b), l))
    return (False, got)


def deep_view(b, probes):
    """view() plus every other observer."""
    v = view(b, probes)
    s = sorted(v[1])
    if v[0]:
        for f, n in ((iter, 'iter'), (len, 'len')):
            try:
                f(b)
            except TypeError:
                pass
            else:
                raise Broken('%s of complemented set accepted' % n)
        if not b:
            raise Broken('complemented set is false')
        inv = ~b
        if sorted(inv) != s:
            raise Broken('inversion is %r' % (sorted(inv),))
    else:
        l = list(b)
        if l != s:
            raise Broken('iteration order %r' % (l,))
        if bool(b) != bool(s):
            raise Broken('truth value %r of %r' % (bool(b), s))
        for i in (0, -1):
            try:
                e = b[i]
            except IndexError:
                if s:
                    raise Broken('[%d] raised on %r' % (i, s))
            else:
                if not s or e != s[i]:
                    raise Broken('[%d] is %r of %r' % (i, e, s))
    return v


def mut(bits, splitting=500, ghosts=(), cpl=False):
    """A mutable bit set with the given bits, added in the given order into segments of
    the given splitting size, after which the ghost bits (added too) are removed again."""
    m = MutBitSet()
    m._splitting_size = splitting
    for b in bits:
        m.add(b)
    for b in ghosts:
        m.add(b)
    for b in ghosts:
        m.remove(b)
    if cpl:
        m ^= -1
    return m


def subsets(u):
    u = list(u)
    for r in range(len(u) + 1):
        for c in itertools.combinations(u, r):
            yield frozenset(c)


def word_index(bits):
    return sum(1 << b for b in bits)
