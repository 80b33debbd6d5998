"""Regular expressions and finite automata against their languages."""
import functools, io, itertools, re as pyre, sys, contextlib
from guppy.etc import RE, FSA, RE_Rect

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of expressions and automata on the real implementation, against the set-of-words semantics'
RULE = ('all expressions up to a number of nodes over two letters, with every derived form (simplified, reversed, limited, enumerated, printed and read back, '
        'split into unions) compared as sets of words up to a length; all automata up to a number of states with every transition set and every set of '
        'final states, made deterministic, reduced, solved for an expression and simplified, compared with direct simulation on all words up to a length')
BOUNDS = dict(quick='expressions of up to 4 nodes (words up to 6), unions of all sets of up to 3 words of length up to 3; automata with 2 states, all '
                    'nondeterministic and 3 states, all deterministic (words up to 6)',
              thorough='expressions of up to 5 nodes; unions of up to 4 words; automata with 3 states, nondeterministic in one letter')
ASSUME = ['all transitions are added before the automaton is made deterministic', 'an automaton state that stands for several states accepts as its user defines: both "all of them" and "any of them" are checked']
L = 6
Seq, Eps, Single, Union, Concat, KC, PC, E1 = RE.Seq, RE.Epsilon, RE.Single, RE.Union, RE.Concatenation, RE.KleeneClosure, RE.PositiveClosure, RE.EpsilonOrOne
LETTERS = 'a', 'b'


def cat(x, y):
    return frozenset(u + v for u in x for v in y if len(u) + len(v) <= L)


def star(x):
    r = {()}
    new = r
    while new:
        new = {w for w in cat(new, x)} - r
        r = r | new
    return frozenset(r)


LANG = {}


def lang(e):
    """The words of length up to L, by structure."""
    k = shape(e)
    r = LANG.get(k)
    if r is not None:
        return r
    if isinstance(e, RE.Seq):
        r = frozenset([tuple(e)]) if len(e) <= L else frozenset()
    elif isinstance(e, RE.Union):
        r = frozenset().union(*[lang(c) for c in e])
    elif isinstance(e, RE.Concatenation):
        r = frozenset([()])
        for c in e:
            r = cat(r, lang(c))
    elif isinstance(e, KC):
        r = star(lang(e[0]))
    elif isinstance(e, PC):
        x = lang(e[0])
        r = cat(x, star(x))
    elif isinstance(e, E1):
        r = lang(e[0]) | {()}
    else:
        raise TypeError(type(e))
    if len(LANG) > 300000:
        LANG.clear()
    LANG[k] = r
    return r


def shape(e):
    if isinstance(e, RE.Seq):
        return ('S',) + tuple(e)
    n = '|' if isinstance(e, RE.Union) else '.' if isinstance(e, RE.Concatenation) else e._name
    return (n,) + tuple([shape(c) for c in e])


def atoms():
    return [Eps, Single('a'), Single('b'), Seq('a', 'b')]


@functools.lru_cache(None)
def exprs(n):
    """All expressions with n nodes."""
    if n == 1:
        return atoms()
    r = []
    for x in exprs(n - 1):
        r += [KC(x), PC(x), E1(x)]
    for k in range(1, n - 1):
        for x in exprs(k):
            for y in exprs(n - 1 - k):
                r.append(Concat(x, y))
                r.append(Union(x, y))
    return r


def finite(e):
    return isinstance(e, RE.Seq) or not isinstance(e, RE.Closure) and all(finite(c) for c in e)


def parse(s):
    """Reads the printed form: letters, (), juxtaposition, |, and postfix operators."""
    pos = [0]

    def peek():
        while pos[0] < len(s) and s[pos[0]] == ' ':
            pos[0] += 1
        return s[pos[0]] if pos[0] < len(s) else ''

    def union():
        r = [conc()]
        while peek() == '|':
            pos[0] += 1
            r.append(conc())
        return frozenset().union(*r)

    def conc():
        r = frozenset([()])
        while peek() and peek() not in '|)':
            r = cat(r, post())
        return r

    def post():
        c = peek()
        pos[0] += 1
        if c == '(':
            r = union()
            assert peek() == ')'
            pos[0] += 1
        else:
            assert c in LETTERS, s
            r = frozenset([(c,)])
        while peek() and peek() in '*+?':
            c = peek()
            pos[0] += 1
            r = star(r) if c == '*' else cat(r, star(r)) if c == '+' else r | {()}
        return r
    r = union()
    assert pos[0] == len(s), s
    return r


READ = dict(Seq=Seq, KleeneClosure=KC, Epsilon=Eps)


def words(ws):
    r = []
    for w in ws:
        if not isinstance(w, RE.Seq):
            raise TypeError('%r is not a word' % (w,))
        r.append(tuple(w))
    return r


def upto(x, n):
    return frozenset(w for w in x if len(w) <= n)


def judge(e, ctx, light=False):
    d = lang(e)
    memo = e.get_words_memo()
    for n in range(5 if light else L):
        ws = words(memo.get_words_of_length(n))
        if len(ws) != len(set(ws)) or set(ws) != {w for w in d if len(w) == n}:
            ctx.fail('words of length %d of %r: %s' % (n, e, ws))
            return
    s = e.simplified()
    if lang(s) != d:
        ctx.fail('%r simplified is %r' % (e, s))
        return
    t = s.simplified()
    if lang(t) != d:
        ctx.fail('%r simplified twice is %r' % (e, t))
        return
    if {w[::-1] for w in d} != lang(e.reversed()):
        ctx.fail('%r reversed is %r' % (e, e.reversed()))
        return
    if frozenset().union(*[lang(u) for u in e.unionsplitted()]) != d:
        ctx.fail('%r split is %r' % (e, e.unionsplitted()))
        return
    try:
        u = e.sequni()
    except RE.InfiniteError:
        if finite(e):
            ctx.fail('%r: said to be infinite' % (e,))
            return
        u = None
    if u is not None:
        if not finite(e):
            if len(d) > 1:
                ctx.fail('%r: infinite, enumerated as %r' % (e, u))
                return
        ws = words(u)
        if upto(ws, L) != d or len(set(ws)) != len(ws):
            ctx.fail('%r: enumerated as %r' % (e, u))
            return
    for n in range(4):
        x = lang(e.limited(n))
        if upto(x, n) != upto(d, n) or not x <= d:
            ctx.fail('%r limited to %d is %r' % (e, n, e.limited(n)))
            return
    if light:
        return
    for x in e, s:
        if parse(x.regexpform()) != d:
            ctx.fail('%r is printed as %r' % (x, x.regexpform()))
            return
        if parse(x.shform()) != d:
            ctx.fail('%r is printed as %r' % (x, x.shform()))
            return
        y = eval(repr(x), dict(READ))
        if lang(y) != d:
            ctx.fail('%r is not what it reads' % (x,))
            return
        if (y == x) != (shape(y) == shape(x)) or y == x and hash(x) != hash(y):
            ctx.fail('%r: equality or hash' % (x,))


def shards(tier):
    n = 16
    return ([dict(part='exprs', k=k, of=n) for k in range(n)] + [dict(part='pairs', k=k, of=8) for k in range(8)] +
            [dict(part='unions', k=k, of=16) for k in range(16)] + [dict(part='nfa', k=k, of=16) for k in range(16)] +
            [dict(part='dfa', k=k, of=16) for k in range(16)] + [dict(part='chain', k=k, of=8) for k in range(8)] + [dict(part='grow', k=k, of=8) for k in range(8)] + [dict(part='rects', k=k, of=8) for k in range(8)])


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


def run_exprs(shard, ctx):
    for n in range(1, 5 + (ctx.tier != 'quick')):
        for i, e in enumerate(exprs(n)):
            if i % shard['of'] != shard['k'] or not ctx.case('expr', repr(e)):
                continue
            judge(e, ctx)
            ctx.state(shape(e))
            ctx.add('transitions', 10)
            if ctx.full:
                return


def run_pairs(shard, ctx):
    """Operators, equality and order of all pairs of small expressions."""
    es = [e for n in range(1, 4) for e in exprs(n)]
    es += [e.simplified() for e in es]
    small = es[::7] + es[:40]
    for i, a in enumerate(es):
        if i % shard['of'] != shard['k'] or not ctx.case('pair', i, repr(a)):
            continue
        for b in small:
            if lang(a + b) != cat(lang(a), lang(b)) or lang(a | b) != lang(a) | lang(b) or lang(RE.concat(a, b, a)) != cat(cat(lang(a), lang(b)), lang(a)):
                ctx.fail('operators on %r and %r' % (a, b))
            if a == b and (lang(a) != lang(b) or hash(a) != hash(b)):
                ctx.fail('%r == %r' % (a, b))
            if (shape(a) == shape(b)) != (a == b):
                ctx.fail('%r == %r is %s' % (a, b, a == b))
            if (a == b) == (a != b):
                ctx.fail('%r != %r' % (a, b))
            ctx.add('transitions', 1)
        if lang(a('*')) != star(lang(a)) or lang(a('+')) != cat(lang(a), star(lang(a))) or lang(a('?')) != lang(a) | {()}:
            ctx.fail('closures of %r' % (a,))
        if lang(a + 'b') != cat(lang(a), {('b',)}):
            ctx.fail('%r and a letter' % (a,))
        ctx.state(('pair', i))


def run_unions(shard, ctx):
    """Unions of words: the rectangle selection has to keep the language."""
    ws = [w for n in range(4) for w in itertools.product(LETTERS, repeat=n)]
    ws2 = [w for n in range(3) for w in itertools.product(LETTERS, repeat=n)]
    i = 0
    for m in range(1, 4 + (ctx.tier != 'quick')):
        for us in itertools.permutations(ws, m) if m < 4 else itertools.combinations(ws, m):
            i += 1
            if i % shard['of'] != shard['k'] or not ctx.case('union', us):
                continue
            judge(Union(*[Seq(*w) for w in us]), ctx, light=True)
            ctx.state(us)
            if ctx.full:
                return
    # Unions of products and closures
    terms = [Seq(*w) for w in ws2] + [KC(Single('a')), PC(Single('b')), Single('a') + KC(Single('b')), KC(Single('a')) + Single('b'), E1(Single('a')),
                                      Single('b') + PC(Single('a')), E1(Single('b')) + Single('a'), Seq('a', 'b', 'b', 'a'), Seq('a', 'b', 'b', 'b'), Seq('b', 'b', 'b', 'a')]
    for m in range(1, 4):
        for us in itertools.product(range(len(terms)), repeat=m):
            i += 1
            if i % shard['of'] != shard['k'] or not ctx.case('terms', us):
                continue
            judge(Union(*[terms[u] for u in us]), ctx, light=True)
            ctx.state(us)
            if ctx.full:
                return
    for us in itertools.combinations(ws2 + [('a', 'b', 'a'), ('b', 'b', 'a')], 5):
        i += 1
        if i % shard['of'] != shard['k'] or not ctx.case('union', us):
            continue
        judge(Union(*[Seq(*w) for w in us]), ctx, light=True)


# ---------------------------------------------------------------- automata

WORDS = [w for n in range(L + 1) for w in itertools.product(LETTERS, repeat=n)]


def simulate(delta, start, finals, mode):
    """delta: (state, letter) -> tuple of states.  Words accepted."""
    r = set()
    cur = {(): frozenset([start])}
    for w in WORDS:
        if w:
            S = cur.get(w[:-1])
            if S is None:
                continue
            T = set()
            for s in S:
                T.update(delta.get((s, w[-1]), ('dump',)) or ('dump',))
            if T == {'dump'}:
                continue
            S = cur[w] = frozenset(T)
        else:
            S = cur[w]
        if (S <= finals) if mode == 'all' else (S & finals):
            r.add(w)
    return frozenset(r)


def table_words(fsa, finals):
    """Words accepted by the table taken as a deterministic automaton."""
    r = set()
    cur = {(): fsa.start_state}
    for w in WORDS:
        if w:
            s = cur.get(w[:-1])
            if s is None or w[-1] not in fsa.table[s]:
                continue
            cur[w] = s = fsa.table[s][w[-1]]
        else:
            s = cur[w]
        if s in finals:
            r.add(w)
    return frozenset(r)


def automaton(delta, start, ctx, build=None):
    """Everything that is derived from one transition table, for all final sets."""
    states = sorted({s for s, _ in delta} | {t for v in delta.values() for t in v} | {start})
    f = FSA.FiniteAutomaton(start)
    # Tuples, as the user of this class has them
    obj = {s: (s,) for s in states}
    f = FSA.FiniteAutomaton(obj[start])
    for (s, a), v in delta.items():
        if v:
            f.add_transition(obj[s], a, *[obj[t] for t in v])
    for n in range(len(states) + 1):
        for fs in itertools.combinations(states, n):
            for mode in ('all', 'any'):
                want = simulate(delta, start, frozenset(fs), mode)
                finals = {obj[s]: 1 for s in fs}
                for c in f.get_composites():
                    if (all if mode == 'all' else any)(x in finals for x in c):
                        finals[c] = 1
                where = 'transitions %s, start %s, final %s (%s)' % (delta, start, fs, mode)
                got = table_words(f, finals)
                if got != want:
                    ctx.fail('%s: made deterministic: unexpected %s, missing %s' % (where, sorted(got - want)[:3], sorted(want - got)[:3]))
                    return False
                m = f.get_minimized_dfa(finals)
                got = table_words(m, m.final_states)
                if got != want:
                    ctx.fail('%s: reduced: unexpected %s, missing %s' % (where, sorted(got - want)[:3], sorted(want - got)[:3]))
                    return False
                if len(m.table) > len(f.table) + 1:
                    ctx.fail('%s: reduced has more states' % where)
                    return False
                x = RE.SolveFSA(m)
                if lang(x) != want:
                    ctx.fail('%s: solved as %r' % (where, x))
                    return False
                y = x.simplified()
                if lang(y) != want:
                    ctx.fail('%s: solved as %r, simplified as %r' % (where, x, y))
                    return False
                if mode == 'all' and set(f.get_all_input_symbols()) != {a for (s, a), v in delta.items() if v}:
                    ctx.fail('%s: input symbols %s' % (where, sorted(f.get_all_input_symbols())))
                    return False
                ctx.add('transitions', 4)
    return True


def run_nfa(shard, ctx):
    sub = [(), ('p',), ('q',), ('p', 'q')]
    tabs = [(dict(zip(itertools.product('pq', LETTERS), vs))) for vs in itertools.product(sub, repeat=4)]
    if ctx.tier != 'quick':
        sub3 = [(), ('p',), ('q',), ('r',), ('p', 'q'), ('q', 'r'), ('p', 'r'), ('p', 'q', 'r')]
        one = [(), ('p',), ('q',), ('r',)]
        for va in itertools.product(sub3, repeat=3):
            for vb in itertools.product(one, repeat=3):
                tabs.append({**dict(zip(itertools.product('pqr', 'a'), va)), **dict(zip(itertools.product('pqr', 'b'), vb))})
    for i, d in enumerate(tabs):
        if i % shard['of'] != shard['k'] or not ctx.case('nfa', sorted(d.items())):
            continue
        automaton(d, 'p', ctx)
        ctx.state(('nfa', i))
        if ctx.full:
            return


def run_dfa(shard, ctx):
    one = [(), ('p',), ('q',), ('r',)]
    for i, vs in enumerate(itertools.product(one, repeat=6)):
        d = dict(zip(itertools.product('pqr', LETTERS), vs))
        if i % shard['of'] != shard['k'] or not ctx.case('dfa', sorted(d.items())):
            continue
        if ctx.tier == 'quick' and i % 4 != (i // 16) % 4:
            continue
        automaton(d, 'p', ctx)
        ctx.state(('dfa', i))
        if ctx.full:
            return


def run_chain(shard, ctx):
    """Automata reduced as above, with more states and one letter (in every order) or, thoroughly, two."""
    def reduced(where, states, delta):
        f = FSA.FiniteAutomaton('p')
        for s, a, t in delta:
            f.add_transition(s, a, t)
        table = {(s, a): (t,) for s, a, t in delta}
        for n in range(len(states) + 1):
            for fs in itertools.combinations(states, n):
                finals = {s: 1 for s in fs}
                m = f.get_minimized_dfa(finals)
                want = table_words(f, finals)
                got = table_words(m, m.final_states)
                if got != want or want != simulate(table, 'p', frozenset(fs), 'all'):
                    ctx.fail('%s, final %s: reduced: unexpected %s, missing %s' % (where, fs, sorted(got - want)[:3], sorted(want - got)[:3]))
                    return False
                ctx.add('transitions')
        return True
    i = 0
    for n in ((4, 5, 6) if ctx.tier == 'quick' else (4, 5, 6, 7)):
        states = 'pqrstuv'[:n]
        for back in range(n + 1):
            for order in itertools.permutations(range(n)):
                i += 1
                if i % shard['of'] != shard['k'] or not ctx.case('chain', n, back, order):
                    continue
                # States in a row, the last of which leads back to one of them, or nowhere
                edges = [(states[k], 'a', (states + states[back:back + 1])[k + 1]) for k in range(n) if k + 1 < n or back < n]
                ctx.state(('chain', i))
                if not reduced((states, back, order), states, [edges[k] for k in order if k < len(edges)]):
                    return
    if ctx.tier != 'quick':
        states = 'pqrs'
        for j, vs in enumerate(itertools.product(states, repeat=8)):
            if j % shard['of'] != shard['k'] or not ctx.case('four', j):
                continue
            ctx.state(('four', j))
            if not reduced(vs, states, [(s, a, v) for (s, a), v in zip(itertools.product(states, LETTERS), vs)]):
                return


def run_grow(shard, ctx):
    """Transitions added and replaced, then reduced with several final sets on one automaton."""
    trans = [(s, a, v) for s in 'pq' for a in LETTERS for v in [('p',), ('q',), ('p', 'q')]]
    for i, seq in enumerate(itertools.product(trans, repeat=3)):
        if i % shard['of'] != shard['k'] or not ctx.case('grow', seq):
            continue
        f = FSA.FiniteAutomaton('p')
        delta = {}
        for s, a, v in seq:
            delta[s, a] = v
            f.add_transition(s, a, *v)
        for fs in ['p', 'q', 'pq', 'q']:
            want = simulate(delta, 'p', frozenset(fs), 'all')
            finals = {x: 1 for x in fs}
            for c in f.get_composites():
                if all(x in finals for x in c):
                    finals[c] = 1
            m = f.get_minimized_dfa(finals)
            if table_words(f, finals) != want or table_words(m, m.final_states) != want:
                ctx.fail('after %s, final %s: %s' % (delta, fs, sorted(table_words(m, m.final_states) ^ want)[:4]))
                break
        ctx.add('transitions', 3)


# ---------------------------------------------------------------- rectangles

def run_rects(shard, ctx):
    """The rectangles chosen cover every line, none twice, and the lines of each share its common part."""
    ws = [''.join(w) for n in range(4) for w in itertools.product('ab', repeat=n)] + ['abab', 'cab', 'abc', 'cb']
    i = 0
    for m in range(1, 5):
        for us in itertools.combinations(ws, m):
            for gauges in ([None], [lambda x: 1], [lambda x: x == 'a', lambda x: 1]):
                i += 1
                if i % shard['of'] != shard['k'] or not ctx.case('rects', us, len(gauges), gauges[0] is None):
                    continue
                lines = [str(u) for u in us]
                rs = RE_Rect.chooserects(lines, gauges)
                nos = [n for r in rs for n in r.lnos]
                if sorted(nos) != list(range(m)):
                    ctx.fail('lines covered: %s' % nos)
                    continue
                for r in rs:
                    com, unc = ''.join(r.get_common_part()), [''.join(u) for u in r.get_uncommons()]
                    got = sorted(u + com if r.dir else com + u for u in unc)
                    if got != sorted(lines[n] for n in r.lnos):
                        ctx.fail('rectangle %r: common part %r, rest %r' % (r, com, unc))
                ctx.add('transitions', 1)
