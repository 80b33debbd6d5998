"""Dotted trees and their text form."""
import itertools
import guppy

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of trees and of texts on the real implementation, against an independent line-based grammar'
RULE = ('all trees up to a number of nodes with all short tags over the dot, the quote, newline, space and a letter, parsed back from their text in both node '
        'forms; all texts up to a length over the same alphabet, parsed and compared with a direct reading of the grammar (tree, line numbers, errors)')
BOUNDS = dict(quick='1 node: tags up to 7 characters; 2: 3; 3: 2; 4: 1 (and some of 2); texts up to 9 characters over 4 letters; 3 dot characters',
              thorough='1 node: 8; 2: 4; 3: 3 (4 letters); 4: 2 (3 letters); 5: 1; texts up to 10')
ASSUME = ['trees are not nested beyond the recursion limit']
DT = guppy.Root().guppy.gsl.DottedTree
NODE = DT.node


class Src:
    def __init__(self):
        self.errors = []

    def error(self, msg, lineindex):
        self.errors.append(lineindex)
        raise SyntaxError(msg)


def shapes(n):
    """All ordered trees with n nodes, as nested lists of indices in order of visit."""
    def forest(n, start):
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for kids in forest(k - 1, start + 1):
                for rest in forest(n - k, start + k):
                    yield ((start, kids),) + rest
    for kids in forest(n - 1, 1):
        yield (0, kids)


def fill(shape, tags):
    return (tags[shape[0]],) + tuple([fill(k, tags) for k in shape[1]])


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield ''.join(w)


ALPHA = '.', '\\', '\n', 'a', ' '
CONF = [('.', '\\'), ('#', '\\'), ('a', '\\')]


def reading(text, dot, quote):
    """The tree by the grammar: (tree as (tag, children, line), None) or (None, line of error)."""
    root = [[], [], 0]
    stack = [root]
    lines = text.split('\n') if text else []
    for i, line in enumerate(lines):
        k = len(line) - len(line.lstrip(dot))
        if k == 0:
            stack[-1][0].append(line)
            continue
        if k > len(stack):
            return None, i
        del stack[k:]
        node = [[line[k:]], [], i]
        stack[-1][1].append(node)
        stack.append(node)

    def finish(node, top):
        li = []
        for t in node[0]:
            q = len(t) - len(t.lstrip(quote))
            if q and t[q:q + 1] == dot:
                t = t[1:]
            li.append(t)
        tag = '\n'.join(li)
        if top and node[0] == ['']:
            tag = '\n'
        return tag, tuple([finish(c, False) for c in node[1]]), node[2]
    return finish(root, True), None


def plain(n):
    return (n[0],) + tuple([plain(c) for c in n[1]])


def asreading(n):
    return n.tag, tuple([asreading(c) for c in n.children]), n.index


def shards(tier):
    return [dict(part='trees', n=n, k=k, of=8) for n in range(1, 5 + (tier != 'quick')) for k in range(8)] + [dict(part='texts', k=k) for k in range(16)]


def tags(n, tier):
    if tier == 'quick':
        return [lambda: words(ALPHA, 6), lambda: words(ALPHA, 3), lambda: words(ALPHA, 2), lambda: list(words(ALPHA, 1)) + ['\\.', '.\n', '\n.', '\\\n']][n - 1]
    return [lambda: words(ALPHA, 8), lambda: words(ALPHA, 4), lambda: words(ALPHA[:4], 3), lambda: words(ALPHA[:3], 2), lambda: words(ALPHA, 1)][n - 1]


def run(shard, ctx):
    try:
        globals()['run_' + shard['part']](shard, ctx)
    finally:
        DT.node = NODE
        DT.dotchar = '.'


def run_trees(shard, ctx):
    n = shard['n']
    for shape in shapes(n):
        if not ctx.case('trees', shard['k'], shape):
            continue
        texts = {}
        for i, ts in enumerate(itertools.product(tags(n, ctx.tier)(), repeat=n)):
            if i % shard['of'] != shard['k']:
                continue
            x = fill(shape, ts)
            DT.node = DT.node_sexpr
            s = DT.unparse_sexpr(x)
            try:
                y = DT.parse_string(s)
            except Exception as e:
                y = e
            if y != x:
                ctx.fail('tree %r has the text %r which is parsed as %r' % (x, s, y))
                return
            if n < 4:
                DT.node = DT.node_node
                t = DT.parse_string(s)
                if t.as_sexpr() != x or DT.unparse_node(t) != s:
                    ctx.fail('tree %r in node form is %r, text %r' % (x, t, DT.unparse_node(t)))
                    return
            ctx.add('states', 1)
            ctx.add('transitions', 1)
            if len(texts) < 1000000:
                if s in texts:
                    ctx.fail('%r and %r have the same text' % (x, texts[s]))
                    return
                texts[s] = x


def run_texts(shard, ctx):
    n = 9 if ctx.tier == 'quick' else 10
    confs = [(c, ('.', '\\', '\n', 'a') if c[0] != '#' else ('#', '\\', '\n', '.'), n if c[0] == '.' else n - 2) for c in CONF]
    for (dot, quote), alpha, n in confs:
        if not ctx.case('texts', shard['k'], dot, quote):
            continue
        DT.dotchar = dot
        first = list(itertools.product(alpha, repeat=2))[shard['k']]
        body = words(alpha, n - 2)
        for w in itertools.chain((''.join(first) + b for b in body), words(alpha, 1) if not shard['k'] else ()):
            want, line = reading(w, dot, quote)
            DT.node = DT.node_node
            src = Src()
            try:
                got = asreading(DT.parse_string(w, src))
            except SyntaxError:
                got = None
            except Exception as e:
                ctx.fail('text %r: %s: %s' % (w, type(e).__name__, e))
                return
            if got != want or src.errors != ([] if line is None else [line]):
                ctx.fail('text %r: tree %r, errors in lines %r; expected %r, %r' % (w, got, src.errors, want, line))
                return
            DT.node = DT.node_sexpr
            try:
                got = DT.parse_string(w)
            except SyntaxError:
                got = None
            if got != (want and plain(want)):
                ctx.fail('text %r without source: %r' % (w, got))
                return
            if want:
                s = DT.unparse_sexpr(got)
                if DT.parse_string(s) != got:
                    ctx.fail('text %r is read as %r, written as %r' % (w, got, s))
                    return
            ctx.add('states', 1)
            ctx.add('transitions', 1)
        ctx.state((shard['k'], dot))
