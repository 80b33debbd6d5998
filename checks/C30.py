"""Measurements relative to a reference point."""
import ctypes, gc, itertools, sys, weakref
from hps import *

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all operation sequences on the real implementation, against an exact reachability model of a private heap and of the process heap'
RULE = ('all sequences of creating, attaching, sharing, releasing and keeping aside objects, setting and clearing the reference point, and storing query '
        'results, with the heap queried (twice) after every step, on a private root; the same with objects put in local, global, class and closure '
        'variables of the running program and the whole process as the heap; all sequences of making objects unreachable and measuring them')
BOUNDS = dict(quick='private root: 9 operations, length 4; process heap: 8 operations, length 3; unreachable objects: 6 operations, length 3',
              thorough='private root: length 5; process heap: length 4; unreachable objects: length 4')
ASSUME = ['the modules that an operation needs have been loaded when the reference point is set (the first use of a command may load modules)',
          'objects kept alive by the reference set itself are the same objects']
NOTHING = hp.Nothing


def shards(tier):
    return ([dict(part='private', a=a, b=b) for a in range(9) for b in range(9)] + [dict(part='process', a=a) for a in range(8)] +
            [dict(part='unreach', a=a) for a in range(6)])


def run(shard, ctx):
    globals()['run_' + shard['part']](shard, ctx)


# ---------------------------------------------------------------- private root

def closure(root, hidden):
    seen = {id(root): root}
    todo = [root]
    while todo:
        for o in gc.get_referents(todo.pop()):
            if id(o) not in seen and id(o) not in hidden:
                seen[id(o)] = o
                todo.append(o)
    return seen


PRIV = ['new0', 'new1', 'child', 'share', 'aside', 'setref', 'clear', 'store', 'cycle']


def run_private(shard, ctx):
    gc.collect()
    gc.freeze()
    depth = 4 if ctx.tier == 'quick' else 5
    old = V.root
    try:
        for tail in itertools.product(range(9), repeat=depth - 2):
            seq = (shard['a'], shard['b']) + tail
            if not ctx.case('private', *[PRIV[i] for i in seq]):
                continue
            private(seq, ctx)
            if ctx.full:
                return
    finally:
        V.root = old
        hp.relheap = NOTHING
        gc.unfreeze()


def private(seq, ctx):
    slots = [[], []]
    stored = []
    root = [slots, 'name', stored]
    aside = []
    hp.relheap = NOTHING
    V.root = root
    ref = {}
    hidden = {}
    for step, i in enumerate(seq):
        op = PRIV[i]
        if op in ('new0', 'new1'):
            s = slots[op == 'new1']
            if s:
                del s[:]
            else:
                s.append([object(), 12.5 * step + .25])
        elif op == 'child':
            for s in slots:
                if s:
                    s[0].append({'k': (step, [])})
                    break
        elif op == 'share':
            a, b = slots
            if a and b:
                b[0].append(a[0])
            elif a:
                b.append(a[0])
            elif b:
                a.append(b[0])
        elif op == 'aside':
            a, b = slots
            slots[0], aside = aside, a     # objects that live on elsewhere
        elif op == 'cycle':
            c = [[]]
            c[0].append(c)
            if slots[0] and c[0]:
                slots[0].append(c)
            c = None
        elif op == 'setref':
            hp.setref(reachable=V.heap()) if step & 1 else hp.setrelheap()
            ref = closure(root, hidden)
        elif op == 'clear':
            if step & 1:
                hp.relheap = NOTHING
            else:
                hp.setref(reachable=NOTHING)
            ref = {}
        elif op == 'store':
            h = hp.heap()
            if stored:
                del stored[:]
                hidden.clear()
            else:
                stored.append(h)
                hidden[id(h)] = h
            h = None
        now = closure(root, hidden)
        want = {k for k in now if k not in ref}
        for again in 0, 1:
            h = hp.heap()
            got = {id(o) for o in h.nodes}
            if got != want:
                ctx.fail('step %d%s: %d objects, expected %d; unexpected %s, missing %s' % (
                    step, ' again' if again else '', len(got), len(want), [repr(x)[:80] for x in h.nodes if id(x) not in want][:5],
                    [repr(now[k])[:80] for k in want - got][:5]))
                return
        a = V.heap()
        if {id(o) for o in a.nodes} != set(now):
            ctx.fail('step %d: the full heap has %d objects, expected %d' % (step, len(a.nodes), len(now)))
            return
        size = sum(sys.getsizeof(now[k]) for k in want)
        if (h.count, h.size) != (len(want), size):
            ctx.fail('step %d: total of relative heap %s, expected %s' % (step, (h.count, h.size), (len(want), size)))
        c = a - h
        if (h.count + c.count, h.size + c.size) != (a.count, a.size):
            ctx.fail('step %d: totals disagree: %s + %s != %s' % (step, (h.count, h.size), (c.count, c.size), (a.count, a.size)))
        if h:
            p = h.bytype.partition
            rows = list(p.get_rows())
            if (sum(r.count for r in rows), sum(r.size for r in rows)) != (h.count, h.size):
                ctx.fail('step %d: the rows do not add up to the totals' % step)
            rows = p = None
        ctx.add('transitions', 1)
        ctx.state((len(want), len(now), size))
        a = c = h = None
    ctx.add('histories', 1)
    V.root = None


# ---------------------------------------------------------------- process heap

class Holder(object):
    pass


G = None
PROC = ['local', 'global', 'class', 'closure', 'nested', 'setref', 'clear', 'free']


def process(seq, res):
    """Run in one frame that creates nothing but the objects in question; all that is noted down goes to res (a list of preset size)."""
    global G
    loc = None
    cl = None

    def hold():
        return cl
    hp.relheap = NOTHING
    hp.setref()
    n = 0
    while n < len(seq):     # a for loop would leave its iterator in this frame
        op = seq[n]
        if op == 0:
            loc = object() if loc is None else None
        elif op == 1:
            G = object() if G is None else None
        elif op == 2:
            Holder.attr = object() if Holder.attr is None else None
        elif op == 3:
            cl = object() if cl is None else None
        elif op == 4:
            loc = [[object()]]
        elif op == 5:
            hp.setref()
        elif op == 6:
            hp.relheap = NOTHING
        else:
            loc = G = cl = Holder.attr = None
        h = hp.heap()
        h2 = hp.heap()
        res[n] = h, h2, loc, G, cl, Holder.attr
        n += 1
        # What is noted down is not to be found: it is released by the caller's judge before the next step
        judge(res, n - 1, op)
        h = h2 = None


Holder.attr = None
STATE = {}
REF = []


def judge(res, n, op):
    h, h2, loc, g, cl, at = res[n]
    res[n] = None
    ref = STATE['ref']
    now = {}
    for o in (loc, g, cl, at):
        if o is not None:
            now[id(o)] = o
            if type(o) is list:
                now[id(o[0])] = o[0]
                now[id(o[0][0])] = o[0][0]
    if op == 5:
        ref = STATE['ref'] = REF
        ref[:] = now.values()
    elif op == 6:
        ref = STATE['ref'] = None
    nodes, nodes2 = h.nodes, h2.nodes
    if ref is None:
        # everything
        for o in now.values():
            if o not in nodes:
                STATE['bad'] = 'step %d: %r is not in the full heap' % (n, o)
        if sys not in nodes or Holder not in nodes or len(nodes) < 10000:
            STATE['bad'] = 'step %d: the full heap was not restored' % n
        if len(nodes) != len(nodes2):
            STATE['bad'] = 'step %d: the same query reported %d objects, then %d' % (n, len(nodes), len(nodes2))
    else:
        want = {k for k in now if not any(now[k] is o for o in ref)}
        for x in nodes, nodes2:
            got = {id(o) for o in x}
            if got != want:
                STATE['bad'] = 'step %d: %d objects, expected %d: unexpected %s' % (n, len(got), len(want), [(type(o).__name__, repr(o)[:100]) for o in x if id(o) not in want][:5])


def run_process(shard, ctx):
    depth = 3 if ctx.tier == 'quick' else 4
    res = [None] * 10
    for tail in itertools.product(range(8), repeat=depth - 1):
        seq = (shard['a'],) + tail
        if not ctx.case('process', *[PROC[i] for i in seq]):
            continue
        STATE.clear()
        del REF[:]
        STATE.update(ref=REF, bad=None)
        global G
        G = Holder.attr = None
        process(seq, res)
        hp.relheap = NOTHING
        G = Holder.attr = None
        if STATE['bad']:
            ctx.fail(STATE['bad'])
        ctx.add('histories', 1)
        ctx.add('transitions', depth)
        ctx.state(('process', seq))
        if ctx.full:
            return


# ---------------------------------------------------------------- unreachable objects

class U(object):
    __slots__ = ()


class W(object):
    __slots__ = 'x',


INC = ctypes.pythonapi.Py_IncRef
DEC = ctypes.pythonapi.Py_DecRef
INC.argtypes = DEC.argtypes = [ctypes.py_object]
INC.restype = DEC.restype = None
UN = ['leak W', 'leak dict', 'unleak', 'setref', 'clear', 'reachable']


def rows(stat):
    return {r.name: (r.count, r.size) for r in stat.get_rows()}


def run_unreach(shard, ctx):
    depth = 2 if ctx.tier == 'quick' else 3
    hp.setref()
    hp.heapu()
    gc.collect()
    gc.freeze()     # only what is made from now on is measured
    for tail in itertools.product(range(6), repeat=depth):
        seq = (shard['a'],) + tail
        if 2 in seq and not (0 in seq or 1 in seq) or not ctx.case('unreach', *[UN[i] for i in seq]):
            continue
        unreach(seq, ctx)
        if ctx.full:
            break
    gc.unfreeze()


def unreach(seq, ctx):
    leaked = []
    keep = []
    NAMES = 'c30.W', 'dict'
    hp.setref(reachable=NOTHING, unreachable=hp.heapu(abs=1))
    ref = hp.relheapu
    refrows = rows(ref)
    try:
        for step, i in enumerate(seq):
            if i == 0:
                o = W()
                o.x = None
                INC(o)
                leaked.append(id(o))
                o = None
            elif i == 1:
                o = {'a': []}
                INC(o)
                leaked.append(id(o))
                o = None
            elif i == 2:
                if leaked:
                    o = ctypes.cast(leaked.pop(), ctypes.py_object).value
                    DEC(o)
                    o = None
            elif i == 3:
                hp.setrelheapu()
                ref = hp.relheapu
                refrows = rows(ref)
            elif i == 4:
                hp.relheapu = NOTHING
                ref = None
                refrows = {}
            else:
                keep.append(W())
            absol = hp.heapu(abs=1)
            a = rows(absol)
            n = {}
            for j in leaked:
                t = ctypes.cast(j, ctypes.py_object).value.__class__.__name__
                n[t] = n.get(t, 0) + 1
            if next((c for k, (c, s) in a.items() if k.endswith('.W')), 0) != n.get('W', 0):
                ctx.fail('step %d: %d leaked instances reported, expected %d' % (step, next((c for k, (c, s) in a.items() if k.endswith('.W')), 0), n.get('W', 0)))
            if sum(c for c, s in a.values()) != absol.count or sum(s for c, s in a.values()) != absol.size:
                ctx.fail('step %d: absolute totals do not agree with the rows' % step)
            rel = hp.heapu()
            got = {k: v for k, v in rows(rel).items() if v != (0, 0)}
            want = {}
            for k in set(a) | set(refrows):
                x, y = a.get(k, (0, 0)), refrows.get(k, (0, 0))
                if x != y:
                    want[k] = (x[0] - y[0], x[1] - y[1])
            if got != want:
                ctx.fail('step %d: relative rows %s, expected %s' % (step, got, want))
                return
            if (rel.count, rel.size) != (sum(c for c, s in want.values()), sum(s for c, s in want.values())):
                ctx.fail('step %d: relative totals %s' % (step, (rel.count, rel.size)))
            again = hp.heapu()
            if rows(again) != rows(rel):
                ctx.fail('step %d: the same query reported something else' % step)
            ctx.add('transitions', 1)
            absol = rel = again = None
        ctx.add('histories', 1)
        ctx.state(('unreach', seq))
    finally:
        for j in leaked:
            o = ctypes.cast(j, ctypes.py_object).value
            DEC(o)
            o = None
        hp.relheapu = hp.relheap = NOTHING
