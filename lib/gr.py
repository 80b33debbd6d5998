"""Small directed graphs realised as Python objects, with their exact reference model.

(The interpreter does not traverse the keys of a dict whose keys are all strings, so they are no nodes.)

A World has nodes 0..n-1 (the core) and extra nodes (dict keys, instance dicts, classes);
`adj[i]` is the bit mask of the nodes node i refers to, as the interpreter stores them."""
import itertools, functools, types
from guppy.sets import MutNodeSet, ImmNodeSet
from guppy.heapy import heapyc

KEYS = tuple('key_%d' % i for i in range(8))


class Inst(object):
    pass


class Slot(object):
    __slots__ = ('s0', 's1', 's2', 's3', 's4')


class SubList(list):
    __slots__ = ()


STATIC = ['list', 'dict', 'nset', 'celllist']
ALLKINDS = ['list', 'dict', 'nset', 'inst', 'slot', 'sublist', 'celllist']


def fresh(kind):
    if kind == 'list':
        return []
    if kind == 'dict':
        return {}
    if kind == 'nset':
        return MutNodeSet()
    if kind == 'inst':
        return Inst()
    if kind == 'slot':
        return Slot()
    if kind == 'sublist':
        return SubList()
    if kind == 'celllist':
        return types.CellType()
    raise KeyError(kind)


class World:
    def __init__(self, n, edges, kinds, mult=None):
        """edges: iterable of (i, j); kinds: sequence of kind names."""
        self.n = n
        self.kinds = kinds
        self.objs = [fresh(k) for k in kinds]
        self.adj = [0] * n
        self.cls = 0                # mask of class nodes
        self.index = {id(o): i for i, o in enumerate(self.objs)}
        self.mult = {}
        self.out = out = [[] for i in range(n)]
        for i, j in edges:
            out[i].append(j)
        for i in range(n):
            self._wire(i, kinds[i], out[i])
        self.N = len(self.objs)
        self.all = (1 << self.N) - 1
        self.core = (1 << n) - 1

    def node(self, o):
        k = self.index.get(id(o))
        if k is None:
            k = self.index[id(o)] = len(self.objs)
            self.objs.append(o)
            self.adj.append(0)
        return k

    def edge(self, i, j):
        self.adj[i] |= 1 << j
        self.mult[i, j] = self.mult.get((i, j), 0) + 1

    def _wire(self, i, kind, tgts):
        o = self.objs[i]
        O = self.objs
        if kind in ('list', 'sublist'):
            for j in tgts:
                o.append(O[j])
                self.edge(i, j)
            if kind == 'sublist':
                c = self.node(SubList)
                self.cls |= 1 << c
                self.edge(i, c)
        elif kind == 'dict':
            for k, j in enumerate(tgts):
                o[KEYS[k]] = O[j]
                self.edge(i, j)
        elif kind == 'nset':
            for j in tgts:
                if O[j] not in o:
                    o.add(O[j])
                    self.edge(i, j)
        elif kind == 'inst':
            for k, j in enumerate(tgts):
                setattr(o, KEYS[k], O[j])
            d = self.node(o.__dict__)
            self.edge(i, d)
            c = self.node(Inst)
            self.cls |= 1 << c
            self.edge(i, c)
            for k, j in enumerate(tgts):
                self.edge(d, j)
        elif kind == 'slot':
            c = self.node(Slot)
            self.cls |= 1 << c
            self.edge(i, c)
            for k, j in enumerate(tgts):
                setattr(o, 's%d' % k, O[j])
                self.edge(i, j)
        elif kind == 'celllist':
            # one target directly, more through a list in the cell
            if len(tgts) == 1:
                o.cell_contents = O[tgts[0]]
                self.edge(i, tgts[0])
            elif tgts:
                l = []
                o.cell_contents = l
                k = self.node(l)
                self.edge(i, k)
                for j in tgts:
                    l.append(O[j])
                    self.edge(k, j)

    # -- model
    def succ(self, mask):
        r = 0
        i = 0
        while mask:
            if mask & 1:
                r |= self.adj[i]
            mask >>= 1
            i += 1
        return r

    def reach(self, start, avoid=0):
        """Nodes reached from start along paths that avoid `avoid` altogether."""
        seen = start & ~avoid
        front = seen
        while front:
            front = self.succ(front) & ~seen & ~avoid
            seen |= front
        return seen

    def reach_x(self, start, avoid=0):
        """As reach, but avoided nodes may end a path."""
        seen = front = start
        while front:
            front = self.succ(front & ~avoid) & ~seen
            seen |= front
        return seen

    def mask(self, objs):
        """Bit mask of an iterable of objects; strangers give bit N (or raise)."""
        m = 0
        ix = self.index
        for o in objs:
            k = ix.get(id(o), -1)
            if k < 0:
                m |= 1 << self.N
            else:
                m |= 1 << k
        return m

    def objects(self, mask):
        return [self.objs[i] for i in range(self.N) if mask >> i & 1]

    def nodes(self, mask):
        return ImmNodeSet(self.objects(mask))

    def dissolve(self):
        for o, k in zip(self.objs, self.kinds):
            if k in ('list', 'dict', 'nset', 'sublist'):
                o.clear()
            elif k == 'inst':
                o.__dict__.clear()
            elif k == 'slot':
                for s in Slot.__slots__:
                    try:
                        delattr(o, s)
                    except AttributeError:
                        pass
            elif k == 'celllist':
                try:
                    del o.cell_contents
                except ValueError:
                    pass


def names(w, mask):
    return [i for i in range(w.N + 1) if mask >> i & 1]


def graphs(n, loops=True):
    """All labelled digraphs on n nodes as edge lists."""
    P = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    for m in range(1 << len(P)):
        yield [P[k] for k in range(len(P)) if m >> k & 1]


@functools.lru_cache(None)
def iso_classes(n, loops=True, root=False):
    """One labelled digraph per isomorphism class (with node 0 fixed when root)."""
    P = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    pos = {p: k for k, p in enumerate(P)}
    perms = []
    for q in itertools.permutations(range(n)):
        if root and q[0] != 0:
            continue
        perms.append([pos[q[i], q[j]] for i, j in P])
    seen = bytearray(1 << len(P))
    out = []
    for m in range(1 << len(P)):
        if seen[m]:
            continue
        bits = [k for k in range(len(P)) if m >> k & 1]
        for q in perms:
            x = 0
            for k in bits:
                x |= 1 << q[k]
            seen[x] = 1
        out.append([P[k] for k in bits])
    return out


def new_hv(root=None, tag=None):
    hv = heapyc.HeapView(root, ())
    if tag is not None:
        hv._hiding_tag_ = tag
    return hv
