"""What frames, threads and the interpreter hold is in the heap, is named, and only while they hold it."""
import _thread, builtins, codecs, contextvars, ctypes, functools, gc, itertools, re, sys, threading, time, types, weakref
import guppy
from guppy.heapy import heapyc
from guppy.sets import immnodeset, mutnodeset

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of stacks of frames, each holding a marker in each kind of slot and going on in each way, parked and looked at from each frame limit, against a model of what is held'
RULE = ('every stack of layers (what holds the marker x how it calls on: directly, through C code, a generator, a chain of generators, a coroutine, another thread) is built and parked, in the thread that looks and in another; '
        'the markers that are reached from the root, without a limit and with each frame of the thread as limit, must be those that the model says; frames are numbered as the oracle numbers them, '
        'and each edge on a path from the root to a marker has a name; once the stack is gone none of the markers, all kept alive by a reference that nobody shows, is reached')
BOUNDS = dict(quick='all stacks of 1 and 2 layers (31 kinds of slots, 6 ways to go on); parked in the own thread, behind C code and in another thread',
              thorough='all stacks of 2 layers, and of 3 layers with the middle one of 11 kinds')
ASSUME = ['CPython 3.12; the evaluation stack of a frame that is executing, or waits in C code, is not to be seen and is excluded',
          'what is held by C variables, by atexit, audit and fork hooks is excluded; generators may be on a path without a name for the edge']

R = heapyc.RootState
STR = {}
incref, decref = ctypes.pythonapi.Py_IncRef, ctypes.pythonapi.Py_DecRef
incref.argtypes = decref.argtypes = [ctypes.py_object]
incref.restype = decref.restype = None


class M:
    """A marker: it is kept alive by a reference that nobody shows."""
    __slots__ = 'i', '__weakref__'


class P:
    """Something that holds a marker and can be used as nearly everything."""
    __slots__ = 'm', '__weakref__'

    def __init__(self, m):
        self.m = m

    def __call__(self, *args):
        pass

    def __enter__(self):
        pass

    def __exit__(self, *args):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        return 1


class E(Exception):
    pass


class Ctl:
    """The markers of a stack."""

    def __init__(self):
        self.ws = {}
        self.frames = {}
        self.tids = {}

    def mk(self, i):
        m = M()
        m.i = i
        incref(m)
        self.ws[i] = weakref.ref(m)
        return m

    def here(self, i):
        """Note the frame and the thread of a layer."""
        f = sys._getframe(1)
        n = 0
        while f.f_back:
            n += 1
            f = f.f_back
        self.frames[i] = n
        self.tids[i] = _thread.get_ident()

    def free(self):
        for w in self.ws.values():
            m = w()
            if m is not None:
                decref(m)


# What the layer number {i} does: {go} calls on.  The second item tells who holds the marker: f the frame, s the evaluation stack of it,
# t the thread, g something else
SLOTS = dict(
    local=('f', 'def L{i}():\n    here({i})\n    x = mk({i})\n    {go}\n'),
    arg=('f', 'def L{i}():\n    return f{i}(mk({i}))\ndef f{i}(x):\n    here({i})\n    {go}\n'),
    keyword=('f', 'def L{i}():\n    return f{i}(x=mk({i}))\ndef f{i}(*, x):\n    here({i})\n    {go}\n'),
    varargs=('f', 'def L{i}():\n    return f{i}(mk({i}))\ndef f{i}(*x):\n    here({i})\n    {go}\n'),
    kwargs=('f', 'def L{i}():\n    return f{i}(a=mk({i}))\ndef f{i}(**x):\n    here({i})\n    {go}\n'),
    cell=('f', 'def L{i}():\n    here({i})\n    x = mk({i})\n    y = lambda: x\n    del y\n    {go}\n'),
    cellarg=('f', 'def L{i}():\n    return f{i}(mk({i}))\ndef f{i}(x):\n    here({i})\n    def y():\n        nonlocal x\n    del y\n    {go}\n'),
    free=('f', 'def L{i}():\n    return f{i}(mk({i}))()\ndef f{i}(x):\n    def y():\n        here({i})\n        {go}\n        return x\n    return y\n'),
    default=('f', 'def L{i}():\n    return f{i}(mk({i}))()\ndef f{i}(x):\n    def y(a=x):\n        del a\n        here({i})\n        {go}\n    return y\n'),
    stack=('s', 'def L{i}():\n    here({i})\n    return (mk({i}), {call})\n'),
    deepstack=('s', 'def L{i}():\n    here({i})\n    return (1, [2, (3, mk({i}), 4, {call})])\n'),
    kwstack=('s', 'def L{i}():\n    here({i})\n    return dict(a=mk({i}), b={call})\n'),
    dictstack=('s', 'def L{i}():\n    here({i})\n    return {{1: mk({i}), 2: {call}}}\n'),
    compare=('s', 'def L{i}():\n    here({i})\n    return mk({i}) is {call}\n'),
    withs=('s', 'def L{i}():\n    here({i})\n    with P(mk({i})):\n        {go}\n'),
    iters=('s', 'def L{i}():\n    here({i})\n    for y in P(mk({i})):\n        return {call}\n'),
    final=('s', 'def L{i}():\n    here({i})\n    try:\n        return mk({i})\n    finally:\n        {go}\n'),
    comp=('f', 'def L{i}():\n    here({i})\n    return [({call}, x) for x in (mk({i}),)]\n'),
    genexp=('f', 'def L{i}():\n    for y in ((here({i}), {call}, x) for x in (mk({i}),)):\n        pass\n'),
    klass=('f', 'def L{i}():\n    class C:\n        x = mk({i})\n        here({i})\n        {go}\n'),
    execd=('f', 'def L{i}():\n    d = dict(globals(), x=mk({i}))\n    here({i})\n    exec("""{go}""", d)\n'),
    selfs=('f', 'class C{i}(P):\n    __slots__ = ()\n    def go(self):\n        here({i})\n        {go}\ndef L{i}():\n    return C{i}(mk({i})).go()\n'),
    dying=('f', 'class C{i}(P):\n    __slots__ = ()\n    def __del__(self):\n        here({i})\n        {go}\ndef L{i}():\n    C{i}(mk({i}))\n'),
    exc=('x', 'def L{i}():\n    here({i})\n    try:\n        raise E(mk({i}))\n    except E as e:\n        e.__traceback__ = None\n        del e\n        {go}\n'),
    tracer=('f', 'def L{i}():\n    here({i})\n    sys._getframe().f_trace = P(mk({i}))\n    {go}\n'),
    profiler=('p', 'def L{i}():\n    here({i})\n    sys.setprofile(P(mk({i})))\n    try:\n        {go}\n    finally:\n        sys.setprofile(None)\n'),
    context=('t', 'def L{i}():\n    here({i})\n    t = VARS[{i}].set(mk({i}))\n    try:\n        {go}\n    finally:\n        VARS[{i}].reset(t)\n'),
    gen=('f', 'def g{i}():\n    x = mk({i})\n    yield 1\ndef L{i}():\n    here({i})\n    g = g{i}()\n    next(g)\n    {go}\n'),
    genstack=('f', 'def g{i}():\n    return (mk({i}), (yield 1))\ndef L{i}():\n    here({i})\n    g = g{i}()\n    next(g)\n    {go}\n'),
    genexc=('f', 'def g{i}():\n    try:\n        raise E(mk({i}))\n    except E as e:\n        e.__traceback__ = None\n        del e\n        yield 1\ndef L{i}():\n    here({i})\n    g = g{i}()\n    next(g)\n    {go}\n'),
    geninner=('f', 'def h{i}():\n    x = mk({i})\n    yield 1\ndef g{i}():\n    yield from h{i}()\ndef L{i}():\n    here({i})\n    g = g{i}()\n    next(g)\n    {go}\n'),
    unstarted=('f', 'def g{i}(x):\n    yield 1\ndef L{i}():\n    here({i})\n    g = g{i}(mk({i}))\n    {go}\n'),
    coro=('f', '@types.coroutine\ndef a{i}():\n    yield 1\nasync def g{i}():\n    x = mk({i})\n    await a{i}()\ndef L{i}():\n    here({i})\n    g = g{i}()\n    g.send(None)\n    {go}\n    g.close()\n'),
    agen=('f', '@types.coroutine\ndef a{i}():\n    yield 1\nasync def g{i}():\n    x = mk({i})\n    await a{i}()\n    yield 2\ndef L{i}():\n    here({i})\n    g = g{i}()\n    n = g.asend(None)\n    n.send(None)\n    {go}\n    n.close()\n'),
)
FEW = ('local', 'cell', 'stack', 'iters', 'exc', 'gen', 'context', 'profiler', 'klass', 'dying', 'free')
MODES = dict(py='{f}()', c='functools.partial({f})()', gen='bygen({f})', gens='bygens({f})', coro='bycoro({f})', thread='bythread({f})')

COMMON = '''
def gen(f):
    yield f()
def bygen(f):
    g = gen(f)
    next(g)
def chain(f, n):
    if n:
        yield from chain(f, n - 1)
    else:
        yield f()
def bygens(f):
    g = chain(f, 2)
    next(g)
async def acall(f):
    return f()
async def await_(f):
    return await acall(f)
def bycoro(f):
    g = await_(f)
    try:
        g.send(None)
    except StopIteration:
        pass
def started(f, lock):
    try:
        f()
    finally:
        lock.release()
def bythread(f):
    lock = _thread.allocate_lock()
    lock.acquire()
    _thread.start_new_thread(started, (f, lock))
    lock.acquire()
'''

VARS = [contextvars.ContextVar('v%d' % i) for i in range(4)]


@functools.lru_cache(None)
def code(slot, mode, i, last):
    call = MODES[mode].format(f='end' if last else 'L%d' % (i + 1))
    return compile(SLOTS[slot][1].format(i=i, go=call, call=call), '<%s %s>' % (slot, mode), 'exec')


COMMON = compile(COMMON, '<common>', 'exec')
view = base = None


def session():
    global view, base, defs
    if view is None:
        h = guppy.hpy()
        defs = h.View.heapdefs
        view = heapyc.HeapView(R, defs)
        gc.collect()
        all_ = view.reachable(immnodeset([R]), immnodeset())
        keep = view.relimg(immnodeset([R]))
        base = immnodeset([x for x in all_ if type(x) is not types.FrameType and x not in keep and x is not R])


def found(limit=None):
    """The numbers of the markers that are reached from the root."""
    view.limitframe = limit
    try:
        r = view.reachable(immnodeset([R]), base)
    finally:
        view.limitframe = None
    return {x.i for x in r if type(x) is M}


def frames_of(tid):
    """The frames of a thread, the first one first."""
    f = sys._current_frames()[tid]
    fs = []
    while f is not None:
        fs.insert(0, f)
        f = f.f_back
    return fs


def expect(ctl, layers, limit=None):
    """What is there for sure, and what may be there, when the frames above number limit of this thread are hidden."""
    me = _thread.get_ident()
    sure, may = set(), set()
    profiles = {}
    n = len(layers)
    for i, (slot, mode) in enumerate(layers):
        who = SLOTS[slot][0]
        t = ctl.tids[i]
        shown = limit is None or t != me or ctl.frames[i] <= limit
        if who == 's' and mode == 'c':
            if shown:
                may.add(i)
        elif who in 'fs':
            if shown:
                sure.add(i)
            elif slot == 'genexp' and ctl.frames[i] - 1 <= limit:
                may.add(i)      # (the one that calls it may show it)
        elif who == 'x':
            # It is in the state of the thread or generator
            place, holder = 'thread', None
            j = i - 1
            while j >= 0:
                if layers[j][1] in ('gen', 'gens', 'coro'):
                    place, holder = 'generator', ctl.frames[j] + (2 if layers[j][0] == 'execd' else 1)
                elif layers[j][0] == 'genexp':
                    place = 'unknown'
                if layers[j][1] == 'thread' or place != 'thread':
                    break
                j -= 1
            there = place == 'thread' or place == 'generator' and (limit is None or t != me or holder <= limit)
            # or on the stack of the next one that handles an exception there
            if i + 1 < n and mode in ('py', 'c') and 'genexp' not in [l[0] for l in layers[i + 1:]]:
                for k in range(i + 1, n):
                    if SLOTS[layers[k][0]][0] == 'x':
                        place = 'unknown'
                        if layers[k][1] != 'c' and (limit is None or t != me or ctl.frames[k] <= limit):
                            sure.add(i)
                        break
                    if layers[k][1] not in ('py', 'c'):
                        break
            elif i + 1 < n and mode in ('py', 'c'):
                place = 'unknown'
            if there or place == 'unknown':
                may.add(i)
            if there and place != 'unknown':
                sure.add(i)
        elif who == 't':
            # (each thread has its own context, and generators have none)
            sure.add(i)
        elif who == 'p':
            profiles[t] = i
    sure |= set(profiles.values())
    for i, (slot, mode) in enumerate(layers):
        if SLOTS[slot][0] == 'p' and i not in sure:
            may.add(i)
    return sure, sure | may


class Wrong(Exception):
    pass


def compare(what, got, sure, may):
    if not sure <= got:
        raise Wrong('%s: markers %s are not found' % (what, sorted(sure - got)))
    if not got <= may:
        raise Wrong('%s: markers %s are found' % (what, sorted(got - may)))


def look(ctl, layers, ctx):
    me = _thread.get_ident()
    sure, may = expect(ctl, layers)
    compare('from the root', found(), sure, may)
    fs = frames_of(me)[:-2]     # (without this one)
    lo = ctl.low
    for k in range(lo, len(fs)):
        sure, may = expect(ctl, layers, k)
        compare('limit %d' % k, found(fs[k]), sure, may)
    ctx.add('limits', len(fs) - lo)
    del fs
    if len(layers) == 1 or (ctx.tier == 'thorough') or all(l[0] in FEW for l in layers):
        names(ctl, ctx)


def names(ctl, ctx):
    """The frames have the names that they should have."""
    me = _thread.get_ident()
    want = {}
    for t in sys._current_frames():
        for k, f in enumerate(frames_of(t)):
            if t == me and f.f_code is frames_of.__code__:
                continue
            want['i0_t%d_f%d' % (t, k)] = f
    f = None
    got = [a for a in dir(R) if a.startswith('i0_t') and a.split('_')[2][:1] == 'f' and a.split('_')[2][1:].isdigit()]
    extra = 'i0_t%d_f%d' % (me, len(frames_of(me)) - 1)
    if set(got) != set(want) or len(got) != len(want):
        raise Wrong('frames shown %s, want %s' % (sorted(got), sorted(want)))
    for a, f in want.items():
        if getattr(R, a) is not f:
            raise Wrong('%s is %r, not %r' % (a, getattr(R, a), f))
        r = {y for z in view.relate(R, f) for y in z}
        if r != {a}:
            raise Wrong('%s is shown as %r' % (a, r))
    fs = frames_of(me)[:-1]
    for k in range(ctl.low, len(fs)):
        view.limitframe = fs[k]
        try:
            for a, f in want.items():
                own = a.startswith('i0_t%d_' % me)
                r = {y for z in view.relate(R, f) for y in z}
                if r != (set() if own and f is not fs[k] else {a}):
                    raise Wrong('with the limit %d, %s is shown as %r' % (k, a, r))
        finally:
            view.limitframe = None
    ctx.add('frames', len(want))
    path(ctx)


NAMED = (types.FrameType, types.CellType, P, dict, tuple, list, types.FunctionType, type(R))


def path(ctx):
    """Each edge on a shortest path from the root to a marker has a name."""
    r = view.reachable(immnodeset([R]), base)
    ms = [x for x in r if type(x) is M]
    front = [R]
    seen = mutnodeset([R])
    src = {}
    while front and ms:
        nxt = []
        for x in front:
            for y in view.relimg(immnodeset([x])):
                if y not in seen and y in r:
                    seen.add(y)
                    src[id(y)] = x
                    nxt.append(y)
        front = nxt
    for m in ms:
        y = m
        while y is not R:
            x = src[id(y)]
            if isinstance(x, NAMED) and not any(view.relate(x, y)):
                raise Wrong('the edge from %s to %s on the path to marker %d has no name' % (type(x).__name__, type(y).__name__, m.i))
            y = x
    ctx.add('paths', len(ms))


def run_stack(layers, final, ctx, look=look):
    """Build the stack and look at it."""
    ctl = Ctl()
    out = []
    threads = _thread._count()
    G = dict(mk=ctl.mk, here=ctl.here, E=E, P=P, sys=sys, types=types, functools=functools, _thread=_thread, VARS=VARS, __name__='G')
    exec(COMMON, G)
    n = len(layers)
    for i, (slot, mode) in enumerate(layers):
        exec(code(slot, mode, i, i == n - 1), G)

    def inside():
        try:
            if not out:
                out.append(None)
                look(ctl, layers, ctx)
        except Wrong as e:
            out[0] = str(e)
        except BaseException as e:
            out[0] = 'raised %r' % e

    f = sys._getframe()
    ctl.low = 0
    while f.f_back:
        ctl.low += 1
        f = f.f_back
    f = None
    if final == 'own':
        G['end'] = inside
        G['L0']()
    else:
        a, b = _thread.allocate_lock(), _thread.allocate_lock()
        a.acquire()
        b.acquire()
        parked = []

        def end():
            if not parked:
                parked.append(1)
                a.release()
                b.acquire()
        G['end'] = end
        _thread.start_new_thread(G['L0'], ())
        if not a.acquire(timeout=60):
            raise SystemError('the thread does not park')
        try:
            inside()
        finally:
            b.release()
    while _thread._count() > threads:
        time.sleep(0)
    G.clear()
    gc.collect(0)
    bad = out[0] if out else 'not looked at'
    if bad:
        ctx.fail(bad)
    alive = {i for i, w in ctl.ws.items() if w() is not None}
    ctx.check(alive == set(range(n)), lambda: 'markers made %s' % sorted(alive))
    got = found()
    ctx.check(not got, lambda: 'markers %s are found when all has ended' % sorted(got))
    ctl.free()


# --------------------------------------------------------- whole sessions

def whole(ctl, layers, ctx):
    """What the user sees: the heap has the markers, and their paths lead to them."""
    sure, may = expect(ctl, layers)
    h = hp.heap()
    compare('in the heap', {x.i for x in h.nodes if type(x) is M}, sure, may)
    # The view is entered at the frame that is parked
    slot, mode = layers[0]
    unnamed = slot in ('gen', 'genstack', 'genexc', 'geninner', 'unstarted', 'coro', 'agen', 'context', 'exc') or mode in ('gen', 'gens', 'coro')
    enter(lambda: [paths(x, ctx, unnamed) for x in h.nodes if type(x) is M])


def enter(f):
    """Look from the frame that calls the one that calls."""
    View.hv.limitframe = sys._getframe(2)
    try:
        return f()
    finally:
        View.hv.limitframe = None


def paths(m, ctx, unnamed=False):
    ps = hp.iso(m).shpaths
    if not ps.numpaths:
        raise Wrong('marker %d has no path' % m.i)
    for k in range(min(ps.numpaths, 10)):
        t = str(ps[k])
        e = (t % 'hp.Root' if '%s' in t else t).replace('hpy()', 'hp')
        ctx.add('paths')
        if '??' in e:
            if unnamed:
                continue    # (generators, contexts and exceptions do not name what they have)
            raise Wrong('path %s is not named' % e)
        if any(c in e for c in ('->', '.f_locals[', '.f_func', 'keys()', '<')):
            # (not an expression; locals are there)
            continue
        try:
            x = eval(e, dict(hp=hp))
        except Exception as err:
            raise Wrong('path %s raises %r' % (e, err))
        if x is not m:
            raise Wrong('path %s leads to %r' % (e, x))
        x = None
        ctx.add('evaluated paths')


hp = None


def use():
    global hp, View
    session()
    if hp is None:
        hp = guppy.hpy()
        View = hp._parent.View


# How the interpreter and threads hold a marker: statements to set it, in a session and in a thread, and to end it
STATES = dict(
    module=('sys.modules["xx"] = P(mk(0))', 'del sys.modules["xx"]'),
    sysdict=('sys.xx = mk(0)', 'del sys.xx'),
    builtin=('builtins.xx = mk(0)', 'del builtins.xx'),
    search=('codecs.register(P(mk(0)))', 'codecs.unregister([x for x in hp.Root.i0_codec_search_path if type(x) is P][0])'),
    errors=('codecs.register_error("xx", P(mk(0)))', 'codecs.register_error("xx", len)'),
    codec=('codecs.register(search); "".encode("xxcodec")', 'codecs.unregister(search); [hp.Root.i0_codec_search_cache.pop(k, 0) for k in ("xxcodec",)]'),
    interp=('idict()["xx"] = mk(0)', 'del idict()["xx"]'),
    tdict=('tdict()["xx"] = mk(0)', 'del tdict()["xx"]'),
    firstiter=('sys.set_asyncgen_hooks(firstiter=P(mk(0)))', 'sys.set_asyncgen_hooks(firstiter=None)'),
    finalizer=('sys.set_asyncgen_hooks(finalizer=P(mk(0)))', 'sys.set_asyncgen_hooks(finalizer=None)'),
    local=('LOCAL.x = mk(0)', 'del LOCAL.x'),
    context=('VARS[0].set(mk(0))', 'VARS[0].set(None)'),
    trace=('sys.settrace(Tr(mk(0)))', 'sys.settrace(None)'),
    profile=('sys.setprofile(P(mk(0)))', 'sys.setprofile(None)'),
    hook=('sys.excepthook = P(mk(0))', 'sys.excepthook = sys.__excepthook__'),
    path_hook=('sys.path_hooks.append(P(mk(0)))', 'sys.path_hooks.pop()'),
    exc_info=('try:\n    raise E(mk(0))\nexcept E as e:\n    e.__traceback__ = None\n    sys.last_value = e\n', 'del sys.last_value'),
    gc_callback=('gc.callbacks.append(P(mk(0)))', 'gc.callbacks.pop()'),
    weak_callback=('KEEP.append(weakref.ref(TARGET, P(mk(0))))', 'KEEP.pop()'),
)


class Tr(P):
    __slots__ = ()

    def __call__(self, *args):
        return None


LOCAL = threading.local()
KEEP = []
TARGET = E()
idict = lambda: py('PyInterpreterState_GetDict', py0('PyInterpreterState_Get'))
tdict = lambda: py('PyThreadState_GetDict')


def py0(name):
    f = getattr(ctypes.pythonapi, name)
    f.restype = ctypes.c_void_p
    f.argtypes = []
    return f()


def py(name, *args):
    f = getattr(ctypes.pythonapi, name)
    f.restype = ctypes.py_object
    f.argtypes = [ctypes.c_void_p] * len(args)
    x = f(*args)
    incref(x)   # (it is borrowed)
    return x


def state(name, where, ctx):
    """Set it, look at it, end it, look again."""
    use()
    ctl = Ctl()

    def search(n, mk=ctl.mk):
        if n == 'xxcodec':
            p = P(mk(0))
            return codecs.CodecInfo(lambda *a, p=p: (b'', 0), None, name='xxcodec')
    # Everything is made in a dictionary that is not reached: only hidden references keep it
    G = dict(mk=ctl.mk, P=P, Tr=Tr, E=E, sys=sys, codecs=codecs, gc=gc, builtins=builtins, weakref=weakref, VARS=VARS, LOCAL=LOCAL, KEEP=KEEP, TARGET=TARGET, idict=idict, tdict=tdict,
             hp=hp, search=search)
    begin, end = STATES[name]
    hooks = sys.getprofile(), sys.gettrace()
    out = []

    def inside():
        # (tracing starts when the thread goes on)
        try:
            h = hp.heap()
            compare('in the heap', {x.i for x in h.nodes if type(x) is M}, {0}, {0})
            enter(lambda: [paths(x, ctx, name in ('context', 'codec', 'local', 'exc_info')) for x in h.nodes if type(x) is M])
        except Wrong as e:
            out.append(str(e))
        except BaseException as e:
            out.append('raised %r' % e)
    if where == 'own':
        exec(begin, G)
        try:
            inside()
        finally:
            exec(end, G)
    else:
        a, b = _thread.allocate_lock(), _thread.allocate_lock()
        a.acquire()
        b.acquire()
        n = _thread._count()

        def body():
            try:
                exec(begin, G)
                a.release()
                b.acquire()
                exec(end, G)
            except BaseException as e:
                out.append('setting raised %r' % e)
                if a.locked():
                    a.release()
        _thread.start_new_thread(body, ())
        a.acquire()
        inside()
        b.release()
        while _thread._count() > n:
            time.sleep(0)
    G.clear()
    search = None
    gc.collect()
    if out:
        ctx.fail(out[0])
    alive = {i for i, w in ctl.ws.items() if w() is not None}
    ctx.check(alive == {0}, lambda: 'markers made %s' % sorted(alive))
    ms = {x.i for x in hp.heap().nodes if type(x) is M}
    ctx.check(not ms, 'the marker is still found when it is gone')
    ctl.free()


SHOWN = dict(
    local='def f(n):\n    x = mk(0)\n    return g(n)\n',
    arg='def f(n):\n    return h(mk(0), n)\ndef h(x, n):\n    return g(n)\n',
    cell='def f(n):\n    x = mk(0)\n    h = lambda: x\n    return g(n)\n',
)


def shown(slot, depth, thread, ctx):
    """The path to a marker that a frame holds, as the user gets it."""
    use()
    ctl = Ctl()
    out = []

    def g(n):
        if n:
            return g(n - 1)
        out.append(str(hp.iso(ctl.ws[0]()).shpaths))
    G = dict(mk=ctl.mk, g=g)
    exec(SHOWN[slot], G)
    if thread:
        a, b = _thread.allocate_lock(), _thread.allocate_lock()
        a.acquire()
        b.acquire()
        n = _thread._count()

        def there(n, g=g):
            a.release()
            b.acquire()
        G['g'] = there
        _thread.start_new_thread(G['f'], (0,))
        a.acquire()
        try:
            g(depth)
        finally:
            b.release()
        while _thread._count() > n:
            time.sleep(0)
    else:
        G['f'](depth)
    G.clear()
    ctl.free()
    t = out[0]
    lines = t.split('\n')
    key = None
    if not thread and re.fullmatch(r" 0: hpy?(?:\(\))?\.Root\.\?\?(\.f_back)+\.f_locals\['x'\](\.cell_contents)?", lines[0]):
        key = 'shown-through-ended-frames'
    ctx.check(all(re.fullmatch(r" \d+: hpy?(?:\(\))?\.Root\.i0_t\d+_f\d+(\.f_back)*\.f_locals\['x'\](\.cell_contents)?", l) for l in lines), lambda: 'the path is shown as %r' % t, key=key)


# ------------------------------------------------------------------- names

def attrs(depth, thread, ctx):
    """Each name of the root resolves, and is the one the relation has; others raise."""
    use()
    import warnings

    def deep(n):
        return deep(n - 1) if n else there()

    def there():
        me = _thread.get_ident()
        ts = sys._current_frames()
        ids = sorted(ts)
        for a in dir(R):
            if not a.startswith('i0_'):
                continue
            try:
                x = getattr(R, a)
            except AttributeError:
                # (what is not set)
                continue
            if type(x) is types.FrameType and a.split('_')[2][1:] == str(len(frames_of(me))):
                continue
            if x is None:
                continue
            names = {y for z in view.relate(R, x) for y in z}
            ctx.check(a in names or a.startswith('i0_t') and '_f' in a and type(x) is not types.FrameType and not a.split('_f')[-1].isdigit() and a in names,
                      lambda: '%s is %r, which is shown as %s' % (a, x, names))
            ctx.add('names')
            if a.startswith('i0_t'):
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    y = getattr(R, a[3:])
                ctx.check(y is x or type(x) is types.FrameType and y is not None, lambda: '%s is %r, but %s is %r' % (a, x, a[3:], y))
                ctx.check(len(w) == 1 and w[0].category is DeprecationWarning, lambda: '%s warns %r' % (a[3:], w))
        bad = ['i1_modules', 'i-1_modules', 'i0_', 'i0', 'i_modules', 'i0_none', 'x', '', 'i0_t1_f0', 'i0_t_f0', 'i0_f0', 't1_f0', 'i0_t%d_none' % me, 'i0_t%d_' % me, 'i0_t%d' % me,
               'i1_t%d_f0' % me, 'i0_t%d_f' % me, 'i0_t%d_f-1' % me, 'i0_t%d_f0x' % me, 'i0_modulesx', 'i0_t%d_dictx' % me, 't%d_none' % me, 'i0_\udc80', 'i0_\0', 'i00_m']
        for t in ids:
            for k in range(3):
                bad.append('i0_t%d_f%d' % (t, len(frames_of(t)) + 1 + k))
        for a in bad:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    x = getattr(R, a)
            except (AttributeError, UnicodeError):
                pass
            else:
                ctx.fail('%r is %r' % (a, x))
            ctx.add('no names')
    if thread:
        lock = _thread.allocate_lock()
        lock.acquire()
        n = _thread._count()

        def body():
            try:
                deep(depth)
            finally:
                lock.release()
        _thread.start_new_thread(body, ())
        lock.acquire()
        while _thread._count() > n:
            time.sleep(0)
    else:
        deep(depth)


def stacks(tier):
    ls = list(itertools.product(SLOTS, MODES))
    for l in ls:
        yield (l,)
    for a in ls:
        for b in ls:
            yield (a, b)
    if tier == 'thorough':
        few = [l for l in ls if l[0] in FEW]
        for a in ls:
            for b in few:
                for c in few:
                    yield (a, b, c)


def shards(tier):
    return [('stacks', i, 16) for i in range(16)] + [('whole', i, 8) for i in range(8)] + [('states', 0, 1)]


def run(shard, ctx):
    session()
    gc.disable()
    what, k, n = shard
    if what == 'states':
        for name in STATES:
            for where in ('own', 'other'):
                if ctx.case('state', name, where):
                    state(name, where, ctx)
        for slot in SHOWN:
            for depth in range(3):
                for thread in (False, True):
                    if ctx.case('shown', slot, depth, thread):
                        shown(slot, depth, thread, ctx)
        for depth in range(6):
            for thread in (False, True):
                if ctx.case('names', depth, thread):
                    attrs(depth, thread, ctx)
        return
    if what == 'whole':
        use()
        for j, l in enumerate(itertools.product(SLOTS, MODES)):
            for final in ('own', 'other'):
                if j % n == k and ctx.case('whole', l, final):
                    run_stack((l,), final, ctx, whole)
        return
    for j, layers in enumerate(stacks(ctx.tier)):
        if j % n != k:
            continue
        for final in ('own', 'other'):
            if ctx.case('stack', layers, final):
                run_stack(layers, final, ctx)
        if j % 50 == k:
            gc.collect()
