"""Attributes of session objects: resolved once, shared, whatever the order of access."""
import itertools, os, sys, types, importlib.machinery, importlib.abc
import guppy
from guppy.etc import Glue

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of access histories of the real implementation over generated interface configurations, in lock step with a model'
RULE = ('packages with two modules of two attributes each, every attribute provided in every combination of ways (value, module value, method, computed, computed '
        'from another attribute of the same or the other module, imported, found by path, failing at first, failing always, missing): all sequences of accesses, and 25 failing ones; '
        'all configurations of the permission to set, with all sequences of getting, setting and deleting through two holders; packages whose modules '
        'are missing or fail to be imported; the real session tree: every attribute first of all in a new session, and all pairs in one module')
BOUNDS = dict(quick='12^4 configurations (those with interchangeable names once) and 3 accesses; 4 operations on 3 attributes through 2 holders; the real tree: every attribute alone, twice, and after every computed attribute of its module',
              thorough='4 accesses for half of the providers, 5 operations; the real tree: all pairs in each module')
ASSUME = ['one thread', 'computations of attributes do not need each other, or fail as recursion', 'importers take the value that the attribute has at their first access',
          'no more than eight attributes of one module need each other in a chain (more than ten are reported as recursion)',
          'the session tree without heapy.Spec (never imported by a session) and what needs tkinter, which is not installed here']
NPROC = 8

P = '_mc_pkg'
SLOTS = [('A', 'x'), ('A', 'y'), ('B', 'x'), ('B', 'y')]
OTHERM = dict(A='B', B='A')
OTHERN = dict(x='y', y='x')
KINDS = ['const', 'module', 'method', 'get', 'get_same', 'get_other', 'get_share', 'import', 'import_cross', 'once', 'never', 'none']


class Oops(Exception):
    pass


class Val:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Val(%s)' % (self.what,)


# ------------------------------------------------------------ configurations

class World:
    """The modules of one configuration, and a count of what was computed."""

    def __init__(self, config, flags={}, paths={}, extra=None):
        self.config, self.flags, self.paths = config, flags, paths
        self.calls = []
        self.left = {s: 1 for s, k in config.items() if k == 'once'}
        self.consts = {}
        top = types.ModuleType(P)
        top.__file__ = '/nowhere/__init__.py'
        top.__path__ = []
        sys.modules[P] = top
        for m in 'AB':
            mod = types.ModuleType(P + '.' + m)
            mod.__file__ = '/nowhere/%s.py' % m
            sys.modules[P + '.' + m] = mod
            setattr(top, m, mod)
            ns = {}
            imports = []
            for n in 'xy':
                self.provide(m, n, config.get((m, n), 'none'), ns, imports, mod)
            for k, v in flags.get(m, {}).items():
                ns[k] = v
            if imports:
                ns['_imports_'] = tuple(imports)
            if m in paths:
                ns['_GLUEPATH_'] = paths[m]
            if extra:
                extra(m, ns, mod)
            mod._GLUECLAMP_ = type('_GLUECLAMP_', (), ns)
        self.root = Glue.Root()

    def provide(self, m, n, kind, ns, imports, mod):
        slot = m, n
        if kind == 'const':
            ns[n] = self.consts[slot] = Val(slot)
        elif kind == 'module':
            self.consts[slot] = Val(slot)
            setattr(mod, n, self.consts[slot])
        elif kind == 'method':
            def method(inter, *args):
                return (inter._share.name, slot, args)
            ns[n] = method
        elif kind == 'get':
            def get(inter):
                self.calls.append(slot)
                return Val(slot)
            ns['_get_' + n] = get
        elif kind == 'get_same':
            def get(inter):
                self.calls.append(slot)
                return ('of', getattr(inter, OTHERN[n]))
            ns['_get_' + n] = get
        elif kind == 'get_other':
            def get(inter):
                self.calls.append(slot)
                return ('of', getattr(getattr(inter._parent, OTHERM[m]), n))
            ns['_get_' + n] = get
        elif kind == 'get_share':
            def get(inter):
                self.calls.append(slot)
                return getattr(inter._parent, OTHERM[m])
            ns['_get_' + n] = get
        elif kind == 'import':
            imports.append('_parent.%s:%s' % (OTHERM[m], n))
        elif kind == 'import_cross':
            # The value is provided by the other name of the other module
            def get(inter):
                self.calls.append(slot)
                return getattr(getattr(getattr(inter._root, P), OTHERM[m]), OTHERN[n])
            ns['_get_' + n] = get
        elif kind == 'once':
            def get(inter):
                self.calls.append(slot)
                if self.left[slot]:
                    self.left[slot] -= 1
                    raise Oops(slot)
                return Val(slot)
            ns['_get_' + n] = get
        elif kind == 'never':
            def get(inter):
                self.calls.append(slot)
                raise Oops(slot)
            ns['_get_' + n] = get

    def holder(self, k, m):
        """An interface of module m: those of the root, of the other module, and one of its own."""
        if k == 0:
            return getattr(getattr(self.root, P), m)
        if k == 1:
            return getattr(getattr(getattr(self.root, P), OTHERM[m])._parent, m)
        sh = getattr(getattr(self.root, P), m)._share
        return Glue.Owner('').makeInterface({'_name': ''}, sh, 'w')


# ------------------------------------------------------------ the model

class Err(Exception):
    def __init__(self, kind, slot=None):
        self.kind, self.slot = kind, slot


class Model:
    """What each access gives: the provider's meaning, applied at the first access that succeeds."""

    def __init__(self, w):
        self.w = w
        self.data = {}
        self.left = {s: 1 for s, k in w.config.items() if k == 'once'}
        self.ok = []        # computed successfully, in order
        self.failed = []    # failures of the computations themselves

    def get(self, slot, stack=()):
        if slot in self.data:
            return self.data[slot]
        if slot in stack:
            raise Err('recursion')
        m, n = slot
        k = self.w.config.get(slot, 'none')
        st = stack + (slot,)
        if k in ('const', 'module'):
            v = ('const', slot)
        elif k == 'method':
            v = ('method', slot)
        elif k == 'get':
            v = ('new', slot)
        elif k == 'get_same':
            v = ('of', self.get((m, OTHERN[n]), st))
        elif k == 'get_other':
            v = ('of', self.get((OTHERM[m], n), st))
        elif k == 'get_share':
            v = ('share', OTHERM[m])
        elif k == 'import':
            v = self.get((OTHERM[m], n), st)
        elif k == 'import_cross':
            v = self.get((OTHERM[m], OTHERN[n]), st)
        elif k == 'once':
            if self.left[slot]:
                self.left[slot] -= 1
                raise Err('oops', slot)
            v = ('new', slot)
        elif k == 'never':
            raise Err('oops', slot)
        elif m in self.w.paths:
            p = (self.w.paths[m].split('.')[-1], n)
            try:
                v = self.get(p, st)
            except Err as e:
                if e.kind != 'attribute':
                    raise
                raise Err('attribute', slot)
        else:
            raise Err('attribute', slot)
        self.data[slot] = v
        return v


def same(w, got, want, seen):
    """Compares a value with what the model says, and with what that was before."""
    k = want[0]
    if k == 'const':
        return got is w.consts[want[1]]
    if k == 'set':
        return got is want[1]
    if k == 'method':
        m, n = want[1]
        return isinstance(got, types.MethodType) and got(1) == ('%s.%s' % (P, m), want[1], (1,))
    if k == 'new':
        if not isinstance(got, Val) or got.what != want[1]:
            return False
        return seen.setdefault(want[1], got) is got
    if k == 'of':
        return isinstance(got, tuple) and len(got) == 2 and got[0] == 'of' and same(w, got[1], want[1], seen)
    if k == 'share':
        return isinstance(got, Glue.Interface) and got._share is getattr(getattr(w.root, P), want[1])._share
    raise ValueError(k)


def outcome(f):
    try:
        return 'value', f()
    except Oops as e:
        return 'oops', e.args[0]
    except Glue.RecursionError:
        return 'recursion', None
    except AttributeError as e:
        return 'attribute', e
    except ValueError as e:
        return 'value error', e
    except Exception as e:
        return 'other', e


def check_get(ctx, w, model, holder, slot, seen, where):
    m, n = slot
    kind, got = outcome(lambda: getattr(w.holder(holder, m), n))
    try:
        want = model.get(slot)
    except Err as e:
        if e.kind == 'oops':
            ok = kind == 'oops' and got == e.slot
        else:
            ok = kind == e.kind
        if not ok:
            ctx.fail('%s: %s.%s gave %s %r, want an error: %s %s' % (where, m, n, kind, got, e.kind, e.slot))
        return ok
    if kind != 'value' or not same(w, got, want, seen):
        ctx.fail('%s: %s.%s gave %s %r, want %r' % (where, m, n, kind, got, want))
        return False
    # The same object for every holder (interfaces: the same module)
    for h in range(3):
        g2 = getattr(w.holder(h, m), n)
        if g2 is not got and not (want[0] == 'share' and g2._share is got._share) and not (want[0] == 'method' and g2 == got):
            ctx.fail('%s: %s.%s is %r for one and %r for another holder' % (where, m, n, got, g2))
            return False
    return True


def check_calls(ctx, w, model, where):
    """No computation is made again when it has succeeded, nor made unless asked for."""
    for s, v in model.data.items():
        k = w.config.get(s)
        if k in ('get', 'once'):
            n = w.calls.count(s)
            want = 1 + (k == 'once' and model.left[s] == 0 and s in model.left)
            if n != want:
                ctx.fail('%s: %s computed %d times, want %d' % (where, s, n, want))
                return False
    for s in set(w.calls) - set(model.data):
        if w.config.get(s) == 'get':
            ctx.fail('%s: %s computed without being asked for' % (where, s))
            return False
    return True


# ------------------------------------------------------------ access orders

def swapname(c):
    return c[1], c[0], c[3], c[2]


def swapmod(c):
    return c[2], c[3], c[0], c[1]


def canonical(c):
    return c == min(c, swapname(c), swapmod(c), swapname(swapmod(c)))


def run_order(shard, ctx):
    depth = 3
    kinds = KINDS
    if shard.get('deep'):
        depth, kinds = 4, ['const', 'method', 'get_same', 'get_other', 'import', 'import_cross', 'once', 'none']
    for i, c in enumerate(itertools.product(kinds, repeat=4)):
        if i % shard['of'] != shard['k'] or not canonical(c):
            continue
        if not ctx.case('order', c, depth):
            continue
        config = dict(zip(SLOTS, c))
        ctx.state((c, depth))
        # Prefixes are parts of the longer sequences: only the maximal are run
        for seq in itertools.product(SLOTS, repeat=depth):
            w = world(config)
            model = Model(w)
            seen = {}
            for h, s in enumerate(seq):
                if not check_get(ctx, w, model, h % 3, s, seen, '%s after %s' % (config, seq[:h])):
                    return
                ctx.add('transitions')
            if not check_calls(ctx, w, model, '%s: %s' % (config, seq)):
                return


CACHE = {}


def world(config):
    """A new session for the modules of the configuration, made once."""
    key = tuple(sorted(config.items()))
    w = CACHE.get('w') if CACHE.get('key') == key else None
    if w is None:
        w = World(config)
        CACHE['w'], CACHE['key'] = w, key
    w.calls = []
    w.left = {s: 1 for s, k in config.items() if k == 'once'}
    w.root = Glue.Root()
    return w


def run_path(shard, ctx):
    """Names found in other modules by _GLUEPATH_."""
    for i, c in enumerate(itertools.product([k for k in KINDS if not k.startswith('import')], repeat=2)):
        if i % shard['of'] != shard['k']:
            continue
        for path in '_parent.B', '_root.%s.B' % P:
            for ax in 'none', 'get', 'get_same':
                if not ctx.case('path', c, path, ax):
                    continue
                config = {('A', 'x'): ax, ('A', 'y'): 'none', ('B', 'x'): c[0], ('B', 'y'): c[1]}
                # B asking A for what A finds in B would be circular
                if 'get_other' in c:
                    continue
                for seq in itertools.product(SLOTS, repeat=3):
                    w = World(config, paths={'A': path})
                    model = Model(w)
                    seen = {}
                    ctx.state((c, path, ax))
                    for h, s in enumerate(seq):
                        if not check_get(ctx, w, model, h % 3, s, seen, '%s, path %s, after %s' % (config, path, seq[:h])):
                            return
                        ctx.add('transitions')
                    if not check_calls(ctx, w, model, '%s: %s' % (config, seq)):
                        return


def run_fail(shard, ctx):
    """Many failing accesses, each with its own error, and then those that succeed."""
    for c in itertools.product(KINDS, repeat=4):
        if c[0] not in ('never', 'none', 'get_same', 'get_other', 'import', 'import_cross') or not canonical(c[2:] + c[:2]) and not canonical(c):
            continue
        config = dict(zip(SLOTS, c))
        w = World(config)
        m = Model(w)
        try:
            m.get(('A', 'x'))
            continue
        except Err as e:
            if e.slot and c[SLOTS.index(e.slot)] == 'once':
                continue
        if not ctx.case('fail', c):
            continue
        ctx.state(('fail', c))
        seen = {}
        model = Model(w)
        for j in range(25):
            if not check_get(ctx, w, model, j % 3, ('A', 'x'), seen, '%s: failing access %d' % (config, j)):
                return
        for s in SLOTS[::-1]:
            # The first access may fail once more
            for j in range(2):
                if not check_get(ctx, w, model, j, s, seen, '%s: after failing accesses' % config):
                    return
        ctx.add('transitions', 33)


# ------------------------------------------------------------ setting

FLAGS = ['none', 'setable', 'chgable', 'hook', 'noclamp']


def run_set(shard, ctx):
    depth = 4 if ctx.tier == 'quick' else 5
    V1, V2, BAD = Val('v1'), Val('v2'), Val('bad')
    ops = []
    for h in (0, 1):
        ops += [('get', h, ('A', 'x')), ('set', h, ('A', 'x'), V1), ('set', h, ('A', 'x'), V2)]
    ops += [('get', 0, ('A', 'y')), ('get', 0, ('B', 'x')), ('set', 0, ('A', 'x'), BAD), ('set', 1, ('A', 'x'), 'same'), ('del', 0, ('A', 'x')),
            ('set', 0, ('B', 'x'), V1), ('set', 1, ('A', 'z'), V1), ('get', 0, ('A', 'z'))]
    configs = list(itertools.product(['const', 'module', 'get', 'once', 'none'], ['get_same', 'const'], ['import', 'get_other'], FLAGS))
    for i, (ax, ay, bx, flag) in enumerate(configs):
        if i % shard['of'] != shard['k']:
            continue
        if flag == 'noclamp' and (ax != 'module' or ay != 'const'):
            continue
        config = {('A', 'x'): ax, ('A', 'y'): ay, ('B', 'x'): bx}
        fl = {}
        if flag == 'setable':
            fl = {'A': {'_setable_': ('x',)}}
        elif flag == 'chgable':
            fl = {'A': {'_chgable_': ('x',)}}
        elif flag == 'hook':
            def hook(inter, v):
                if v is BAD:
                    raise Oops('hook')
            fl = {'A': {'_chgable_': ('x',), '_set_x': hook}}
        w = World(config, flags=fl)
        if flag == 'noclamp':
            del sys.modules[P + '.A']._GLUECLAMP_
            if ay == 'const':
                sys.modules[P + '.A'].y = w.consts['A', 'y']
        for first in range(len(ops)):
            if not ctx.case('set', ax, ay, bx, flag, first):
                continue
            for rest in itertools.product(range(len(ops)), repeat=depth - 1):
                w.calls = []
                w.left = {s: 1 for s, k in config.items() if k == 'once'}
                w.root = Glue.Root()
                model = Model(w)
                seen = {}
                ctx.state((ax, ay, bx, flag))
                for j, o in enumerate((first,) + rest):
                    if not do_op(ctx, w, model, ops[o], flag, seen, (config, flag, (first,) + rest[:j])):
                        return
                    ctx.add('transitions')


def do_op(ctx, w, model, op, flag, seen, where):
    what, h, slot = op[:3]
    m, n = slot
    if what == 'get':
        kind, got = outcome(lambda: getattr(w.holder(h, m), n))
        try:
            want = model.get(slot)
        except Err as e:
            if kind != e.kind or e.kind == 'oops' and got != e.slot:
                ctx.fail('%s: getting %s gave %s %r, want %s' % (where, slot, kind, got, e.kind))
                return False
            return True
        if kind != 'value' or not same(w, got, want, seen):
            ctx.fail('%s: getting %s by holder %d gave %s %r, want %r' % (where, slot, h, kind, got, want))
            return False
        return True
    if what == 'del':
        outcome(lambda: delattr(w.holder(h, m), n))
        return True     # must make no difference to what is seen later
    v = op[3]
    if isinstance(v, str):
        try:
            v = getattr(w.holder(h, m), n)
            model.get(slot)
        except Exception:
            try:
                model.get(slot)
            except Err:
                pass
            return True
    kind, got = outcome(lambda: setattr(w.holder(h, m), n, v))
    cur = model.data.get(slot)
    issame = cur is not None and same(w, v, cur, seen) and cur[0] != 'method'
    allowed = {'none': (), 'noclamp': (), 'setable': ('x',), 'chgable': ('x',), 'hook': ('x',)}[flag] if m == 'A' else ()
    if flag == 'noclamp' and m == 'A':
        want = 'value error'
    elif n not in allowed:
        want = 'value' if issame else 'value error'
    elif flag == 'setable':
        want = 'value' if cur is None or issame else 'value error'
    elif flag == 'hook' and v.what == 'bad':
        want = 'oops'
    else:
        want = 'value'
    if kind != want:
        ctx.fail('%s: setting %s to %r gave %s %r, want %s' % (where, slot, v, kind, got, want))
        return False
    if want == 'value' and not issame:
        model.data[slot] = ('set', v)
    return True


# ------------------------------------------------------------ imports

class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Modules of a package that fail in a given way the first times they are imported."""

    def __init__(self):
        self.mods = {}
        self.n = {}

    def find_spec(self, name, path=None, target=None):
        if name in self.mods:
            pk = name == P or name.endswith('.Q')
            sp = importlib.machinery.ModuleSpec(name, self, origin='/nowhere/%s.py' % name.rsplit('.')[-1], is_package=pk)
            if pk:
                sp.origin = '/nowhere/__init__.py'
            sp.has_location = True
            return sp

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        n = mod.__name__
        self.n[n] = self.n.get(n, 0) + 1
        r = self.mods[n]
        f = r(self.n[n], mod)


def purge():
    for n in list(sys.modules):
        if n == P or n.startswith(P + '.'):
            del sys.modules[n]


def run_import(shard, ctx):
    f = Finder()
    sys.meta_path.append(f)
    try:
        def plain(n, mod):
            mod.value = Val(mod.__name__)

        def failing(exc):
            def run(n, mod):
                if n <= 1:
                    raise exc
                mod.value = Val(mod.__name__)
            return run

        def needs(n, mod):
            import _mc_missing_module

        def never(n, mod):
            raise Oops('import')

        def clamp(n, mod):
            mod.value = Val(mod.__name__)

            class _GLUECLAMP_:
                def _get_c(self):
                    return self._parent.M
                _imports_ = '_parent.M:value', '_parent:M',
            mod._GLUECLAMP_ = _GLUECLAMP_
        behaviours = dict(plain=plain, oops=failing(Oops('import')), attr=failing(AttributeError('own')), imp=failing(ImportError('own')), needs=needs, never=never, missing=None)
        for a, b in itertools.product(behaviours, repeat=2):
            for topattr in (0, 1):
                for seq in itertools.product(['M', 'N', 'C', 'missing', 'M.value'], repeat=3):
                    if not ctx.case('import', a, b, topattr, seq):
                        continue
                    purge()
                    f.n = {}

                    def top(n, mod):
                        if topattr:
                            mod.missing = Val('attr')
                    f.mods = {P: top, P + '.C': clamp}
                    if behaviours[a]:
                        f.mods[P + '.M'] = behaviours[a]
                    if behaviours[b]:
                        f.mods[P + '.N'] = behaviours[b]
                    root = Glue.Root()
                    p = getattr(root, P)
                    tried = {}
                    shares = {}
                    ctx.state((a, b, topattr))

                    def module(name, how):
                        k = tried[name] = tried.get(name, 0) + 1
                        kind, got = outcome(lambda: getattr(p, name))
                        if how in ('plain', 'clamp') or how in ('oops', 'attr', 'imp') and k > 1:
                            if kind != 'value' or not isinstance(got, Glue.Interface) or shares.setdefault(name, got._share) is not got._share:
                                ctx.fail('%s/%s: access %d of %s gave %s %r' % (a, b, k, name, kind, got))
                            else:
                                if got._module is not sys.modules[P + '.' + name]:
                                    ctx.fail('%s is another module' % name)
                                if f.n[P + '.' + name] != (1 if how in ('plain', 'clamp') else 2):
                                    ctx.fail('%s/%s: %s imported %d times' % (a, b, name, f.n[P + '.' + name]))
                        else:
                            want = dict(oops='oops', attr='attribute', imp='other', needs='other', never='oops', missing='attribute')[how]
                            if kind != want:
                                ctx.fail('%s/%s: access %d of %s (%s) gave %s %r' % (a, b, k, name, how, kind, got))
                            elif how == 'needs' and '_mc_missing_module' not in str(got) or how in ('attr', 'imp') and got.args != ('own',):
                                ctx.fail('%s/%s: %s raised %r instead of its own error' % (a, b, name, got))

                    for s in seq:
                        ctx.add('transitions')
                        if s == 'M':
                            module('M', a)
                        elif s == 'N':
                            module('N', b)
                        elif s == 'missing':
                            kind, got = outcome(lambda: p.missing)
                            if topattr:
                                if kind != 'value' or got is not sys.modules[P].missing:
                                    ctx.fail('attribute of a package: %s %r' % (kind, got))
                            elif kind != 'attribute':
                                ctx.fail('missing attribute of a package: %s %r' % (kind, got))
                        elif s == 'M.value':
                            if tried.get('M') and (a == 'plain' or a in ('oops', 'attr', 'imp') and tried['M'] > 1):
                                if p.M.value is not sys.modules[P + '.M'].value or p.C.value is not p.M.value:
                                    ctx.fail('value of a module')
                        else:
                            module('C', 'clamp')
                            # The module it imports is that of the package
                            for n in 'c', 'M':
                                if a == 'plain':
                                    if getattr(p.C, n)._share is not p.M._share:
                                        ctx.fail('%s of C is another module' % n)
                                    tried['M'] = 1
        purge()
        # Import directives of several parts, whose modules fail to be imported
        order = list(itertools.product([k for k in behaviours if k != 'clamp'], ['plain', 'oops', 'imp'], (0, 1), itertools.product('vwM', repeat=3)))
        for a, q, pre, seq in order:
            if not ctx.case('parts', a, q, pre, seq):
                continue
            purge()
            f.n = {}
            ctx.state(('parts', a, q, pre))

            def user(n, mod):
                class _GLUECLAMP_:
                    _imports_ = ('_parent.Q.M:v,w', '_parent.Q:M', '_parent:Q')[pre:], '_root.%s.Q.M:v' % P
                    _imports_ = _imports_[0] + (_imports_[1],)
                mod._GLUECLAMP_ = _GLUECLAMP_

            def package(n, mod):
                behaviours[q](n, mod)
                mod.v, mod.w = 'wrong v', 'wrong w'

            def leaf(n, mod):
                behaviours[a](n, mod)
                mod.v, mod.w = 'v', 'w'
            f.mods = {P: lambda n, mod: None, P + '.U': user, P + '.Q': package}
            if behaviours[a]:
                f.mods[P + '.Q.M'] = leaf
            u = getattr(Glue.Root(), P).U
            fails = int(q != 'plain')
            okq = q == 'plain'
            tried = 0
            for s in seq:
                ctx.add('transitions')
                if pre and s in 'w':
                    continue
                kind, got = outcome(lambda: getattr(u, s))
                if not okq:
                    okq = True
                    want = dict(oops='oops', imp='other')[q]
                else:
                    tried += 1
                    want = dict(plain='value', oops='value' if tried > 1 else 'oops', attr='value' if tried > 1 else 'attribute', imp='value' if tried > 1 else 'other',
                                needs='other', never='oops', missing='attribute')[a]
                if kind != want or want == 'value' and (got._module is not sys.modules[P + '.Q.M'] if s == 'M' else got != s):
                    ctx.fail('%s in %s: %s imported gave %s %r, want %s' % (a, q, s, kind, got, want))
                    break
        purge()
        # A clamp that is an interface itself, preloaded attributes, wrapped attributes
        log = []
        for pre in itertools.product((0, 1), repeat=2):
            for seq in itertools.permutations(['p', 'q', 'w', 'n'], 3):
                if not ctx.case('clamp', pre, seq):
                    continue

                def special(n, mod):
                    class _GLUECLAMP_(Glue.Interface):
                        _preload_ = tuple(x for x, y in zip('pq', pre) if y)
                        _nowrap_ = 'n', 'own'

                        def own(self):
                            return 'own', self

                        def _get_p(self):
                            log.append('p')
                            return [1]

                        def _get_q(self):
                            log.append('q')
                            return [self.p]

                        def _get_w(self):
                            log.append('w')
                            return [3]

                        def _get_n(self):
                            log.append('n')
                            return [4]

                        def _wrapattr_(self, x, name):
                            log.append(('wrap', name))
                            return 'wrapped', x
                    mod._GLUECLAMP_ = _GLUECLAMP_
                purge()
                f.mods = {P: lambda n, mod: None, P + '.S': special}
                del log[:]
                root = Glue.Root()
                s = getattr(root, P).S
                s2 = Glue.Owner('').makeInterface({'_name': ''}, s._share, '')
                for x, y in zip('pq', pre):
                    if y and x not in log:
                        ctx.fail('%s was not preloaded' % x)
                for i, n in enumerate(seq):
                    v = getattr((s, s2)[i % 2], n)
                    if v is not getattr((s2, s)[i % 2], n):
                        ctx.fail('%s: not the same' % n)
                    if (n == 'n') != isinstance(v, list):
                        ctx.fail('%s: wrapped the wrong way: %r' % (n, v))
                if 'q' in seq and s.q[1][0] is not s.p:
                    ctx.fail('q is not made from p')
                if max([log.count(x) for x in log]) != 1:
                    ctx.fail('computed more than once: %s' % log)
                if s.own() != ('own', s):
                    ctx.fail('method of an interface')
        purge()
        # A chain of attributes of different modules, each needing the next, asked for from every end
        for length in range(1, 9):
            for start in range(length):
                if not ctx.case('chain', length, start):
                    continue
                count = []

                def chain(n, mod):
                    ns = {}
                    for i in range(length):
                        def get(self, i=i):
                            count.append(i)
                            return (i, getattr(self, 'a%d' % (i + 1)) if i + 1 < length else None)
                        ns['_get_a%d' % i] = get
                    mod._GLUECLAMP_ = type('_GLUECLAMP_', (), ns)
                purge()
                f.mods = {P: lambda n, mod: None, P + '.S': chain}
                s = getattr(Glue.Root(), P).S
                for i in list(range(start, length)) + list(range(length)):
                    v = getattr(s, 'a%d' % i)
                    n = 0
                    while v is not None:
                        if v[0] != i + n or v is not getattr(s, 'a%d' % (i + n)):
                            ctx.fail('chain of %d from %d: %r' % (length, start, v))
                        v = v[1]
                        n += 1
                if sorted(count) != list(range(length)):
                    ctx.fail('chain of %d from %d: computed %s' % (length, start, count))
    finally:
        sys.meta_path.remove(f)
        purge()


# ------------------------------------------------------------ the real tree

REAL = ['%s.%s' % (p, f[:-3]) for p in ('heapy', 'etc', 'gsl') for f in sorted(os.listdir(os.path.join(os.path.dirname(guppy.__file__), p)))
        if f.endswith('.py') and f not in ('__init__.py', 'pbhelp.py', 'Spec.py')]
SKIP = {'_module', '_share', '_owner', '_name', '_Specification_', '_load_stat', '_test_main_', '__builtins__', '__doc__', '__file__', '__cached__', '__spec__', '__loader__', '__path__', '__name__',
        'heapg', 'theone', 'heapdef_modules'}


def inter_of(root, name):
    x = root.guppy
    for p in name.split('.'):
        x = getattr(x, p)
    return x


def names_of(name):
    root = Glue.Root()
    try:
        i = inter_of(root, name)
    except ImportError:
        return None
    sh = i._share
    r = set()
    if sh.Clamp is not None:
        for c in sh.Clamp.__mro__:
            if c in (object, Glue.Interface):
                continue
            for k in c.__dict__:
                if k.startswith('_get_'):
                    r.add(k[len('_get_'):])
                elif not k.startswith('__') and not k.startswith('_set_'):
                    r.add(k)
        r |= set(sh.importedfrom)
    r |= {'_parent', '_root'}
    return sorted(r - SKIP)


def computed(name):
    sh = inter_of(Glue.Root(), name)._share
    if sh.Clamp is None:
        return []
    return sorted({k[5:] for c in sh.Clamp.__mro__ for k in c.__dict__ if k.startswith('_get_')} | set(sh.importedfrom))


def finger(x, depth=0):
    """What can be said of a value that should not depend on the session."""
    if isinstance(x, Glue.Interface):
        return 'interface', x._share.name
    if isinstance(x, types.MethodType):
        o = x.__self__
        return 'method', x.__func__.__qualname__, o._share.name if isinstance(o, Glue.Interface) else type(o).__qualname__
    if isinstance(x, (types.FunctionType, type, types.ModuleType, types.BuiltinFunctionType)):
        return type(x).__name__, getattr(x, '__module__', None), getattr(x, '__qualname__', x.__name__)
    if isinstance(x, (int, float, str, bytes, type(None))):
        return type(x).__name__, x
    if isinstance(x, (tuple, list)) and depth < 2:
        return type(x).__name__, tuple(finger(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return 'dict',      # may be a memo
    t = type(x)
    r = t.__module__, t.__qualname__
    try:
        d = object.__getattribute__(x, '__dict__')
    except AttributeError:
        d = {}
    for a in 'name', 'opname', 'supercl', 'family_name', '_name':
        v = d.get(a)
        if isinstance(v, str):
            r += a, v
    if 'fam' in d:
        r += 'fam', finger(d['fam'], depth + 1) if depth < 3 else None
    return r


def access(inter, n):
    kind, v = outcome(lambda: getattr(inter, n))
    if kind == 'value':
        return kind, v, finger(v)
    return kind, None, (type(v).__name__, str(v)[:80]) if kind != 'oops' else v


def run_real(shard, ctx):
    mods = [m for i, m in enumerate(REAL) if i % shard['of'] == shard['k']]
    for m in mods:
        names = names_of(m)
        if names is None:
            continue        # Its module cannot be imported here
        comp = computed(m)
        base = {}
        calls = {}
        clamp = inter_of(Glue.Root(), m)._share.Clamp
        patched = []
        if clamp is not None:
            for c in clamp.__mro__:
                for k, f in list(c.__dict__.items()):
                    if k.startswith('_get_') and isinstance(f, types.FunctionType):
                        def wrapper(self, f=f, k=k):
                            r = f(self)
                            calls[self._share, k] = calls.get((self._share, k), 0) + 1
                            return r
                        setattr(c, k, wrapper)
                        patched.append((c, k, f))
        try:
            for n in names:
                if not ctx.case('alone', m, n):
                    continue
                calls.clear()
                root = Glue.Root()
                i = inter_of(root, m)
                kind, v, fp = access(i, n)
                base[n] = kind, fp
                ctx.state((m, n))
                ctx.add('transitions')
                if kind in ('other', 'recursion') and not (kind == 'other' and fp[1] == "No module named 'tkinter'"):
                    ctx.fail('%s.%s as the first access: %s %s' % (m, n, kind, fp))
                    continue
                if kind != 'value':
                    continue
                again = getattr(i, n)
                other = getattr(Glue.Owner('').makeInterface({'_name': ''}, i._share, ''), n)
                sib = getattr(inter_of(i._root, m), n)
                for g in again, other, sib:
                    if g is not v and not (isinstance(v, Glue.Interface) and g._share is v._share):
                        if not isinstance(v, types.MethodType) or g != v and not isinstance(v.__self__, Glue.Interface):
                            ctx.fail('%s.%s: not the same object at a later access: %r, %r' % (m, n, v, g))
                bad = {k: c for k, c in calls.items() if c > 1}
                if bad:
                    ctx.fail('%s.%s: computed more than once: %s' % (m, n, bad))
                sh = i._share
                if n in sh.importedfrom:
                    fi = [x for x in getattr(sh.Clamp, '_imports_') if n in [y.strip() for y in x.split(':')[1].split(',')]]
                    pre = fi[0].split(':')[0].strip()
                    src = i
                    for p in pre.split('.'):
                        src = getattr(src, p)
                    w = getattr(src, n)
                    if w is not v and not (isinstance(v, Glue.Interface) and w._share is v._share):
                        if not isinstance(v, types.MethodType) or w.__func__ is not v.__func__ or w.__self__ is not v.__self__ and w.__self__._share is not v.__self__._share:
                            ctx.fail('%s.%s is not what it is imported from: %r, %r' % (m, n, v, w))
                # Another session has its own
                if isinstance(v, Glue.Interface) and m.startswith('heapy') and getattr(inter_of(Glue.Root(), m), n)._share is v._share:
                    ctx.fail('%s.%s is shared with another session' % (m, n))
            firsts = names if ctx.tier == 'thorough' else [n for n in comp if n in base]
            for a in firsts:
                if not ctx.case('pairs', m, a):
                    continue
                # Ordinary values cannot make a difference one by one: one session for each computed second, one for all others
                seconds = [[b] for b in names if b != a and (b in comp or ctx.tier == 'thorough')][:60 if ctx.tier == 'quick' else None]
                if ctx.tier == 'quick':
                    seconds = seconds[shard.get('part', 0)::1] if len(seconds) <= 12 else seconds[::3]
                seconds.append([b for b in names if b != a and b not in comp])
                for bs in seconds:
                    calls.clear()
                    i = inter_of(Glue.Root(), m)
                    ka, va, fa = access(i, a)
                    for b in bs:
                        if b not in base:
                            continue
                        kb, vb, fb = access(i, b)
                        ctx.add('transitions')
                        if (kb, fb) != base[b]:
                            ctx.fail('%s.%s after %s: %s %s, but %s when accessed first' % (m, b, a, kb, fb, base[b]))
                    if (ka, fa) != base.get(a, (ka, fa)):
                        ctx.fail('%s.%s: %s %s in one session, %s in another' % (m, a, ka, fa, base[a]))
                    bad = {k: c for k, c in calls.items() if c > 1}
                    if bad:
                        ctx.fail('%s.%s then %s: computed more than once: %s' % (m, a, bs, bad))
        finally:
            for c, k, f in patched:
                setattr(c, k, f)


def shards(tier):
    r = [dict(part='order', k=k, of=24) for k in range(24)]
    r += [dict(part='path', k=k, of=4) for k in range(4)]
    r += [dict(part='set', k=k, of=24) for k in range(24)]
    r += [dict(part='import', k=0), dict(part='fail', k=0)]
    r += [dict(part='real', k=k, of=len(REAL)) for k in range(len(REAL))]
    if tier == 'thorough':
        r += [dict(part='order', k=k, of=32, deep=1) for k in range(32)]
    return r


def run(shard, ctx):
    shard = dict(shard)
    part = shard.pop('part')
    globals()['run_' + part](shard, ctx)
