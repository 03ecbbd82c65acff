"""A fresh world per path: the packages of /repo, instrumented mechanically from their current source, loaded against the
engine's models of the libraries they import.  A library that is neither modelled nor listed as passed through is real; a
built-in of it that meets a symbolic value is refused (Unsupported)."""
import builtins, enum, importlib, os, sys, types, hashlib
from . import containers, core, rt
from .core import Unsupported, PathEnd
from .instrument import instrument

REPO = os.environ.get('VERIF_REPO', '/repo')
PKGS = ('anthunder', 'mysockpool', 'mytracer')
_code = {}
SOURCES = {}          # file -> sha1, for the evidence

for p in ('/opt/venv/lib/python3.12/site-packages',):
    if p not in sys.path:
        sys.path.append(p)


def code_of(path, modname):
    c = _code.get(path)
    if c is None:
        src = open(path, encoding='utf-8').read()
        SOURCES[os.path.relpath(path, REPO)] = hashlib.sha1(src.encode()).hexdigest()[:12]
        c = _code[path] = instrument(src, modname, path)
    return c


# state which calls are there to change, or which a goal itself sets up
SHARED = ('SERVICE_MAP', 'interface_mapping', 'service_handler', 'PoolManager')


def same(a, b):
    return a is b or (type(a) is type(b) and isinstance(a, (bool, int, float, str, bytes)) and a == b)


class World(object):
    def __init__(self, ctx, models=None, repo=None):
        """models: dict module name -> module-like object, added to / replacing the default ones"""
        from . import models as M
        self.ctx = ctx
        self.repo = repo or REPO
        self.modules = {}
        self.fresh, self.seen, self.loading = [], {}, 0
        self.models = M.defaults(self)
        if models:
            self.models.update(models)
        ctx.extra['world'] = self
        self.builtins = None

    # -- importing
    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, ispkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name)
        parent = None
        if '.' in name:
            pn, _, leaf = name.rpartition('.')
            parent = self.load(pn)
            m = self.modules.get(name)
            if m is not None:
                return m
        m = types.ModuleType(name)
        g = m.__dict__
        g.update(rt.make_globals(name, path))
        g['__builtins__']['__import__'] = self.import_
        g['__package__'] = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            g['__path__'] = [os.path.dirname(path)]
        self.modules[name] = m
        self.loading += 1
        try:
            exec(code_of(path, name), g)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            self.loading -= 1
        for v in list(g.values()):
            # finalizers are not run: they would run at arbitrary points of other paths
            if isinstance(v, type) and v.__module__ == name and '__del__' in v.__dict__:
                v.__pyvc_del__ = v.__dict__['__del__']
                del v.__del__
        if parent is not None:
            setattr(parent, leaf, m)
        self.fresh.append(m)
        if not self.loading:
            self.snap()
        return m

    # -- state of modules, classes, functions and the objects they hold: what a later call would find changed
    def snap(self):
        """remember the state the loaded modules are in"""
        new, self.fresh = self.fresh, []
        for m in new:
            self.remember(m, 'module', dict((k, v) for k, v in m.__dict__.items() if not k.startswith('__') and not isinstance(v, types.ModuleType)), m.__name__)

    def state(self, o, kind):
        if kind in ('module', 'class'):
            return dict((k, v) for k, v in vars(o).items() if not k.startswith('__') and not isinstance(v, types.ModuleType))
        if kind == 'pdict':
            return dict(enumerate(o.segs))
        if kind == 'plist':
            return dict(enumerate(o.parts))
        if kind == 'list':
            return dict(enumerate(o))
        if kind == 'set':
            return dict((id(x), x) for x in o)
        if kind == 'dict':
            return dict(o)
        if kind == 'cell':
            try:
                return {0: o.cell_contents}
            except ValueError:
                return {}
        return dict(vars(o))

    def remember(self, o, kind, st, name):
        if id(o) in self.seen:
            return
        self.seen[id(o)] = (o, kind, st, name)
        for k, v in st.items():
            if kind in ('pdict', 'plist'):
                v = v[2] if v[0] == 'e' else v[1] if v[0] == 'v' else None
            self.reach(v, '%s.%s' % (name, k) if isinstance(k, str) else name)

    def reach(self, v, name):
        from .models import base
        if id(v) in self.seen or v is None or isinstance(v, (bool, int, float, str, bytes, enum.Enum)):
            return
        if isinstance(v, (classmethod, staticmethod)):
            return self.reach(v.__func__, name)
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                self.reach(f, name)
            return
        own = lambda n: isinstance(n, str) and n.split('.')[0] in PKGS
        if isinstance(v, type):
            if own(v.__module__) and not issubclass(v, enum.Enum):
                self.remember(v, 'class', self.state(v, 'class'), '%s:%s' % (v.__module__, v.__qualname__))
        elif isinstance(v, types.FunctionType):
            if own(v.__module__):
                self.remember(v, 'object', dict(vars(v)), name)
                for d in tuple(v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()):
                    self.reach(d, name + '()')
                for n, cell in zip(v.__code__.co_freevars, v.__closure__ or ()):
                    self.remember(cell, 'cell', self.state(cell, 'cell'), '%s.%s' % (name, n))
        elif isinstance(v, containers.PDict):
            self.remember(v, 'pdict', self.state(v, 'pdict'), name)
        elif isinstance(v, containers.PList):
            self.remember(v, 'plist', self.state(v, 'plist'), name)
        elif type(v) in (dict, list, set):
            k = type(v).__name__
            self.remember(v, k, self.state(v, k), name)
        elif isinstance(v, tuple):
            for x in v:
                self.reach(x, name)
        elif isinstance(v, (base.Cycle, base.Count, base.Mapped)):
            pass        # drawn from; positions are ghost state of the goals
        elif (isinstance(v, rt.Model) or own(type(v).__module__)) and hasattr(v, '__dict__'):
            self.remember(v, 'object', self.state(v, 'object'), name)

    def changed(self):
        """names of what is in another state than remembered"""
        r = []
        for o, kind, st, name in list(self.seen.values()):
            now = self.state(o, kind)
            if kind in ('pdict', 'plist', 'list', 'set', 'dict', 'cell'):
                if len(now) != len(st) or any(k not in now or not same(v, now[k]) for k, v in st.items()):
                    r.append(name)
            else:
                r.extend('%s.%s' % (name, k) for k in set(now) | set(st) if k not in now or k not in st or not same(st[k], now[k]))
        return sorted(x for x in set(r) if x.rpartition('.')[2] not in SHARED)

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top in PKGS:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load(top)
        if name in self.models:
            m = self.models[name]
            if m is None:
                raise ImportError('No module named %r' % name)
            if fromlist:
                return m
            return self.models.get(top, m)
        if top in self.models and self.models[top] is None:
            raise ImportError('No module named %r' % name)
        m = importlib.import_module(name)
        if fromlist:
            return m
        return sys.modules[top]

    def __call__(self, dotted):
        """module or attribute by dotted name, e.g. w('anthunder.protocol:BoltRequest')"""
        mod, _, attr = dotted.partition(':')
        m = self.load(mod)
        for a in attr.split('.') if attr else ():
            m = getattr(m, a)
        return m


class NS(object):
    """a module-like namespace"""
    def __init__(self, name, **kw):
        self.__dict__['__name__'] = name
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        real = self.__dict__.get('_real')
        if real is not None and hasattr(real, n):
            return getattr(real, n)
        if real is None:
            raise Unsupported('%s.%s is not modelled' % (self.__dict__['__name__'], n))
        raise AttributeError('module %r has no attribute %r' % (self.__dict__['__name__'], n))
