"""Loads the package under test from /repo's working tree (both modes)."""
import collections
import collections.abc
import importlib
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')

MODULES = [
    'undef', 'cache_status', 'structure', 'mathobjects', 'mathobjects._flags',
    'mathobjects.mathobject', 'mathobjects.atom', 'mathobjects.couplet', 'mathobjects.set',
    'mathobjects.multiset', 'extension', 'partition', 'algebras.couplets', 'algebras.sets',
    'algebras.relations', 'algebras.clans', 'algebras.multisets', 'algebras.multiclans',
    'algebras.properties', 'util.miscellaneous', 'import_export._util', 'import_export.csv',
    'import_export.json', 'import_export.xml', 'import_export.mojson', 'util.mathobjectprinter', 'util.latexprinter', 'util.html',
]
OPTIONAL = ['import_export.rdf', 'util.rdf']


class Lib:
    pass


def load(symbolic, rdflib=False):
    """``rdflib``: in symbolic mode use the (pure Python) rdflib of the project's own interpreter."""
    sys.dont_write_bytecode = True
    if sys.version_info >= (3, 10):
        # The package targets Python < 3.10; restore the aliases and the behaviour it relies on.
        for n in ('Iterable', 'Callable', 'Sequence', 'Mapping', 'Hashable', 'Set', 'Iterator',
                  'MutableMapping', 'Sized', 'Container'):
            if not hasattr(collections, n):
                setattr(collections, n, getattr(collections.abc, n))
        collections.Counter.__eq__ = dict.__eq__
        collections.Counter.__ne__ = dict.__ne__
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if 'rdflib' not in sys.modules:
        try:
            if rdflib:
                import glob
                sys.path.extend(glob.glob('/opt/venv/lib/*/site-packages'))
            importlib.import_module('rdflib')
        except ImportError:
            import types
            stub = types.ModuleType('rdflib')
            for n in ('Graph', 'URIRef', 'Literal', 'BNode', 'Namespace'):
                setattr(stub, n, type(n, (), {}))
            sys.modules['rdflib'] = stub
    lib = Lib()
    mods = []
    for name in MODULES + OPTIONAL:
        m = None
        try:
            m = importlib.import_module('algebraixlib.' + name)
        except ImportError:
            if name not in OPTIONAL:
                raise
        setattr(lib, name.split('.')[-1].lstrip('_') if not name.startswith('import_export.')
                and not name.startswith('util.') else name.replace('.', '_').replace('__', '_'), m)
        mods.append(m)
    lib.mo = lib.mathobjects
    lib.ud = lib.undef
    lib.U = lib.undef.Undef()
    lib.CS = lib.cache_status.CacheStatus
    if symbolic:
        for name, m in list(sys.modules.items()):
            if name.startswith('algebraixlib') and m is not None:
                m.__dict__['hash'] = _one_hash
                m.__dict__.setdefault('type', _type())
    return lib


def _type():
    """Stub for ``type`` inside the package: symbolic values have the type they stand for."""
    from . import engine as E
    of = {E.SymInt: int, E.SymOpq: str, E.SymBool: bool}

    class Meta(type):
        def __call__(cls, x, *a, **k):
            return type(x, *a, **k) if a else of.get(type(x)) or type(x)

        def __instancecheck__(cls, x):
            return isinstance(x, type)

        def __eq__(cls, o):
            return o is cls or o is type
        __hash__ = type.__hash__

    class Type(metaclass=Meta):
        pass
    return Type


def _one_hash(x):
    """Stub for ``hash`` inside the package: every value collides, so native containers decide
    membership with the package's own ``__eq__`` (which is what becomes symbolic).  Not zero, which the package
    takes for "not computed yet"."""
    return 1
