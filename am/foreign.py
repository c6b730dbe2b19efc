"""abstract semantics of modules outside the repository: constants are folded for pure modules, everything else is opaque"""
from .values import *
from .absdom import Opq
import string as _string
import re as _re
import os as _os
import math as _math
import unicodedata as _ud
import textwrap as _tw
import html as _html
import posixpath as _pp


def fn(name, f):
    return IntrV(name, f, False)


def make(m, name):
    B = m.B
    P = B.prelude
    if name in ('pyuca', 'pyuca.collator'):
        import importlib
        real = importlib.import_module(name)
        return ModuleV(name, dict({'__name__': name}, **{n: fn(name + '.' + n, lambda m, a, k, n=n: ModuleV('collator', {'sort_key': fn('sort_key', lambda m, b, k, n=n: sortkey_(n, b[0]))}))
                                                         for n in dir(real) if n.startswith('Collator')}))
    mod = OpaqueModuleV(name, {'__name__': name})
    d = mod.dict
    parent = name.rpartition('.')
    if parent[0] and parent[0] in m.modules:
        m.modules[parent[0]].dict.setdefault(parent[2], mod)
    elif parent[0]:
        pm = make(m, parent[0])
        m.modules[parent[0]] = pm
        pm.dict.setdefault(parent[2], mod)

    def folded(hostmod, names=None):
        for n in names or dir(hostmod):
            if n.startswith('_'):
                continue
            x = getattr(hostmod, n)
            if type(x) in B.HOSTC:
                d[n] = x
            elif callable(x) and not isinstance(x, type):
                d[n] = IntrV('%s.%s' % (hostmod.__name__, n), (lambda f: lambda m, a, k: B.host_call(m, f, a, k))(x), False)

    if name == 'string':
        folded(_string)
        d['Template'] = P['_Template']
    elif name == 're':
        for n in dir(_re):
            x = getattr(_re, n)
            if isinstance(x, _re.RegexFlag):
                d[n] = int(x)
        for n in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer', 'escape', 'compile'):
            d[n] = IntrV('re.' + n, re_call(n), False)
        d['error'] = B.builtin_classes['ValueError']
    elif name == 'math':
        folded(_math)
    elif name == 'unicodedata':
        folded(_ud)
    elif name == 'textwrap':
        folded(_tw)
    elif name == 'html':
        folded(_html)
    elif name in ('os.path', 'posixpath'):
        folded(_pp, ['join', 'basename', 'dirname', 'splitext', 'split', 'normpath', 'isabs', 'sep', 'commonprefix'])
        for n in ('exists', 'isfile', 'isdir', 'abspath', 'realpath', 'expanduser', 'getmtime', 'islink', 'getsize', 'samefile', 'relpath', 'expandvars'):
            d[n] = fn('os.path.' + n, hooked('os.path.' + n))
        d['sep'] = '/'
        jn = d['join']

        def pjoin(m, a, k):
            a = [B.unwrap(x) for x in a]
            if any(isinstance(x, Abs) for x in a):
                out = [a[0]]
                for x in a[1:]:
                    out += ['/', x]
                return mkstr(out)
            return B.host_call(m, _pp.join, a, k)
        d['join'] = fn('os.path.join', pjoin)
        from .absdom import distinct

        def splitter(host):
            def f(m, a, k):
                v = B.unwrap(a[0])
                if len(a) == 1 and isinstance(v, (SStr, Sym)):
                    parts = list(v.parts) if isinstance(v, SStr) else [v]
                    if all(isinstance(p, str) or distinct(p) for p in parts):
                        # an unknown word has letters only: any letter stands for it
                        s = ''.join(p if isinstance(p, str) else 'w' for p in parts)
                        x, y = host(s)

                        def cut(lo, hi):
                            out, i = [], 0
                            for p in parts:
                                n = len(p) if isinstance(p, str) else 1
                                b, e = max(lo, i), min(hi, i + n)
                                if b < e:
                                    out.append(p[b - i:e - i] if isinstance(p, str) else p)
                                i += n
                            return mkstr(out)
                        if s.startswith(x) and s.endswith(y):
                            return (cut(0, len(x)), cut(len(s) - len(y), len(s)))
                return B.host_call(m, host, a, k)
            return f
        for n in ('splitext', 'split'):
            d[n] = fn('os.path.' + n, splitter(getattr(_pp, n)))
        d['basename'] = fn('os.path.basename', lambda m, a, k, g=splitter(_pp.split): g(m, a, k)[1])
        d['dirname'] = fn('os.path.dirname', lambda m, a, k, g=splitter(_pp.split): g(m, a, k)[0])
    elif name == 'os':
        d['sep'] = '/'
        d['linesep'] = '\n'
        d['pathsep'] = ':'
        d['name'] = 'posix'
        d['environ'] = DictV()
        for n in ('remove', 'unlink', 'rename', 'replace', 'makedirs', 'mkdir', 'getcwd', 'listdir', 'chdir', 'system', 'popen', 'rmdir', 'fsync', 'walk', 'scandir', 'getpid', 'close', 'fdopen'):
            d[n] = fn('os.' + n, hooked('os.' + n))
        if 'os.path' not in m.modules:
            m.modules['os'] = mod
            m.modules['os.path'] = make(m, 'os.path')
        d['path'] = m.modules['os.path']
    elif name == 'sys':
        d['maxsize'] = 2 ** 63 - 1
        d['version_info'] = (3, 12, 3)
        d['argv'] = ListV(['plastex'])
        d['platform'] = 'linux'
        d['path'] = ListV([])
        d['modules'] = DictV()
        d['exc_info'] = fn('sys.exc_info', lambda m, a, k: (m.handling.cls, m.handling, Opq('tb')) if m.handling else (None, None, None))

        def sysexit(m, a, k):
            m.throw('SystemExit', *a)
        d['exit'] = fn('sys.exit', sysexit)
        d['setrecursionlimit'] = fn('srl', lambda m, a, k: None)
        d['getdefaultencoding'] = fn('gde', lambda m, a, k: 'utf-8')
        d['intern'] = fn('intern', lambda m, a, k: a[0])
        d['getrecursionlimit'] = fn('grl', lambda m, a, k: 1000)
    elif name == 'configparser':
        d['ConfigParser'] = P['_ConfigParser']
        d['Error'] = B.builtin_classes['ValueError']
    elif name == 'argparse':
        d['ArgumentParser'] = P['_ArgumentParser']
        d['_ArgumentGroup'] = P['_ArgumentGroup']
        d['Namespace'] = P['_Namespace']
        d['ArgumentTypeError'] = d['ArgumentError'] = B.builtin_classes['ValueError']
    elif name == 'pathlib':
        d['Path'] = d['PurePath'] = P['_Path']
    elif name == 'shlex':
        import shlex
        folded(shlex, ['split', 'quote', 'join'])
    elif name == 'contextlib':
        d['ExitStack'] = P['_ExitStack']
        d['suppress'] = P['_suppress']
        d['contextmanager'] = P['_contextmanager']
    elif name == 'functools':
        d['wraps'] = P['_wraps']
        d['partial'] = P['_partial']
        d['reduce'] = P['_reduce']
        d['lru_cache'] = P['_lru_cache']
        d['cache'] = P['_lru_cache']
        d['cached_property'] = P['_cached_property']
        d['total_ordering'] = fn('to', lambda m, a, k: a[0])
        d['cmp_to_key'] = P['_cmp_to_key']
    elif name == 'itertools':
        ch = P['_chain']
        ch.attrs['from_iterable'] = P['_from_iterable']
        d.update({'chain': ch, 'islice': P['_islice'], 'takewhile': P['_takewhile'], 'dropwhile': P['_dropwhile'], 'count': P['_count'],
                  'repeat': P['_repeat'], 'zip_longest': P['_zip_longest'], 'product': P['_product'], 'groupby': P['_groupby'], 'accumulate': P['_accumulate']})
    elif name == 'operator':
        for k, v in P.items():
            if k.startswith('_op_'):
                d[k[4:]] = v
        d['attrgetter'] = P['_attrgetter']
        d['itemgetter'] = P['_itemgetter']
    elif name == 'collections':
        d['deque'] = P['_deque']
        d['defaultdict'] = P['_defaultdict']
        d['OrderedDict'] = P['_OrderedDict']
        d['Counter'] = P['_Counter']
        if 'collections.abc' not in m.modules:
            m.modules['collections'] = mod
            m.modules['collections.abc'] = make(m, 'collections.abc')
    elif name == 'collections.abc':
        for n, c in (('Mapping', 'dict'), ('MutableMapping', 'dict'), ('Sequence', 'list'), ('Iterable', 'list')):
            d[n] = B.builtin_classes[c]
        d['Generator'] = Opq('typing')
    elif name == 'types':
        bc = B.builtin_classes
        d.update({'FunctionType': bc['function'], 'MethodType': bc['method'], 'GeneratorType': bc['generator'], 'ModuleType': bc['module'], 'SimpleNamespace': P['_SimpleNamespace']})
    elif name == 'copy':
        d['copy'] = fn('copy.copy', copy_copy)
        d['deepcopy'] = fn('copy.deepcopy', lambda m, a, k: _un('deepcopy'))
    elif name == 'builtins':
        for k, v in B.builtins.items():
            d[k] = v
    elif name == 'importlib':
        def imp(m, a, k):
            n = B.strpay(a[0])
            if isinstance(n, Abs):
                _un('import of unknown module')
            from .machine import _imp
            return _imp(m, [n], {})
        d['import_module'] = fn('import_module', imp)
    elif name == 'logging':
        for n, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40), ('CRITICAL', 50)):
            d[n] = v
    elif name == 'typing':
        d['TYPE_CHECKING'] = False
        for n, c in (('Dict', 'dict'), ('List', 'list'), ('Set', 'set'), ('Tuple', 'tuple'), ('FrozenSet', 'frozenset')):
            d[n] = B.builtin_classes[c]
        d['cast'] = fn('cast', lambda m, a, k: a[1])
        d['NewType'] = fn('NewType', lambda m, a, k: fn('newtype', lambda m, b, k: b[0]))
        d['NamedTuple'] = Opq('typing.NamedTuple')
        d['overload'] = fn('ov', lambda m, a, k: a[0])
    elif name == 'time':
        for n in ('time', 'strftime', 'localtime', 'asctime'):
            d[n] = fn('time.' + n, hooked('time.' + n))
    elif name == 'pickle':
        for n in ('PickleError', 'PicklingError', 'UnpicklingError'):
            d[n] = P['_' + n]
        d['HIGHEST_PROTOCOL'] = d['DEFAULT_PROTOCOL'] = 4
        for n in ('load', 'dump', 'loads', 'dumps'):
            d[n] = P['_pickle_' + n]
    elif name == 'glob':
        d['glob'] = fn('glob.glob', hooked('glob.glob'))
        d['iglob'] = d['glob']
    elif name == 'shutil':
        for n in ('copyfile', 'copy', 'rmtree', 'move', 'copytree'):
            d[n] = fn('shutil.' + n, hooked('shutil.' + n))
    elif name == 'tempfile':
        for n in ('mkstemp', 'mkdtemp', 'NamedTemporaryFile', 'gettempdir'):
            d[n] = fn('tempfile.' + n, hooked('tempfile.' + n))
    elif name == 'io':
        d['StringIO'] = P['_StringIO']
    elif name == 'unidecode':
        d['unidecode'] = fn('unidecode', unidecode_)
    return mod


_collators = {}


def sortkey_(n, s):
    """the Unicode collation algorithm of the library, on known text"""
    from .builtins_ import strpay
    s = strpay(s)
    if type(s) is not str:
        return Opq('sort_key(%s)' % (s,))
    if n not in _collators:
        import pyuca.collator
        _collators[n] = getattr(pyuca.collator, n)()
    return tuple(_collators[n].sort_key(s))


def unidecode_(m, a, k):
    from .builtins_ import strpay
    s = strpay(a[0])
    if type(s) is not str:
        h = m.hooks.get('unidecode')
        return h(m, a, k) if h else Opq('unidecode()')
    from unidecode import unidecode
    return unidecode(s)


def hooked(name):
    def f(m, a, k):
        h = m.hooks.get(name)
        if h:
            return h(m, a, k)
        return Opq(name + '()')
    return f


def _un(msg):
    from .machine import Unsupported
    raise Unsupported(msg)


def copy_copy(m, a, k):
    v = a[0]
    t = type(v)
    if t is ListV:
        return ListV(v.items)
    if t is DictV:
        return DictV(dict(v.data))
    if t is Obj:
        if v.cls.lookup('__copy__') is not MISSING:
            m.call(v.cls.lookup('__copy__'), [v])
            return PUSHED
        o = Obj(v.cls, copy_copy(m, [v.payload], {}) if isinstance(v.payload, (ListV, DictV)) else v.payload)
        o.attrs = dict(v.attrs)
        return o
    return v


def re_call(n):
    def g(m, a, k):
        B = m.B
        f = getattr(_re, n)
        try:
            aa = [B.to_host(x) for x in a]
            kk = {x: B.to_host(y) for x, y in k.items()}
        except KeyError:
            h = m.hooks.get('re.' + n)
            if h:
                r = h(m, a, k)
                if r is not NOTIMPL:
                    return r
            if n in ('sub', 'subn') and len(a) >= 3 and type(a[1]) in (FuncV, BoundV, IntrV):
                return re_sub_func(m, a, k)
            from . import absre
            return absre.call(m, n, a, k)
        if n == 'compile':
            return HostV(_re.compile(*aa, **kk))
        if n == 'finditer':
            return ItV(tuple(HostV(x) for x in f(*aa, **kk)), 'snap')
        return B.host_try(m, f, aa, kk)
    return g


def pat_attr(m, o, name):
    p = o.v
    if name in ('match', 'search', 'fullmatch', 'sub', 'subn', 'split', 'findall', 'finditer'):
        g = re_call(name)

        def f(m, a, k):
            if name in ('match', 'search', 'fullmatch') and len(a) > 1:
                return m.B.host_call(m, getattr(p, name), a, k)
            return g(m, [o] + list(a), k)
        return IntrV('pattern.' + name, f, False)
    if name == 'pattern':
        return p.pattern
    if name == 'groups':
        return p.groups
    return MISSING


def re_sub_func(m, a, k):
    B = m.B
    pat, func, s = a[0], a[1], a[2]
    s = B.unwrap(s)
    if isinstance(s, Abs) or isinstance(B.unwrap(pat), Abs):
        _un('re.sub with function on unknown string')
    p = B.to_host(pat)
    p = _re.compile(p) if isinstance(p, str) else p
    cnt = B.to_host(a[3]) if len(a) > 3 else k.get('count', 0)
    ms = list(p.finditer(s))
    if cnt:
        ms = ms[:cnt]

    def step(i, parts, last):
        if i == len(ms):
            m.deliver(mkstr(parts + [s[last:]]))
            return
        mo = ms[i]

        def c(m, caller, v):
            step(i + 1, parts + [s[last:mo.start()], B.unwrap(v)], mo.end())
        m.call(func, [HostV(mo)], None, c)
    step(0, [], 0)
    m.pushed_cont = True
    return PUSHED
