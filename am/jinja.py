"""Jinja2 for the analysed program: templates are translated to Python source by the trusted template compiler and that
source is interpreted abstractly; the run-time objects it uses (contexts, undefined values, loops, macros, filters) are
modelled below."""
from .values import *           # noqa
from . import builtins_ as B
from .machine import Unsupported

SRC = r'''
class TemplateError(Exception):
    @property
    def message(self):
        return self.args[0] if self.args else None


class TemplateRuntimeError(TemplateError):
    pass


class UndefinedError(TemplateRuntimeError):
    pass


class TemplateNotFound(TemplateError, LookupError):
    pass


class TemplatesNotFound(TemplateNotFound):
    pass


class TemplateSyntaxError(TemplateError):
    pass


class _Missing(object):
    def __repr__(self):
        return 'missing'


missing = _Missing()


class Undefined(object):
    def __init__(self, hint=None, obj=missing, name=None, exc=UndefinedError):
        self._undefined_name = name

    def _fail(self, *a, **k):
        raise UndefinedError('%s is undefined' % str(self._undefined_name))

    def __getattr__(self, name):
        if name[:2] == '__':
            raise AttributeError(name)
        raise UndefinedError('%s is undefined' % str(self._undefined_name))

    __call__ = __getitem__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __mod__ = __mul__ = __sub__ = __int__ = __float__ = __contains__ = _fail

    def __eq__(self, other):
        return type(self) is type(other)

    def __ne__(self, other):
        return not (type(self) is type(other))

    def __hash__(self):
        return 1

    def __str__(self):
        return ''

    def __len__(self):
        return 0

    def __iter__(self):
        return iter([])

    def __bool__(self):
        return False


class _Eval(object):
    autoescape = False
    volatile = False


class Context(object):
    def __init__(self, environment, parent, vars):
        self.environment = environment
        self.parent = parent
        self.vars = vars
        self.exported_vars = set()
        self.eval_ctx = _Eval()
        self.name = None
        self.blocks = {}

    def resolve_or_missing(self, key):
        if key in self.vars:
            return self.vars[key]
        if key in self.parent:
            return self.parent[key]
        return missing

    def resolve(self, key):
        r = self.resolve_or_missing(key)
        return Undefined(name=key) if r is missing else r

    def __getitem__(self, key):
        r = self.resolve_or_missing(key)
        if r is missing:
            raise KeyError(key)
        return r

    def __contains__(self, key):
        return key in self.vars or key in self.parent

    def get(self, key, default=None):
        r = self.resolve_or_missing(key)
        return default if r is missing else r

    def get_all(self):
        d = {}
        d.update(self.parent)
        d.update(self.vars)
        return d

    def call(self, f, *args, **kwargs):
        kwargs.pop('_block_vars', None)
        kwargs.pop('_loop_vars', None)
        if f in _passers:
            args = (self,) + args
        try:
            return f(*args, **kwargs)
        except StopIteration:
            return Undefined('value was undefined because a callable raised a StopIteration exception')


_passers = []


def pass_context(f):
    _passers.append(f)
    return f


class LoopContext(object):
    def __init__(self, iterable, undefined, recurse=None, depth0=0):
        self._items = list(iterable)
        self._undefined = undefined
        self._recurse = recurse
        self.depth0 = depth0
        self.depth = depth0 + 1
        self.index0 = -1
        self._last = missing

    @property
    def index(self):
        return self.index0 + 1

    @property
    def length(self):
        return len(self._items)

    def __len__(self):
        return len(self._items)

    @property
    def revindex(self):
        return len(self._items) - self.index0

    @property
    def revindex0(self):
        return len(self._items) - self.index0 - 1

    @property
    def first(self):
        return self.index0 == 0

    @property
    def last(self):
        return self.index0 == len(self._items) - 1

    @property
    def previtem(self):
        return self._undefined('there is no previous item') if self.index0 == 0 else self._items[self.index0 - 1]

    @property
    def nextitem(self):
        return self._undefined('there is no next item') if self.last else self._items[self.index0 + 1]

    def cycle(self, *args):
        return args[self.index0 % len(args)]

    def changed(self, *value):
        if self._last is missing or self._last != value:
            self._last = value
            return True
        return False

    def __iter__(self):
        for i in range(len(self._items)):
            self.index0 = i
            yield self._items[i], self

    def __call__(self, iterable):
        if self._recurse is None:
            raise TypeError("The loop must have the 'recursive' marker to be called recursively.")
        return self._recurse(iterable, self._recurse, depth=self.depth)


class Macro(object):
    def __init__(self, environment, func, name, arguments, catch_kwargs, catch_varargs, caller, default_autoescape=None):
        self._func = func
        self.name = name
        self.arguments = arguments
        self.catch_kwargs = catch_kwargs
        self.catch_varargs = catch_varargs
        self.caller = caller
        self.explicit_caller = 'caller' in arguments

    def __call__(self, *args, **kwargs):
        n = len(self.arguments)
        arguments = list(args[:n])
        found_caller = False
        off = len(arguments)
        if off != n:
            for name in self.arguments[off:]:
                if name in kwargs:
                    value = kwargs.pop(name)
                else:
                    value = missing
                if name == 'caller':
                    found_caller = True
                arguments.append(value)
        else:
            found_caller = self.explicit_caller
        if self.caller and not found_caller:
            caller = kwargs.pop('caller', None)
            if caller is None:
                caller = Undefined('No caller defined', name='caller')
            arguments.append(caller)
        if self.catch_kwargs:
            arguments.append(kwargs)
        elif kwargs:
            raise TypeError('macro %r takes no keyword argument' % self.name)
        if self.catch_varargs:
            arguments.append(args[n:])
        elif len(args) > n:
            raise TypeError('macro %r takes not more than %d argument(s)' % (self.name, n))
        return self._func(*arguments)


class Namespace(object):
    def __init__(self, *a, **k):
        self.__dict__.update(k)


class Markup(str):
    def __html__(self):
        return self


def escape(s):
    if hasattr(s, '__html__'):
        return str(s.__html__())
    s = str(s)
    return Markup(s.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;').replace("'", '&#39;').replace('"', '&#34;'))


def identity(x):
    return x


def internalcode(f):
    return f


def concat(it):
    return ''.join(it)


def str_join(seq):
    return ''.join([str(x) for x in seq])


markup_join = str_join


def _striptags(value):
    return _strip(str(value.__html__()) if hasattr(value, '__html__') else str(value))


def _sub(pat, repl, s, *a, **k):
    import re
    return _unplace(re.sub(pat, repl, _place(s), *a, **k))


def _join(ctx, value, d='', attribute=None):
    if attribute is not None:
        value = [_path(x, attribute) for x in value]
    return str(d).join([str(x) for x in value])


def _path(x, attribute):
    """the value of an attribute given by a dotted name"""
    if isinstance(attribute, int):
        return _envs[0].getitem(x, attribute)
    for n in str(attribute).split('.'):
        x = _envs[0].getitem(x, int(n) if n.isdigit() else n)
    return x


def _default(value, default_value='', boolean=False):
    if isinstance(value, Undefined) or (boolean and not value):
        return default_value
    return value


def _first(env, seq):
    for x in seq:
        return x
    return Undefined('No first item, sequence was empty.')


def _last(env, seq):
    seq = list(seq)
    return seq[-1] if seq else Undefined('No last item, sequence was empty.')


def _attr(env, obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        return Undefined(obj=obj, name=name)


def _replace(ctx, s, old, new, count=None):
    if count is not None:
        return str(s).replace(str(old), str(new), count)
    return str(s).replace(str(old), str(new))


def _sort(env, value, reverse=False, case_sensitive=False, attribute=None):
    key = lambda x: x if attribute is None else _path(x, attribute)
    if not case_sensitive:
        k = key
        key = lambda x: k(x).lower() if isinstance(k(x), str) else k(x)
    return sorted(value, key=key, reverse=reverse)


def _sum(env, value, attribute=None, start=0):
    for x in value:
        start = start + (x if attribute is None else _path(x, attribute))
    return start


def _min(env, value, case_sensitive=False, attribute=None):
    v = _sort(env, value, False, case_sensitive, attribute)
    return v[0] if v else Undefined('No aggregated item, sequence was empty.')


def _max(env, value, case_sensitive=False, attribute=None):
    v = _sort(env, value, False, case_sensitive, attribute)
    return v[-1] if v else Undefined('No aggregated item, sequence was empty.')


def _map(ctx, seq, *args, **kw):
    if 'attribute' in kw:
        out = []
        for x in seq:
            y = _path(x, kw['attribute'])
            if isinstance(y, Undefined) and 'default' in kw:
                y = kw['default']
            out.append(y)
        return out
    f = _filters[args[0]]
    if args[0] in _passes:
        return [f(ctx, x, *args[1:], **kw) for x in seq]
    return [f(x, *args[1:], **kw) for x in seq]


def _choose(seq, yes, attribute, args):
    out = []
    for x in seq:
        v = x if attribute is None else _path(x, attribute)
        r = bool(_tests[args[0]](v, *args[1:])) if args else bool(v)
        if r == yes:
            out.append(x)
    return out


def _unsup(name):
    def f(*a, **k):
        return _unsupported(name)
    return f


def _trim(s, chars=None):
    return str(s).strip(chars)


_filters = {'striptags': _striptags, 'e': escape, 'escape': escape, 'string': lambda object: str(object), 'safe': lambda value: Markup(value), 'trim': _trim, 'lower': lambda s: str(s).lower(), 'capitalize': lambda s: str(s).capitalize(),
            'upper': lambda s: str(s).upper(), 'join': _join, 'default': _default, 'd': _default, 'length': lambda s: len(s), 'count': lambda s: len(s), 'list': lambda ctx, value: list(value), 'first': _first, 'last': _last,
            'replace': _replace, 'reverse': lambda value: value[::-1] if isinstance(value, str) else list(reversed(list(value))), 'attr': _attr, 'abs': lambda v: abs(v), 'sort': _sort, 'sum': _sum, 'min': _min, 'max': _max,
            'forceescape': lambda value: escape(str(value)), 'items': lambda d: d.items(), 'map': _map, 'select': lambda ctx, seq, *args: _choose(seq, True, None, args), 'reject': lambda ctx, seq, *args: _choose(seq, False, None, args),
            'selectattr': lambda ctx, seq, attr, *args: _choose(seq, True, attr, args), 'rejectattr': lambda ctx, seq, attr, *args: _choose(seq, False, attr, args)}
_passes = ('join', 'list', 'first', 'last', 'replace', 'attr', 'sort', 'sum', 'min', 'max', 'map', 'select', 'reject', 'selectattr', 'rejectattr')
for _n in ('batch', 'center', 'dictsort', 'filesizeformat', 'float', 'format', 'groupby', 'indent', 'int', 'pprint', 'random', 'round', 'slice', 'title', 'tojson', 'truncate', 'unique', 'urlencode', 'urlize', 'wordcount', 'wordwrap', 'xmlattr'):
    _filters[_n] = _unsup('the filter ' + _n)
_tests = {'defined': lambda v: not isinstance(v, Undefined), 'undefined': lambda v: isinstance(v, Undefined), 'none': lambda v: v is None, 'string': lambda v: isinstance(v, str), 'mapping': lambda v: isinstance(v, dict),
          'number': lambda v: isinstance(v, (int, float)), 'callable': lambda v: callable(v), 'iterable': lambda v: hasattr(v, '__iter__'), 'odd': lambda v: v % 2 == 1, 'even': lambda v: v % 2 == 0, 'in': lambda v, s: v in s,
          'sameas': lambda v, o: v is o, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b, 'divisibleby': lambda a, b: a % b == 0, 'true': lambda v: v is True, 'false': lambda v: v is False}
for _n in ('boolean', 'callable', 'escaped', 'filter', 'float', 'integer', 'lower', 'upper', 'sequence', 'test', '!=', '<', '<=', '==', '>', '>=', 'equalto', 'ge', 'greaterthan', 'le', 'lessthan'):
    if _n not in _tests:
        _tests[_n] = _unsup('the test ' + _n)
_envs = []


class Template(object):
    def __init__(self, environment, src):
        self.environment = environment
        self.name = None
        self.root_render_func = _root(src, environment, missing, environment.opts)

    def new_context(self, vars=None, shared=False, locals=None):
        if shared:
            parent = vars or {}
        else:
            parent = dict(self.environment.globals)
            parent.update(vars or {})
        c = Context(self.environment, parent, {})
        if locals:
            p = dict(parent)
            for k in locals:
                if locals[k] is not missing:
                    p[k] = locals[k]
            c.parent = p
        return c

    def render(self, *args, **kwargs):
        d = dict(*args, **kwargs)
        return ''.join(list(self.root_render_func(self.new_context(d))))


class Environment(object):
    def __init__(self, **opts):
        self.opts = opts
        self.globals = {'range': range, 'dict': dict, 'namespace': Namespace, 'lipsum': _unsup('lipsum'), 'cycler': _unsup('cycler'), 'joiner': _unsup('joiner')}
        _envs.append(self)
        self.filters = _filters
        self.tests = _tests
        self.undefined = Undefined
        self.concat = concat

    def from_string(self, source, globals=None, template_class=None):
        return Template(self, source)

    def getattr(self, obj, attribute):
        try:
            return getattr(obj, attribute)
        except AttributeError:
            pass
        try:
            return obj[attribute]
        except (TypeError, LookupError, AttributeError):
            return Undefined(obj=obj, name=attribute)

    def getitem(self, obj, argument):
        try:
            return obj[argument]
        except (AttributeError, TypeError, LookupError):
            if isinstance(argument, str):
                try:
                    return getattr(obj, str(argument))
                except AttributeError:
                    pass
            return Undefined(obj=obj, name=argument)

    def get_or_select_template(self, t, parent=None, globals=None):
        if isinstance(t, Template):
            return t
        if isinstance(t, Undefined):
            t._fail()
        raise TypeError('no loader for this environment specified')

    get_template = select_template = get_or_select_template
'''

_cache = {}
_text = {}


def pysource(src, opts):
    """Python source of a template (trusted translator)"""
    import jinja2
    k = (src, tuple(sorted(opts.items())))
    if k not in _cache:
        env = jinja2.Environment(**opts)
        _cache[k] = env.compile(src, raw=True)
    return _cache[k]


_words = {}


def place(s):
    """a letter for every unknown word (words are made of letters)"""
    if isinstance(s, str):
        return s
    out = []
    for p in (s.parts if isinstance(s, SStr) else [s]):
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Sym) and 'word' in p.props:
            if out and out[-1][-1:] == '&':
                raise Unsupported('an unknown word after &')
            if p.key() not in _words:
                _words[p.key()] = chr(0x4e00 + len(_words) // 2)
                _words[_words[p.key()]] = p
            out.append(_words[p.key()])
        else:
            raise Unsupported('text processing on %r' % (p,))
    return ''.join(out)


def unplace(s):
    import re
    return mkstr([_words.get(x, x) for x in re.split('([\u4e00-\u9fff])', s) if x])


def install(m):
    g = {}

    def root(mm, a, k):
        src, env, missing, opts = a
        if not isinstance(src, str):
            raise Unsupported('unknown template')
        o = {x: y for x, y in opts.data.values()} if hasattr(opts, 'data') else {}
        import jinja2
        try:
            py = pysource(src, o)
        except jinja2.exceptions.TemplateSyntaxError as e:
            args = [str(e)]
            return mm.raise_(mm.g_jinja['TemplateSyntaxError'], args) if hasattr(mm, 'raise_') else mm.throw('ValueError', str(e))
        key = (src, 'code')
        if key not in _cache:
            code = compile(py, '<template %s>' % ' '.join(src.split())[:60], 'exec', dont_inherit=True)
            _cache[key] = next(c for c in code.co_consts if getattr(c, 'co_name', None) == 'root')
        ns = dict(g)
        ns['environment'] = env
        ns['__name__'] = '<template>'
        ns['name'] = None
        return FuncV(_cache[key], ns, (missing, env))

    def strip(mm, a, k):
        import markupsafe
        return unplace(str(markupsafe.Markup(place(a[0])).striptags()))
    def unsup(mm, a, k):
        raise Unsupported(str(a[0]))
    ns = m.compile_driver(SRC, '<jinja2>', _unsupported=IntrV('_unsupported', unsup, False), _root=IntrV('_root', root, False), _strip=IntrV('_strip', strip, False), _place=IntrV('_place', lambda mm, a, k: place(B.unwrap(a[0])), False), _unplace=IntrV('_unplace', lambda mm, a, k: unplace(a[0]), False))
    g.update({n: ns[n] for n in ('LoopContext', 'Macro', 'Markup', 'Namespace', 'TemplateNotFound', 'TemplateRuntimeError', 'Undefined', 'escape', 'identity', 'internalcode', 'markup_join', 'missing', 'str_join')})
    g['TemplateReference'] = ns['Namespace']
    g['__builtins__'] = m.builtins if hasattr(m, 'builtins') else {}
    exc = ModuleV('jinja2.exceptions', dict({'__name__': 'jinja2.exceptions'}, **{n: ns[n] for n in ('TemplateError', 'TemplateRuntimeError', 'UndefinedError', 'TemplateNotFound', 'TemplatesNotFound', 'TemplateSyntaxError')}))
    rt = ModuleV('jinja2.runtime', dict({'__name__': 'jinja2.runtime'}, **g))
    j = ModuleV('jinja2', dict({'__name__': 'jinja2', 'exceptions': exc, 'runtime': rt}, **{n: ns[n] for n in ('Environment', 'Template', 'Undefined', 'pass_context', 'TemplateError', 'TemplateNotFound')}))

    def sub(mm, a, k):
        if len(a) < 3 or not isinstance(B.unwrap(a[2]), (SStr, Sym)):
            return NOTIMPL
        return mm.call(ns['_sub'], list(a), k) or B.PUSHED
    m.hooks['re.sub'] = sub
    m.stubs['jinja2'], m.stubs['jinja2.exceptions'], m.stubs['jinja2.runtime'] = j, exc, rt
    return ns
