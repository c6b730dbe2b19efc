# builtins whose semantics call back into analysed code; interpreted by the abstract machine


def _lext(l, it):
    for x in it:
        l.append(x)


def _tolist(it):
    r = []
    for x in it:
        r.append(x)
    return r


def _totuple(it):
    r = []
    for x in it:
        r.append(x)
    return tuple(r)


def _toset(it):
    r = set()
    for x in it:
        r.add(x)
    return r


def _dict_from(d, it):
    for p in it:
        k, v = p
        d[k] = v
    return d


def _bool(x):
    if x:
        return True
    return False


def _contains(l, x):
    for y in l:
        if y is x or y == x:
            return True
    return False


def _lindex(l, x, start=0, stop=None):
    i = 0
    for y in l:
        if i >= start and (stop is None or i < stop):
            if y is x or y == x:
                return i
        i += 1
    raise ValueError('item is not in list')


def _lremove(l, x):
    i = 0
    for y in l:
        if y is x or y == x:
            del l[i]
            return None
        i += 1
    raise ValueError('list.remove(x): x not in list')


def _lcount(l, x):
    n = 0
    for y in l:
        if y is x or y == x:
            n += 1
    return n


def _seq_eq(a, b):
    if len(a) != len(b):
        return False
    i = 0
    for x in a:
        y = b[i]
        if not (x is y or x == y):
            return False
        i += 1
    return True


def _dict_eq(a, b):
    if len(a) != len(b):
        return False
    for k in a:
        if k not in b:
            return False
        if not (a[k] is b[k] or a[k] == b[k]):
            return False
    return True


def _seq_cmp(a, b, op):
    i = 0
    n = len(a) if len(a) < len(b) else len(b)
    while i < n:
        x = a[i]
        y = b[i]
        if not (x is y or x == y):
            if op == '<' or op == '<=':
                return x < y
            return x > y
        i += 1
    if op == '<':
        return len(a) < len(b)
    if op == '<=':
        return len(a) <= len(b)
    if op == '>':
        return len(a) > len(b)
    return len(a) >= len(b)


def _getitem_iter(o):
    i = 0
    while 1:
        try:
            v = o[i]
        except IndexError:
            return
        yield v
        i += 1


def _iter2(f, sentinel):
    while 1:
        v = f()
        if v == sentinel:
            return
        yield v


def _range(a, b=None, step=1):
    if b is None:
        a, b = 0, a
    while (a < b if step > 0 else a > b):
        yield a
        a += step


def enumerate(it, start=0):
    i = start
    for x in it:
        yield (i, x)
        i += 1


def zip(*its, strict=False):
    its = [iter(x) for x in its]
    if not its:
        return
    while 1:
        r = []
        for i in its:
            try:
                v = next(i)
            except StopIteration:
                return
            r.append(v)
        yield tuple(r)


def map(f, *its):
    if len(its) == 1:
        for x in its[0]:
            yield f(x)
    else:
        for x in zip(*its):
            yield f(*x)


def filter(f, it):
    for x in it:
        if f is None:
            if x:
                yield x
        elif f(x):
            yield x


def any(it):
    for x in it:
        if x:
            return True
    return False


def all(it):
    for x in it:
        if not x:
            return False
    return True


def reversed(it):
    if hasattr(it, '__reversed__'):
        return it.__reversed__()
    l = list(it)
    return _rev(l)


def _rev(l):
    i = len(l) - 1
    while i >= 0:
        yield l[i]
        i -= 1


def sorted(it, key=None, reverse=False):
    # stable insertion sort; only `<` is used, as in CPython
    l = []
    for x in it:
        l.append((x if key is None else key(x), x))
    if reverse:
        l2 = []
        for p in l:
            i = len(l2)
            while i > 0 and l2[i - 1][0] < p[0]:
                i -= 1
            l2.insert(i, p)
    else:
        l2 = []
        for p in l:
            i = len(l2)
            while i > 0 and p[0] < l2[i - 1][0]:
                i -= 1
            l2.insert(i, p)
    return [p[1] for p in l2]


def min(*args, key=None, default=None):
    if len(args) == 1:
        args = list(args[0])
        if not args:
            return default
    first = True
    best = bk = None
    for x in args:
        k = x if key is None else key(x)
        if first or k < bk:
            best, bk, first = x, k, False
    return best


def max(*args, key=None, default=None):
    if len(args) == 1:
        args = list(args[0])
        if not args:
            return default
    first = True
    best = bk = None
    for x in args:
        k = x if key is None else key(x)
        if first or k > bk:
            best, bk, first = x, k, False
    return best


def sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _percent_parts(parts, d):
    out = ''
    for known, p in parts:
        out += p % d if known else p
    return out


def _percent_map(fmt, d):
    # '%(name)s' with a mapping implemented by analysed code
    out = []
    i = 0
    n = len(fmt)
    while i < n:
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        if fmt[i + 1] == '%':
            out.append('%')
            i += 2
            continue
        j = fmt.index(')', i)
        name = fmt[i + 2:j]
        k = j + 1
        while fmt[k] not in 'sdrfigx':
            k += 1
        out.append(('%' + fmt[j + 1:k + 1]) % (d[name],))
        i = k + 1
    return ''.join(out)


def _str_format(fmt, args, kw):
    out = []
    i = 0
    n = len(fmt)
    auto = 0
    while i < n:
        c = fmt[i]
        if c == '{':
            if fmt[i + 1] == '{':
                out.append('{')
                i += 2
                continue
            j = fmt.index('}', i)
            name = fmt[i + 1:j]
            spec = ''
            if ':' in name:
                name, spec = name.split(':', 1)
            if name == '':
                v = args[auto]
                auto += 1
            elif name.isdigit():
                v = args[int(name)]
            else:
                v = kw[name]
            out.append(format(v, spec) if spec else str(v))
            i = j + 1
            continue
        if c == '}':
            out.append('}')
            i += 2
            continue
        out.append(c)
        i += 1
    return ''.join(out)


class _ExitStack:
    def __init__(self):
        self._cbs = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        while self._cbs:
            f, a, k = self._cbs.pop()
            f(*a, **k)
        return False

    def callback(self, f, *a, **k):
        self._cbs.append((f, a, k))
        return f

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cbs.append((cm.__exit__, (None, None, None), {}))
        return r

    def push(self, f):
        self._cbs.append((f, (None, None, None), {}))
        return f

    def close(self):
        self.__exit__(None, None, None)


class _suppress:
    def __init__(self, *excs):
        self._e = excs

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self._e)


class _GenCM:
    def __init__(self, gen):
        self._g = gen

    def __enter__(self):
        return next(self._g)

    def __exit__(self, t, v, tb):
        if t is not None:
            return False
        for _ in self._g:
            raise RuntimeError("generator didn't stop")
        return False


def _contextmanager(f):
    def g(*a, **k):
        return _GenCM(f(*a, **k))
    return g


def _wraps(f):
    def deco(g):
        return g
    return deco


class _partial:
    def __init__(self, f, *a, **k):
        self.func = f
        self.args = a
        self.keywords = k

    def __call__(self, *a, **k):
        kk = dict(self.keywords)
        kk.update(k)
        return self.func(*(self.args + a), **kk)


def _reduce(f, it, *init):
    it = iter(it)
    if init:
        r = init[0]
    else:
        r = next(it)
    for x in it:
        r = f(r, x)
    return r


def _chain(*its):
    for it in its:
        for x in it:
            yield x


def _from_iterable(its):
    for it in its:
        for x in it:
            yield x


def _islice(it, *a):
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    else:
        start, stop = a[0] or 0, a[1]
        step = a[2] if len(a) > 2 else 1
    i = 0
    for x in it:
        if stop is not None and i >= stop:
            return
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1
        if stop is not None and i >= stop:
            return


def _takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def _dropwhile(f, it):
    drop = True
    for x in it:
        if drop and f(x):
            continue
        drop = False
        yield x


def _count(start=0, step=1):
    while 1:
        yield start
        start += step


def _repeat(x, n=None):
    if n is None:
        while 1:
            yield x
    for i in range(n):
        yield x


def _zip_longest(*its, fillvalue=None):
    its = [list(x) for x in its]
    n = max([len(x) for x in its])
    for i in range(n):
        yield tuple([x[i] if i < len(x) else fillvalue for x in its])


def _product(*its):
    r = [()]
    for it in its:
        it = list(it)
        r = [x + (y,) for x in r for y in it]
    return iter(r)


def _groupby(it, key=None):
    cur = None
    first = True
    for x in it:
        k = x if key is None else key(x)
        if first or not (k == ck):
            if not first:
                yield (ck, cur)
            cur = []
            ck = k
            first = False
        cur.append(x)
    if not first:
        yield (ck, cur)


def _accumulate(it, f=None):
    first = True
    for x in it:
        if first:
            r = x
            first = False
        else:
            r = r + x if f is None else f(r, x)
        yield r


class _deque(list):
    def __init__(self, it=(), maxlen=None):
        list.__init__(self, it)

    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)

    def extendleft(self, it):
        for x in it:
            self.insert(0, x)

    def rotate(self, n=1):
        for i in range(n):
            self.insert(0, self.pop())


class _defaultdict(dict):
    def __init__(self, factory=None, *a, **k):
        dict.__init__(self, *a, **k)
        self.default_factory = factory

    def __getitem__(self, k):
        if k in self.keys():
            return dict.__getitem__(self, k)
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        dict.__setitem__(self, k, v)
        return v


class _OrderedDict(dict):
    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            items = list(self.items())
            self.clear()
            self[k] = v
            for a, b in items:
                self[a] = b


class _Counter(dict):
    def __init__(self, it=()):
        dict.__init__(self)
        for x in it:
            self[x] = self.get(x, 0) + 1


class _attrgetter:
    def __init__(self, *names):
        self.names = names

    def __call__(self, o):
        r = []
        for n in self.names:
            v = o
            for p in n.split('.'):
                v = getattr(v, p)
            r.append(v)
        return r[0] if len(r) == 1 else tuple(r)


class _itemgetter:
    def __init__(self, *ks):
        self.ks = ks

    def __call__(self, o):
        r = [o[k] for k in self.ks]
        return r[0] if len(r) == 1 else tuple(r)


def _op_lt(a, b): return a < b
def _op_le(a, b): return a <= b
def _op_gt(a, b): return a > b
def _op_ge(a, b): return a >= b
def _op_eq(a, b): return a == b
def _op_ne(a, b): return a != b
def _op_add(a, b): return a + b
def _op_sub(a, b): return a - b
def _op_mul(a, b): return a * b
def _op_and_(a, b): return a & b
def _op_or_(a, b): return a | b
def _op_not_(a): return not a
def _op_mod(a, b): return a % b
def _op_truediv(a, b): return a / b
def _op_floordiv(a, b): return a // b
def _op_neg(a): return -a
def _op_contains(a, b): return b in a
def _op_getitem(a, b): return a[b]
def _op_is_(a, b): return a is b


class _cmp_to_key:
    pass


def _lru_cache(f=None, maxsize=None):
    if callable(f):
        return f
    return lambda g: g


class _cached_property:
    def __init__(self, f):
        self.f = f
        self.name = f.__name__

    def __get__(self, o, cls=None):
        if o is None:
            return self
        v = self.f(o)
        vars(o)[self.name] = v
        return v


class _SimpleNamespace:
    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


def _copy_copy(x):
    return x[:] if isinstance(x, (list, tuple, str)) else (dict(x) if isinstance(x, dict) else (set(x) if isinstance(x, set) else x.__am_copy__()))


class _StringIO:
    """in-memory text stream; `read(1)` yields one unit: a character, an unknown character or an unknown word"""
    closed = False

    def __init__(self, s='', newline=None):
        self._u = __am_units__(s)
        self._p = 0

    def read(self, n=-1):
        u = self._u
        p = self._p
        if n is None or n < 0:
            self._p = len(u)
            return ''.join(u[p:])
        if p >= len(u):
            return ''
        if n == 1:
            self._p = p + 1
            return u[p]
        self._p = min(p + n, len(u))
        return ''.join(u[p:p + n])

    def readline(self):
        u = self._u
        p = self._p
        out = []
        while p < len(u):
            c = u[p]
            p += 1
            out.append(c)
            if c == '\n':
                break
        self._p = p
        return ''.join(out)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while 1:
            l = self.readline()
            if not l:
                break
            yield l

    def write(self, s):
        self._u.extend(__am_units__(s))
        self._p = len(self._u)
        return len(s)

    def getvalue(self):
        return ''.join(self._u)

    def tell(self):
        return self._p

    def seek(self, p, w=0):
        self._p = p

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class _Template(object):
    def __init__(self, template):
        self.template = template

    def _run(self, mapping, kws, safe):
        t = self.template
        out = []
        i = 0
        n = len(t)
        while i < n:
            c = t[i]
            if c != '$':
                out.append(c)
                i += 1
                continue
            if i + 1 < n and t[i + 1] == '$':
                out.append('$')
                i += 2
                continue
            j = i + 1
            braced = j < n and t[j] == '{'
            if braced:
                j += 1
            k = j
            while k < n and t[k].isascii() and (t[k] == '_' or t[k].isalpha() or k > j and t[k].isdigit()):
                k += 1
            if k == j or braced and not (k < n and t[k] == '}'):
                if safe:
                    out.append(c)
                    i += 1
                    continue
                raise ValueError('Invalid placeholder in string')
            name = t[j:k]
            if braced:
                k += 1
            if name in kws:
                out.append(str(kws[name]))
            elif safe and name not in mapping:
                out.append(t[i:k])
            else:
                out.append(str(mapping[name]))
            i = k
        return ''.join(out)

    def substitute(self, mapping={}, **kws):
        return self._run(mapping, kws, False)

    def safe_substitute(self, mapping={}, **kws):
        return self._run(mapping, kws, True)


_missing = object()


class _ConfigParser(object):
    """ini files; FILES maps a path to [(section, [(key, value)])]"""
    FILES = {}
    BOOLEAN_STATES = {'1': True, 'yes': True, 'true': True, 'on': True, '0': False, 'no': False, 'false': False, 'off': False}

    def __init__(self, defaults=None, interpolation='basic', **kw):
        self._secs = {}
        self._interp = interpolation

    def optionxform(self, s):
        return s.lower()

    def read(self, filenames, encoding=None):
        if isinstance(filenames, str):
            filenames = [filenames]
        ok = []
        for f in filenames:
            if f in _ConfigParser.FILES:
                ok.append(f)
                for sec, items in _ConfigParser.FILES[f]:
                    d = self._secs.setdefault(sec, {})
                    for k, v in items:
                        d[self.optionxform(k)] = v
        return ok

    def sections(self):
        return list(self._secs.keys())

    def has_section(self, s):
        return s in self._secs

    def __contains__(self, s):
        return s in self._secs or s == 'DEFAULT'

    def __iter__(self):
        return iter(['DEFAULT'] + list(self._secs.keys()))

    def options(self, s):
        return list(self._secs[s].keys())

    def has_option(self, s, o):
        return s in self._secs and self.optionxform(o) in self._secs[s]

    def _value(self, s, v):
        if self._interp is None or '%' not in v:
            return v
        out = []
        i = 0
        while i < len(v):
            if v[i] != '%':
                out.append(v[i])
                i += 1
            elif v[i:i + 2] == '%%':
                out.append('%')
                i += 2
            elif v[i:i + 2] == '%(' and ')s' in v[i:]:
                j = v.index(')s', i)
                out.append(self._value(s, self._secs[s][self.optionxform(v[i + 2:j])]))
                i = j + 2
            else:
                raise ValueError('invalid interpolation syntax')
        return ''.join(out)

    def items(self, s=None, raw=False, vars=None):
        if s is None:
            return [(k, self[k]) for k in self._secs]
        return [(k, v if raw else self._value(s, v)) for k, v in self._secs[s].items()]

    def get(self, s, o, raw=False, vars=None, fallback=_missing):
        o = self.optionxform(o)
        if s in self._secs and o in self._secs[s]:
            return self._secs[s][o] if raw else self._value(s, self._secs[s][o])
        if fallback is not _missing:
            return fallback
        raise KeyError(o)

    def getboolean(self, s, o, raw=False, vars=None, fallback=_missing):
        v = self.get(s, o, fallback=fallback)
        return v if isinstance(v, bool) or v is None else self._convert_to_boolean(v)

    def _convert_to_boolean(self, value):
        if value.lower() not in self.BOOLEAN_STATES:
            raise ValueError('Not a boolean: ' + value)
        return self.BOOLEAN_STATES[value.lower()]

    def getint(self, s, o, raw=False, vars=None, fallback=_missing):
        v = self.get(s, o, fallback=fallback)
        return int(v) if isinstance(v, str) else v

    def getfloat(self, s, o, raw=False, vars=None, fallback=_missing):
        v = self.get(s, o, fallback=fallback)
        return float(v) if isinstance(v, str) else v

    def __getitem__(self, s):
        return _ConfigSection(self, s)


class _ConfigSection(object):
    def __init__(self, p, s):
        self.parser = p
        self.name = s
        if s not in p._secs:
            raise KeyError(s)

    def keys(self):
        return self.parser.options(self.name)

    def __iter__(self):
        return iter(self.parser.options(self.name))

    def __contains__(self, o):
        return self.parser.has_option(self.name, o)

    def __getitem__(self, o):
        return self.parser.get(self.name, o)

    def items(self):
        return self.parser.items(self.name)

    def get(self, o, fallback=None):
        return self.parser.get(self.name, o, fallback=fallback)

    def getboolean(self, o, fallback=None):
        return self.parser.getboolean(self.name, o, fallback=fallback)

    def getint(self, o, fallback=None):
        return self.parser.getint(self.name, o, fallback=fallback)

    def getfloat(self, o, fallback=None):
        return self.parser.getfloat(self.name, o, fallback=fallback)


class _Namespace(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class _ArgumentParser(object):
    def __init__(self, *a, **k):
        self._opts = {}
        self._pos = []
        self._dests = {}
        self._boss = self

    def add_argument_group(self, *a, **k):
        return _ArgumentGroup(self)

    def add_mutually_exclusive_group(self, *a, **k):
        return _ArgumentGroup(self)

    def set_defaults(self, **kw):
        self._dests.update(kw)

    def add_argument(self, *opts, **kw):
        b = self._boss
        for k in kw:
            if k not in ('dest', 'type', 'help', 'action', 'nargs', 'metavar', 'default', 'const', 'choices', 'required'):
                raise TypeError('add_argument: ' + k)
        kw = dict(kw)
        if not opts[0].startswith('-'):
            kw['dest'] = opts[0]
            b._dests[opts[0]] = kw.get('default')
            b._pos.append(kw)
            return kw
        for o in opts:
            if not o.startswith('-'):
                raise ValueError('invalid option string ' + o)
            if o in b._opts:
                raise ValueError('conflicting option string: ' + o)
        if kw.get('dest') is None:
            long = [o for o in opts if o.startswith('--')]
            kw['dest'] = (long or list(opts))[0].lstrip('-').replace('-', '_')
        act = kw.get('action', 'store')
        default = kw.get('default')
        if 'default' not in kw and act == 'store_true':
            default = False
        if 'default' not in kw and act == 'store_false':
            default = True
        if kw['dest'] not in b._dests:
            b._dests[kw['dest']] = default
        for o in opts:
            b._opts[o] = kw
        return kw

    def _conv(self, a, v):
        t = a.get('type')
        if isinstance(v, list):
            return [self._conv(a, x) for x in v]
        if t is not None:
            v = t(v)
        if a.get('choices') is not None and v not in a['choices']:
            raise SystemExit(2)
        return v

    def parse_known_args(self, argv=None, namespace=None):
        return (self.parse_args(argv), [])

    def parse_args(self, argv=None, namespace=None):
        ns = _Namespace()
        for k, v in self._dests.items():
            setattr(ns, k, v)
        pos = list(self._pos)
        i = 0
        seen = []

        def isopt(x):
            return x.startswith('-') and x != '-' and not (len(x) > 1 and (x[1:2].isdigit() or x[1:2] == '.'))
        argv = list(argv)
        while i < len(argv):
            x = argv[i]
            i += 1
            if not isopt(x):
                if not pos:
                    raise SystemExit(2)
                a = pos.pop(0)
                setattr(ns, a['dest'], self._conv(a, x))
                continue
            val = None
            if x in self._opts:
                a = self._opts[x]
            elif x.startswith('--') and '=' in x:
                val = x[x.index('=') + 1:]
                x = x[:x.index('=')]
                if x not in self._opts:
                    raise SystemExit(2)
                a = self._opts[x]
            elif not x.startswith('--') and x[:2] in self._opts:
                val = x[2:]
                a = self._opts[x[:2]]
            else:
                c = [o for o in self._opts if o.startswith(x)]
                if len(c) != 1:
                    raise SystemExit(2)
                a = self._opts[c[0]]
            act = a.get('action', 'store')
            if act == 'store_true':
                setattr(ns, a['dest'], True)
                continue
            if act == 'store_false':
                setattr(ns, a['dest'], False)
                continue
            if act == 'store_const':
                setattr(ns, a['dest'], a.get('const'))
                continue
            n = a.get('nargs')
            if val is not None:
                vals = [val]
            else:
                vals = []
                lim = 1 if n is None or n == '?' else n if isinstance(n, int) else 10000
                while i < len(argv) and len(vals) < lim and not isopt(argv[i]):
                    vals.append(argv[i])
                    i += 1
            if (n is None or n == '+') and not vals or isinstance(n, int) and len(vals) != n:
                raise SystemExit(2)
            if n is None or n == '?':
                v = self._conv(a, vals[0]) if vals else a.get('const')
            else:
                v = self._conv(a, vals)
            if act == 'append' or act == 'extend':
                old = getattr(ns, a['dest'])
                old = list(old) if old is not None else []
                if act == 'append':
                    old.append(v)
                else:
                    old.extend(v)
                setattr(ns, a['dest'], old)
            else:
                setattr(ns, a['dest'], v)
        for a in pos:
            if a.get('nargs') not in ('?', '*'):
                raise SystemExit(2)
        return ns


class _ArgumentGroup(_ArgumentParser):
    def __init__(self, parser):
        self._boss = parser._boss


class _FS(object):
    """files of the analysed program"""
    files = {}
    dirs = []
    log = []
    state = [0]

    @staticmethod
    def norm(p):
        p = str(p)
        while p.startswith('./'):
            p = p[2:]
        return p


class _File(object):
    _enc = _errs = None

    def __init__(self, name, mode='r', enc=None, errs=None):
        self.name = name
        if enc is not None and 'b' not in mode:
            self._enc = enc
            self._errs = errs
        self.mode = mode
        self.closed = False
        self.pos = 0
        n = _FS.norm(name)
        self._n = n
        if 'w' in mode:
            _FS.files[n] = ''
            _FS.log.append(('w', n))
        elif 'x' in mode:
            if n in _FS.files:
                raise FileExistsError(n)
            _FS.files[n] = ''
            _FS.log.append(('w', n))
        elif 'a' in mode:
            _FS.files.setdefault(n, '')
        elif n not in _FS.files:
            raise FileNotFoundError(n)

    def write(self, s):
        old = _FS.files[self._n]
        if self._enc is not None and isinstance(s, str):
            s = _encoded(s, self._enc, self._errs)
        if isinstance(old, str) and isinstance(s, str):
            _FS.files[self._n] = old + s
        elif isinstance(old, str) and old == '':
            _FS.files[self._n] = s
        else:
            _FS.files[self._n] = _Garbage(old.obj if isinstance(old, _Pickled) else None)
        return len(s) if isinstance(s, str) else 1

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, n=-1):
        s = _FS.files[self._n]
        if not isinstance(s, str):
            return s
        if n is None or n < 0:
            r = s[self.pos:]
            self.pos = len(s)
            return r
        r = s[self.pos:self.pos + n]
        self.pos += len(r)
        return r

    def readline(self):
        s = _FS.files[self._n]
        i = s.find('\n', self.pos)
        i = len(s) if i < 0 else i + 1
        r = s[self.pos:i]
        self.pos = i
        return r

    def readlines(self):
        out = []
        while 1:
            r = self.readline()
            if not r:
                return out
            out.append(r)

    def __iter__(self):
        return iter(self.readlines())

    def seek(self, n, w=0):
        self.pos = n if w == 0 else len(_FS.files[self._n])

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        _FS.files[self._n] = _FS.files[self._n][:n or 0]

    def flush(self):
        pass

    def fileno(self):
        return 7

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class _TextFile(_File):
    """an existing file opened for reading"""
    def __init__(self, text):
        self.lines = text.splitlines(True)
        self.i = 0
        self.closed = False

    def __iter__(self):
        while self.i < len(self.lines):
            self.i += 1
            yield self.lines[self.i - 1]

    def readline(self):
        self.i += 1
        return self.lines[self.i - 1] if self.i <= len(self.lines) else ''

    def readlines(self):
        r = self.lines[self.i:]
        self.i = len(self.lines)
        return r

    def read(self, n=-1):
        return ''.join(self.readlines())


def _fs_text(t):
    return _TextFile(t)


class _Path(object):
    """pathlib.Path"""
    def __init__(self, *a):
        p = ''
        for x in a:
            x = str(x)
            p = x if x[:1] == '/' or not p else p + '/' + x
        self._p = p

    def __truediv__(self, o):
        return _Path(self._p, o)

    def __str__(self):
        return self._p

    def __fspath__(self):
        return self._p

    def exists(self):
        import os
        return os.path.exists(self._p)

    is_file = is_dir = exists

    def is_absolute(self):
        return self._p[:1] == '/'

    def absolute(self):
        return self if self._p[:1] == '/' else _Path('/work', self._p)

    resolve = absolute

    @property
    def parent(self):
        import os
        return _Path(os.path.dirname(self._p) or '.')

    @property
    def stem(self):
        import os
        return os.path.splitext(self.name)[0]

    @property
    def suffix(self):
        import os
        return os.path.splitext(self.name)[1]

    def with_suffix(self, s):
        import os
        return _Path(os.path.splitext(self._p)[0] + s)

    def __eq__(self, o):
        return isinstance(o, _Path) and o._p == self._p

    def __hash__(self):
        return 7

    def glob(self, p):
        return []

    @property
    def name(self):
        return self._p.split('/')[-1]


class _Pickled(object):
    """bytes written by pickle for obj"""
    def __init__(self, obj):
        self.obj = obj


class _Garbage(object):
    """bytes that are no complete pickle: loading them raises, or gives another object"""
    def __init__(self, obj=None, exc=None):
        self.obj = obj
        self.exc = exc


class _PickleError(Exception):
    pass


class _PicklingError(_PickleError):
    pass


class _UnpicklingError(_PickleError):
    pass


def _pk(v):
    t = type(v)
    if v is None or t is bool or t is int or t is float or t is str or t is bytes:
        return v
    if t is list:
        return [_pk(x) for x in v]
    if t is tuple:
        return tuple([_pk(x) for x in v])
    if t is dict:
        d = {}
        for k in v:
            d[_pk(k)] = _pk(v[k])
        return d
    if isinstance(v, str) and not (hasattr(v, 'nodeType') and v.parentNode is not None and v != ''):
        return ''.join([x for x in v]) if hasattr(v, 'nodeType') else v
    raise _PicklingError("Can't pickle object")


def _pickle_dumps(obj, protocol=None):
    return _Pickled(_pk(obj))


def _pickle_dump(obj, fh, protocol=None):
    fh.write(_Pickled(_pk(obj)))


def _pickle_loads(c):
    if isinstance(c, _Pickled):
        return _pk(c.obj)
    if isinstance(c, _Garbage):
        if c.exc is not None:
            raise c.exc
        return c.obj
    if len(c) == 0:
        raise EOFError('Ran out of input')
    raise _UnpicklingError('invalid load key')


def _pickle_load(fh):
    return _pickle_loads(fh.read())


def _fs_open(name, mode='r', buffering=-1, encoding=None, errors=None, *a, **k):
    return _File(name, mode, encoding, errors)


def _fs_exists(p):
    p = _FS.norm(p)
    return p in _FS.files or p.rstrip('/') in _FS.dirs or p in ('', '.', '/', '/work')


def _fs_isfile(p):
    return _FS.norm(p) in _FS.files


def _fs_isdir(p):
    p = _FS.norm(p)
    return p.rstrip('/') in _FS.dirs or p in ('', '.', '/', '/work')


def _fs_makedirs(p, mode=511, exist_ok=False):
    p = _FS.norm(p).rstrip('/')
    if p in _FS.dirs:
        if not exist_ok:
            raise FileExistsError(p)
        return
    _FS.dirs.append(p)


def _fs_remove(p):
    p = _FS.norm(p)
    if p not in _FS.files:
        raise FileNotFoundError(p)
    del _FS.files[p]


def _fs_rename(a, b):
    a, b = _FS.norm(a), _FS.norm(b)
    if a not in _FS.files:
        raise FileNotFoundError(a)
    _FS.files[b] = _FS.files[a]
    del _FS.files[a]


def _fs_copy(a, b):
    a, b = _FS.norm(a), _FS.norm(b)
    if a not in _FS.files:
        raise FileNotFoundError(a)
    _FS.files[b] = _FS.files[a]
    return b


def _fs_listdir(d='.'):
    d = _FS.norm(d).rstrip('/')
    out = []
    for f in _FS.files:
        i = f.rfind('/')
        if (f[:i] if i >= 0 else '') == ('' if d == '.' else d):
            out.append(f[i + 1:])
    return out


def _fs_glob(pattern, **k):
    i = pattern.rfind('/')
    d, base = (pattern[:i], pattern[i + 1:]) if i >= 0 else ('', pattern)
    out = []
    for f in _fs_listdir(d):
        if '*' not in base:
            ok = f == base
        else:
            j = base.index('*')
            ok = f.startswith(base[:j]) and f.endswith(base[j + 1:]) and len(f) >= len(base) - 1
        if ok:
            out.append(d + '/' + f if i >= 0 else f)
    return out


def _fs_mkstemp(suffix='', prefix='tmp', dir=None, text=False):
    _FS.state[0] += 1
    n = (str(dir) + '/' if dir else '/tmp/') + (prefix or 'tmp') + 'q%d' % _FS.state[0] + (suffix or '')
    _FS.files[n] = ''
    return n, n


def _fs_fdopen(fd, mode='r', *a, **k):
    return _File(fd, mode)


def _fs_tempfile(mode='w+b', buffering=-1, encoding=None, newline=None, suffix='', prefix='tmp', dir=None, delete=True, **k):
    fd, n = _fs_mkstemp(suffix, prefix, dir)
    return _File(n, mode)
