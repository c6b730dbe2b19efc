"""Abstract values of the machine.

Concrete constants are host constants (None, bool, int, float, str, bytes, tuple, range, slice).
Everything else is one of the classes below.
"""


class Base(object):
    __slots__ = ()


class Obj(Base):
    """abstract heap object of a known class"""
    __slots__ = ('cls', 'attrs', 'payload', 'uid')
    n = 0

    def __init__(self, cls, payload=None):
        self.cls = cls
        self.attrs = {}
        self.payload = payload

    def __repr__(self):
        return '<%s%s>' % (self.cls.name, '' if self.payload is None else ' %r' % (self.payload,))


class ListV(Base):
    __slots__ = ('items',)

    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return 'L%r' % (self.items,)


class DictV(Base):
    __slots__ = ('data', 'default')     # data: hkey -> (key, value)

    def __init__(self, data=None):
        self.data = {} if data is None else data
        self.default = None

    def __repr__(self):
        return 'D{%s}' % ', '.join('%r: %r' % kv for kv in self.data.values())


class SetV(Base):
    __slots__ = ('data', 'frozen')     # hkey -> value

    def __init__(self, data=None, frozen=False):
        self.data = {} if data is None else data
        self.frozen = frozen

    def __repr__(self):
        return 'S%r' % (list(self.data.values()),)


class ClassV(Base):
    __slots__ = ('name', 'bases', 'mro', 'dict', 'builtin', 'meta', 'module', 'qualname', 'host', 'layout', 'gab')

    def __init__(self, name, bases, d, builtin=False, meta=None, module=None, host=None):
        self.name = name
        self.bases = tuple(bases)
        self.dict = d
        self.builtin = builtin
        self.meta = meta
        self.module = module
        self.qualname = name
        self.host = host
        self.mro = c3(self)
        # builtin base that determines the payload ('str', 'dict', ...)
        self.layout = None
        # attribute access implemented by the analysed code
        self.gab = any('__getattribute__' in k.dict and not k.builtin for k in self.mro)
        for k in self.mro:
            if k.builtin and k.name in ('str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'bool', 'bytes', 'type', 'frozenset'):
                self.layout = k.name
                break

    def lookup(self, name):
        for k in self.mro:
            d = k.dict
            if name in d:
                return d[name]
        return MISSING

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise TypeError('MRO conflict for ' + cls.name)
        res.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]


class FuncV(Base):
    __slots__ = ('code', 'globals', 'defaults', 'kwdefaults', 'closure', 'name', 'qualname', 'attrs', 'module')

    def __init__(self, code, globals, defaults=(), kwdefaults=None, closure=()):
        self.code = code
        self.globals = globals
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.closure = closure
        self.name = code.co_name
        self.qualname = code.co_qualname
        self.attrs = {}
        self.module = globals.get('__name__')

    def __repr__(self):
        return '<func %s>' % self.qualname


class BoundV(Base):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class IntrV(Base):
    """host-implemented operation of the abstract semantics: fn(m, args, kwargs)"""
    __slots__ = ('name', 'fn', 'bind')

    def __init__(self, name, fn, bind=True):
        self.name = name
        self.fn = fn
        self.bind = bind

    def __repr__(self):
        return '<intr %s>' % self.name


class ModuleV(Base):
    __slots__ = ('name', 'dict', 'file')

    def __init__(self, name, d=None, file=None):
        self.name = name
        self.dict = {} if d is None else d
        self.file = file

    def __repr__(self):
        return '<module %s>' % self.name


class OpaqueModuleV(ModuleV):
    __slots__ = ()


class Cell(Base):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class PropV(Base):
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticV(Base):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClassMV(Base):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class SuperV(Base):
    __slots__ = ('cls', 'obj', 'start')

    def __init__(self, cls, obj, start):
        self.cls, self.obj, self.start = cls, obj, start


class GenV(Base):
    __slots__ = ('frame', 'state', 'started')   # state: 'new','susp','run','done'

    def __init__(self, frame):
        self.frame = frame
        self.state = 'susp'
        self.started = False


class ItV(Base):
    """iterator over a list / tuple / str / range / snapshot"""
    __slots__ = ('src', 'idx', 'kind')

    def __init__(self, src, kind='seq'):
        self.src = src
        self.idx = 0
        self.kind = kind


class HostV(Base):
    """constant of a foreign immutable type (compiled regex, match of a constant...)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '<host %r>' % (self.v,)


class ViewV(Base):
    __slots__ = ('d', 'kind')

    def __init__(self, d, kind):
        self.d, self.kind = d, kind


# ---------------------------------------------------------------- abstract values

class Abs(Base):
    """value the analysis does not know.  Subclasses override hooks; the default is: every
    question is undetermined."""
    __slots__ = ()
    tname = None

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((type(self).__name__, self.key()))


class Sym(Abs):
    """named unknown.  props: frozenset of known facts about it, e.g. 'nonempty', 'distinct'"""
    __slots__ = ('name', 'tname', 'props')

    def __init__(self, name, tname=None, *props):
        self.name = name
        self.tname = tname
        self.props = frozenset(props)

    def key(self):
        return (self.name, self.tname)

    def __repr__(self):
        return '?%s' % (self.name,)


class Term(Abs):
    """uninterpreted operation applied to values"""
    __slots__ = ('op', 'args', 'tname')

    def __init__(self, op, args, tname=None):
        self.op = op
        self.args = tuple(args)
        self.tname = tname

    def key(self):
        return (self.op, self.args, self.tname)

    def __repr__(self):
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Ch(Abs):
    """one unknown character; its possible values are a (co)finite set kept in the path facts"""
    __slots__ = ('name',)
    tname = 'str'

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return '?c:%s' % (self.name,)


class Lin(Abs):
    """linear form  const + sum coeff*sym  over unknown numbers"""
    __slots__ = ('const', 'terms', 'tname')

    def __init__(self, terms, const=0, tname='int'):
        self.terms = tuple(terms)      # sorted ((sym, coeff), ...)
        self.const = const
        self.tname = tname

    def key(self):
        return (self.terms, self.const, self.tname)

    def __repr__(self):
        s = ' + '.join(('%r' % (t,)) if c == 1 else '%r*%r' % (c, t) for t, c in self.terms)
        if self.const:
            s += ' + %r' % (self.const,)
        return '(%s)' % s


class SStr(Abs):
    """concatenation of constant strings and unknown strings"""
    __slots__ = ('parts',)
    tname = 'str'

    def __init__(self, parts):
        self.parts = tuple(parts)

    def key(self):
        return self.parts

    def __repr__(self):
        return '"%s"' % ''.join(p if isinstance(p, str) else '{%r}' % (p,) for p in self.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, SStr):
            q = p.parts
        else:
            q = (p,)
        for x in q:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return SStr(out)


class AbsIter(Abs):
    """abstract stream: step(m, self) -> value or STOP.  Mutable state in .st (trailed)."""
    __slots__ = ('step', 'st', 'name')
    tname = 'iterator'

    def __init__(self, name, step, st=None):
        self.name, self.step, self.st = name, step, st

    def key(self):
        return id(self)


class _S(object):
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n

    def __deepcopy__(self, memo):
        return self


MISSING = _S('MISSING')
NULL = _S('NULL')
STOP = _S('STOP')
PUSHED = _S('PUSHED')
NOTIMPL = _S('NotImplemented')
