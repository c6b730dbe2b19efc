"""abstract semantics of builtins"""
import builtins as hb
import re as hre
import string as hstring
from .values import *
import re as _re
from . import absdom
from .absdom import Opq

builtins = {}
builtin_classes = {}
prelude = {}

HOSTC = (str, int, float, bool, bytes, type(None), range, complex)


def _m():
    from . import machine
    return machine


def opaque(name):
    return Opq(name)


# ------------------------------------------------------------------ helpers
def unwrap(v):
    if type(v) is Obj and v.payload is not None:
        return v.payload
    return v


def strpay(v):
    return unwrap(v)


def is_const(v):
    t = type(v)
    if t in HOSTC:
        return True
    if t is tuple:
        return all(is_const(x) for x in v)
    if t is slice:
        return is_const(v.start) and is_const(v.stop) and is_const(v.step)
    return False


def to_host(v):
    """constant -> host value, or raises KeyError"""
    v = unwrap(v)
    t = type(v)
    if t in HOSTC:
        return v
    if t is tuple:
        return tuple(to_host(x) for x in v)
    if t is slice:
        return v
    if t is ListV:
        return [to_host(x) for x in v.items]
    if t is DictV:
        return {to_host(k): to_host(x) for k, x in v.data.values()}
    if t is SetV:
        return (frozenset if v.frozen else set)(to_host(x) for x in v.data.values())
    if t is HostV:
        return v.v
    raise KeyError('not constant: %r' % (v,))


def from_host(m, v):
    t = type(v)
    if t in HOSTC:
        return v
    if t is list:
        return ListV([from_host(m, x) for x in v])
    if t is tuple:
        return tuple(from_host(m, x) for x in v)
    if t is dict:
        d = DictV()
        for k, x in v.items():
            dict_set(m, d, from_host(m, k), from_host(m, x))
        return d
    if t in (set, frozenset):
        s = SetV(frozen=t is frozenset)
        for x in sorted(v, key=repr):
            x = from_host(m, x)
            s.data[hkey(m, x)] = x
        return s
    return HostV(v)


def host_call(m, f, args, kwargs):
    """fold a pure host function over constants"""
    try:
        a = [to_host(x) for x in args]
        k = {n: to_host(x) for n, x in kwargs.items()}
    except KeyError:
        r = absdom.host_call(m, f, args, kwargs)
        if r is not NOTIMPL:
            return r
        raise _m().Unsupported('host call %s on unknown' % getattr(f, '__name__', f))
    return host_try(m, f, a, k)


def host_try(m, f, a, k={}):
    try:
        r = f(*a, **k)
    except _m().PyRaise:
        raise
    except _m().Fork:
        raise
    except RecursionError:
        raise
    except Exception as e:
        n = type(e).__name__
        if n not in builtin_classes:
            n = 'ValueError' if isinstance(e, ValueError) else 'Exception'
        x = m.exc(n, *[str(q) for q in e.args])
        raise _m().PyRaise(x)
    return from_host(m, r)


def hkey(m, v):
    t = type(v)
    if t in HOSTC:
        return v
    if t is Obj:
        if v.payload is not None:
            p = v.payload
            if type(p) in HOSTC or isinstance(p, Abs):
                h = v.cls.lookup('__hash__')
                return p
            if type(p) in (ListV, DictV, SetV) and v.cls.lookup('__hash__') is None:
                m.throw('TypeError', 'unhashable')
        return ('id', _Id(v))
    if t is tuple:
        return ('t',) + tuple(hkey(m, x) for x in v)
    if isinstance(v, Abs):
        return v
    if t in (ListV, DictV, SetV) and not (t is SetV and v.frozen):
        m.throw('TypeError', "unhashable type: '%s'" % m.typeof(v).name)
    if t is SetV:
        return ('fs', frozenset(v.data))
    if t is BoundV:
        return ('bd', hkey(m, v.func), hkey(m, v.self))
    return ('id', _Id(v))


class _Id(object):
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, _Id) and x.o is self.o

    def __hash__(self):
        return id(self.o)


def dict_find(m, d, key):
    """(key, value) or None; forks when the key is not determined"""
    k = hkey(m, key)
    e = d.data.get(k)
    if e is not None:
        return e
    if isinstance(k, Abs) and k.tname is not None or isinstance(k, tuple) and any(isinstance(x, Abs) for x in k):
        for k2, e in d.data.items():
            if absdom.eq(m, k, k2) is True:
                return e
        return None
    if len(d.data) <= 60:
        for k2, e in d.data.items():
            if isinstance(k2, Abs) and absdom.eq(m, k, k2) is True:
                return e
    return None


def dict_set(m, d, key, value):
    e = dict_find(m, d, key)
    dd = m.dmut(d)
    if e is not None:
        dd[hkey(m, e[0])] = (e[0], value)
    else:
        dd[hkey(m, key)] = (key, value)


def dict_del(m, d, key):
    e = dict_find(m, d, key)
    if e is None:
        m.throw('KeyError', key)
    dd = m.dmut(d)
    del dd[hkey(m, e[0])]
    return e[1]


def mkdict(m, pairs):
    d = DictV()
    for k, v in pairs:
        dict_set(m, d, k, v)
    return d


def seq_items(m, v):
    """items of a sequence-like value without running code, or None"""
    t = type(v)
    if t is ListV:
        return v.items
    if t is tuple:
        return v
    if t is str:
        return list(v)
    if t is bytes or t is range:
        return list(v)
    if t is DictV:
        return [k for k, _ in v.data.values()]
    if t is SetV:
        return list(v.data.values())
    if t is ViewV:
        return view_items(m, v)
    if t is Obj and v.payload is not None and type(v.cls.lookup('__iter__')) is not FuncV:
        return seq_items(m, v.payload)
    if t is SStr:
        return absdom.chars(m, v)
    return None


def view_pairs(m, v):
    d = v.d
    if v.kind == 'attrs':
        return list(d.attrs.items())
    if v.kind == 'module':
        return list(d.dict.items())
    if v.kind == 'class':
        return list(d.dict.items())
    if v.kind == 'names':
        return list(d.v.items())
    return [p for p in d.data.values()]


def view_items(m, v):
    if v.kind == 'values':
        return [x for _, x in v.d.data.values()]
    if v.kind == 'items':
        return [(k, x) for k, x in v.d.data.values()]
    return [k for k, _ in view_pairs(m, v)]


def view_dict(v):
    return {'attrs': lambda: v.d.attrs, 'module': lambda: v.d.dict, 'class': lambda: v.d.dict, 'names': lambda: v.d.v}[v.kind]()


# ------------------------------------------------------------------ identity / equality
def is_same(m, a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if isinstance(a, Abs) or isinstance(b, Abs):
        if isinstance(a, Abs) and isinstance(b, Abs):
            if a == b:
                return True
            return False
        x, y = (a, b) if isinstance(a, Abs) else (b, a)
        if y is None and absdom.maybe_none(x):
            return absdom.isnone(m, x)
        if type(y) is bool and x.tname == 'bool':
            return m.truth_host(x) == y
        return False
    if ta is not tb:
        return False
    if ta in (int, str, bool, bytes):
        return a == b
    if ta is BoundV:
        return False
    return False


def user_method(m, v, name):
    if type(v) is Obj:
        a = v.cls.lookup(name)
        if type(a) is FuncV:
            return a
    return None


def eq_host(m, a, b):
    if a is b:
        if user_method(m, a, '__eq__') is None:
            return True
    ta, tb = type(a), type(b)
    if ta is Obj and user_method(m, a, '__eq__') or tb is Obj and user_method(m, b, '__eq__'):
        return NOTIMPL
    if ta is Obj and a.payload is not None:
        return eq_host(m, a.payload, b)
    if tb is Obj and b.payload is not None:
        return eq_host(m, a, b.payload)
    if isinstance(a, Abs) or isinstance(b, Abs):
        return absdom.eq(m, a, b)
    if ta in HOSTC and tb in HOSTC:
        return a == b
    if ta is tb and ta in (ListV, tuple):
        x = a.items if ta is ListV else a
        y = b.items if ta is ListV else b
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            r = eq_host(m, p, q)
            if r is NOTIMPL or r is False:
                return r
        return True
    if ta is tb and ta is DictV:
        if len(a.data) != len(b.data):
            return False
        for k, e in a.data.items():
            f = b.data.get(k)
            if f is None:
                return False
            r = eq_host(m, e[1], f[1])
            if r is not True:
                return r
        return True
    if ta is tb and ta is SetV:
        return set(a.data) == set(b.data)
    if ta is ViewV or tb is ViewV:
        x = view_items(m, a) if ta is ViewV else a
        y = view_items(m, b) if tb is ViewV else b
        return eq_host(m, ListV(x) if isinstance(x, list) else x, ListV(y) if isinstance(y, list) else y)
    if ta is HostV and tb is HostV:
        return a.v == b.v
    if ta is BoundV and tb is BoundV:
        return a.func is b.func and a.self is b.self
    if ta is slice and tb is slice:
        return a == b
    return a is b


REFL = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
DUNDER = {'<': '__lt__', '>': '__gt__', '<=': '__le__', '>=': '__ge__', '==': '__eq__', '!=': '__ne__'}


def compare(m, op, a, b, cont=None):
    """deliver a op b"""
    dn = DUNDER[op]
    ua = user_method(m, a, dn)
    ub = user_method(m, b, DUNDER[REFL[op]])
    if op == '!=' and ua is None and user_method(m, a, '__eq__') is not None and type(a.cls.lookup('__ne__')) is not FuncV:
        def neg(m, caller, v, cont=cont):
            r = m.truth_host(v)
            m.deliver(not r, cont)
        return compare(m, '==', a, b, neg)
    if ub is not None and (ua is None or (m.typeof(b) is not m.typeof(a) and m.typeof(b).issub(m.typeof(a)) and ub is not ua)):
        if type(b) is Obj and (ua is None and (m.typeof(b).issub(m.typeof(a)) or not can_compare(m, op, a, b)) or ua is not None):
            def c(m, caller, v, a=a, b=b, op=op, cont=cont):
                if v is NOTIMPL:
                    return m.deliver(compare_plain(m, op, a, b), cont)
                m.deliver(v, cont)
            return m.call(ub, [b, a], None, c)
    if ua is not None:
        def c(m, caller, v, a=a, b=b, op=op, ub=ub, cont=cont):
            if v is NOTIMPL:
                if ub is not None:
                    def c2(m, caller, v, a=a, b=b, op=op, cont=cont):
                        if v is NOTIMPL:
                            return m.deliver(compare_plain(m, op, a, b), cont)
                        m.deliver(v, cont)
                    return m.call(ub, [b, a], None, c2)
                return m.deliver(compare_plain(m, op, a, b), cont)
            m.deliver(v, cont)
        return m.call(ua, [a, b], None, c)
    if op in ('==', '!='):
        r = eq_host(m, a, b)
        if r is NOTIMPL:
            def c3(m, caller, v, op=op, cont=cont):
                m.deliver(v if op == '==' else not v, cont)
            pa, pb = unwrap(a), unwrap(b)
            if type(pa) is type(pb) and type(pa) in (ListV, tuple):
                return m.call(prelude['_seq_eq'], [pa, pb], None, c3)
            if type(pa) is DictV and type(pb) is DictV:
                return m.call(prelude['_dict_eq'], [pa, pb], None, c3)
            if pa is not a or pb is not b:
                r = eq_host(m, pa, pb)
                if r is not NOTIMPL:
                    return m.deliver(r if op == '==' else not r, cont)
            raise _m().Unsupported('eq %r %r' % (a, b))
        return m.deliver(r if op == '==' else not r, cont)
    if type(a) is type(b) and type(a) in (ListV, tuple):
        try:
            r = host_try(m, _ops[op], [to_host(a), to_host(b)])
            return m.deliver(r, cont)
        except KeyError:
            return m.call(prelude['_seq_cmp'], [a, b, op], None, cont)
    m.deliver(compare_plain(m, op, a, b), cont)


def can_compare(m, op, a, b):
    if op in ('==', '!='):
        return type(unwrap(a)) is type(unwrap(b))
    return True


import operator as _o
_ops = {'<': _o.lt, '>': _o.gt, '<=': _o.le, '>=': _o.ge, '==': _o.eq, '!=': _o.ne}


def compare_plain(m, op, a, b):
    a, b = unwrap(a), unwrap(b)
    if isinstance(a, Abs) or isinstance(b, Abs):
        return absdom.compare(m, op, a, b)
    if op == '==':
        return eq_host(m, a, b) is True
    if op == '!=':
        return eq_host(m, a, b) is not True
    if is_const(a) and is_const(b):
        return host_try(m, _ops[op], [a, b])
    if type(a) is SetV and type(b) is SetV:
        return _ops[op](set(a.data), set(b.data))
    m.throw('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (op, m.typeof(a).name, m.typeof(b).name))


def contains(m, a, b, neg=False):
    """deliver (a in b) != neg"""
    def fin(m, caller, v, neg=neg):
        r = m.truth_host(v)
        m.deliver(r != neg)
    u = user_method(m, b, '__contains__')
    if u is not None:
        return m.call(u, [b, a], None, fin)
    if type(b) is Obj and b.payload is None or type(b) is GenV or (type(b) is Obj and user_method(m, b, '__iter__') and type(b.payload) is ListV):
        if user_method(m, b, '__iter__') is None and user_method(m, b, '__getitem__') is None and type(b) is not GenV:
            m.throw('TypeError', 'argument of type %r is not iterable' % b.cls.name)
        return m.call(prelude['_contains'], [b, a], None, fin)
    bb = unwrap(b)
    t = type(bb)
    if t in (ListV, tuple) or t is ViewV and bb.kind in ('values', 'items'):
        xs = seq_items(m, bb)
        for x in xs:
            if x is a:
                return m.push(not neg)
            r = eq_host(m, a, x)
            if r is NOTIMPL:
                return m.call(prelude['_contains'], [bb, a], None, fin)
            if r:
                return m.push(not neg)
        return m.push(neg)
    if t is DictV:
        return m.push((dict_find(m, bb, a) is not None) != neg)
    if t is SetV:
        return m.push((dict_find(m, _SetD(bb), a) is not None) != neg)
    if t is ViewV:
        if bb.kind == 'keys':
            return m.push((dict_find(m, bb.d, a) is not None) != neg)
        return m.push((strpay(a) in view_dict(bb)) != neg)
    if t is str:
        a2 = unwrap(a)
        if type(a2) is str:
            return m.push((a2 in bb) != neg)
        if isinstance(a2, Abs):
            return m.push(absdom.in_str(m, a2, bb) != neg)
        m.throw('TypeError', "'in <string>' requires string as left operand, not %s" % m.typeof(a).name)
    if isinstance(bb, Abs):
        return m.push(absdom.contains(m, unwrap(a), bb) != neg)
    if t is range or t is bytes:
        a2 = unwrap(a)
        if is_const(a2):
            return m.push((a2 in bb) != neg)
        if isinstance(a2, Abs) and t is range and bb.step == 1:
            return m.push((absdom.compare(m, '>=', a2, bb.start) and absdom.compare(m, '<', a2, bb.stop)) != neg)
    if t is HostV:
        return m.push((to_host(a) in bb.v) != neg)
    if bb is None or t in (int, float, bool):
        m.throw('TypeError', "argument of type %r is not iterable" % m.typeof(bb).name)
    if t is ItV:
        return m.call(prelude['_contains'], [bb, a], None, fin)
    raise _m().Unsupported('contains %r' % (b,))


class _SetD(object):
    def __init__(self, s):
        self.data = {k: (v, v) for k, v in s.data.items()}


# ------------------------------------------------------------------ operators
BIN = {'+': ('__add__', '__radd__', _o.add), '-': ('__sub__', '__rsub__', _o.sub), '*': ('__mul__', '__rmul__', _o.mul),
       '/': ('__truediv__', '__rtruediv__', _o.truediv), '//': ('__floordiv__', '__rfloordiv__', _o.floordiv),
       '%': ('__mod__', '__rmod__', _o.mod), '**': ('__pow__', '__rpow__', _o.pow), '&': ('__and__', '__rand__', _o.and_),
       '|': ('__or__', '__ror__', _o.or_), '^': ('__xor__', '__rxor__', _o.xor), '<<': ('__lshift__', '__rlshift__', _o.lshift),
       '>>': ('__rshift__', '__rrshift__', _o.rshift)}


def binop(m, op, a, b):
    inplace = op.endswith('=')
    if inplace:
        op = op[:-1]
        if op == '':
            raise _m().Unsupported('op')
    an, rn, fn = BIN[op]
    if inplace:
        u = user_method(m, a, '__i' + an[2:])
        if u is not None:
            return m.call(u, [a, b])
        if type(a) is ListV and op == '+':
            xs = seq_items(m, b)
            if xs is None:
                def c(m, caller, v, a=a):
                    caller.stack.append(a)
                return m.call(prelude['_lext'], [a, b], None, c)
            m.lmut(a).extend(list(xs))
            return m.push(a)
        if type(a) is SetV and type(b) is SetV and op == '|':
            m.dmut(a).update(b.data)
            return m.push(a)
        if type(a) is Obj and type(a.payload) is ListV and op == '+' and user_method(m, a, '__add__') is None:
            xs = seq_items(m, b)
            if xs is not None:
                m.lmut(a.payload).extend(list(xs))
                return m.push(a)
    ua = user_method(m, a, an)
    ub = user_method(m, b, rn)
    if ua is not None:
        return m.call(ua, [a, b])
    if ub is not None:
        return m.call(ub, [b, a])
    a2, b2 = unwrap(a), unwrap(b)
    if op == '%' and (type(a2) is str or isinstance(a2, Abs) and a2.tname == 'str'):
        return percent(m, a2, b)
    if is_const(a2) and is_const(b2):
        if op == '*' and isinstance(a2, (str, tuple)) and isinstance(b2, int) and b2 > 100000:
            raise _m().Unsupported('huge')
        if op == '**' and isinstance(b2, int) and abs(b2) > 10000:
            raise _m().Unsupported('huge')
        return m.push(host_try(m, fn, [a2, b2]))
    if op == '+':
        if type(a2) is ListV and type(b2) is ListV:
            return m.push(ListV(a2.items + b2.items))
        if type(a2) is tuple and type(b2) is tuple:
            return m.push(a2 + b2)
    if op == '*' and type(a2) is ListV and type(b2) is int:
        return m.push(ListV(a2.items * b2))
    if op == '*' and type(a2) is int and type(b2) is ListV:
        return m.push(ListV(b2.items * a2))
    if type(a2) is tuple and op == '*' and type(b2) is int:
        return m.push(a2 * b2)
    if isinstance(a2, Abs) or isinstance(b2, Abs):
        return m.push(absdom.binop(m, op, a2, b2))
    if type(a2) is ViewV:
        a2 = _view_set(m, a2)
    if type(b2) is ViewV:
        b2 = _view_set(m, b2)
    if type(a2) is SetV and type(b2) is SetV:
        x, y = a2.data, b2.data
        if op == '|':
            r = dict(x)
            r.update(y)
        elif op == '&':
            r = {k: v for k, v in x.items() if k in y}
        elif op == '-':
            r = {k: v for k, v in x.items() if k not in y}
        else:
            r = {k: v for k, v in x.items() if k not in y}
            r.update({k: v for k, v in y.items() if k not in x})
        return m.push(SetV(r, a2.frozen))
    if type(a2) is DictV and type(b2) is DictV and op == '|':
        d = dict(a2.data)
        d.update(b2.data)
        return m.push(DictV(d))
    if type(a2) is HostV or type(b2) is HostV:
        try:
            return m.push(host_try(m, fn, [to_host(a2), to_host(b2)]))
        except KeyError:
            pass
    if op == '|' and (type(a2) is ClassV or type(b2) is ClassV):
        return m.push(opaque('typing'))
    m.throw('TypeError', "unsupported operand type(s) for %s: '%s' and '%s'" % (op, m.typeof(a).name, m.typeof(b).name))


def _view_set(m, v):
    return SetV({hkey(m, x): x for x in view_items(m, v)})


def unary(m, op, v):
    u = user_method(m, v, '__neg__' if op == '-' else '__invert__' if op == '~' else '__pos__')
    if u is not None:
        return m.call(u, [v])
    v = unwrap(v)
    if isinstance(v, Abs):
        return m.push(absdom.unary(m, op, v))
    if not is_const(v):
        m.throw('TypeError', 'bad operand type for unary ' + op)
    m.push(host_try(m, {'-': _o.neg, '+': _o.pos, '~': _o.invert}[op], [v]))


_pct = hre.compile(r'%(?:\(([^()]*)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d*))?([a-zA-Z%])')


def percent(m, fmt, arg):
    """fmt % arg"""
    if isinstance(fmt, Abs):
        ps = fmt.parts if isinstance(fmt, SStr) else [fmt]
        u = unwrap(arg)
        if all(isinstance(p, str) or absdom.isword(p) for p in ps) and (type(u) is DictV or type(u) is ViewV or type(arg) is Obj and user_method(m, arg, '__getitem__') is not None) \
                and all(not _pct.sub('', p).count('%') for p in ps if isinstance(p, str)):
            # conversions within the known parts of the format
            return m.call(prelude['_percent_parts'], [tuple((isinstance(p, str), p) for p in ps), arg])
        return m.push(absdom.binop(m, '%', fmt, arg))
    need = []
    arg_u = unwrap(arg)
    vals = arg if type(arg) is tuple else None
    # do any %s arguments need interpreted __str__ ?
    pos = 0
    parts = []
    last = 0
    simple = True
    for mo in _pct.finditer(fmt):
        parts.append(fmt[last:mo.start()])
        last = mo.end()
        name, flags, width, prec, conv = mo.groups()
        if conv == '%':
            parts.append('%')
            continue
        if name is not None:
            d = unwrap(arg)
            if type(d) is ViewV:
                dd = view_dict(d)
                if name not in dd:
                    m.throw('KeyError', name)
                v = dd[name]
            elif user_method(m, arg, '__getitem__') is not None or type(d) is not DictV:
                return m.call(prelude['_percent_map'], [fmt, arg])
            else:
                e = dict_find(m, d, name)
                if e is None:
                    m.throw('KeyError', name)
                v = e[1]
        else:
            if vals is None:
                if pos > 0:
                    m.throw('TypeError', 'not enough arguments for format string')
                v = arg
            else:
                if pos >= len(vals):
                    m.throw('TypeError', 'not enough arguments for format string')
                v = vals[pos]
            pos += 1
        parts.append((v, '%' + (flags or '') + (width or '') + ('.' + prec if prec is not None else '') + conv, conv))
    parts.append(fmt[last:])
    if vals is not None and pos < len(vals) and not any(type(p) is tuple and False for p in parts):
        if not hre.search(r'%\(', fmt):
            m.throw('TypeError', 'not all arguments converted during string formatting')
    if vals is None and pos == 0 and type(arg_u) is not DictV and type(arg_u) is not ViewV and type(arg_u) is not ListV and not hre.search(r'%\(', fmt):
        if type(arg) is not Obj or arg.payload is not None:
            m.throw('TypeError', 'not all arguments converted during string formatting')
    # strings for each part
    todo = [i for i, p in enumerate(parts) if type(p) is tuple]
    return _percent_go(m, parts, todo, 0)


def _percent_go(m, parts, todo, i):
    while i < len(todo):
        v, spec, conv = parts[todo[i]]
        if conv in 'sr':
            def c(m, caller, s, parts=parts, todo=todo, i=i, spec=spec):
                s = unwrap(s)
                if type(s) is str:
                    s = (spec[:-1] + 's') % s
                parts = list(parts)
                parts[todo[i]] = s
                _percent_go(m, parts, todo, i + 1)
            h = str_host(m, v) if conv == 's' else repr_host(m, v)
            if h is NOTIMPL:
                return m.call(builtins['str' if conv == 's' else 'repr'], [v], None, c)
            if type(h) is str:
                h = (spec[:-1] + 's') % h
            parts = list(parts)
            parts[todo[i]] = h
        else:
            x = unwrap(v)
            if isinstance(x, Abs):
                parts = list(parts)
                if conv == 'd' and spec == '%d':
                    parts[todo[i]] = absdom.to_str(m, x)
                else:
                    parts[todo[i]] = Term('fmt', (spec, x), 'str')
            else:
                if not is_const(x):
                    m.throw('TypeError', '%%%s format: a number is required' % conv)
                parts = list(parts)
                parts[todo[i]] = host_try(m, lambda: spec % x, [])
        i += 1
    m.push(mkstr(parts))


def format_value(m, v, conv, spec):
    if conv == 2:
        h = repr_host(m, v)
    elif conv == 1 or not spec:
        h = str_host(m, v)
    else:
        x = unwrap(v)
        if isinstance(x, Abs):
            if spec in ('d', 's', ''):
                return m.push(absdom.to_str(m, x))
            return m.push(Term('format', (x, spec), 'str'))
        return m.push(host_try(m, format, [to_host(x), to_host(spec)]))
    if h is NOTIMPL:
        if spec:
            raise _m().Unsupported('format spec on object')
        return m.call(builtins['repr' if conv == 2 else 'str'], [v])
    if spec:
        if type(h) is not str:
            h = Term('format', (h, spec), 'str')
        else:
            h = host_try(m, format, [h, to_host(spec)])
    m.push(h)


# ------------------------------------------------------------------ str / repr
def str_host(m, v):
    t = type(v)
    if t is str:
        return v
    if t is Obj:
        a = v.cls.lookup('__str__')
        if type(a) is FuncV:
            return NOTIMPL
        if v.payload is not None:
            if v.cls.layout == 'str':
                return v.payload
            b = v.cls.lookup('__repr__')
            if type(b) is FuncV:
                return NOTIMPL
            return str_host(m, v.payload)
        if v.cls.issub(builtin_classes['BaseException']):
            a = v.attrs.get('args', ())
            if len(a) == 0:
                return ''
            if len(a) == 1:
                return str_host(m, a[0])
            return repr_host(m, a)
        b = v.cls.lookup('__repr__')
        if type(b) is FuncV:
            return NOTIMPL
        return '<%s object>' % v.cls.name
    if isinstance(v, Abs):
        return absdom.to_str(m, v)
    return repr_host(m, v)


def repr_host(m, v):
    t = type(v)
    if t in HOSTC:
        return repr(v)
    if t is Obj:
        b = v.cls.lookup('__repr__')
        if type(b) is FuncV:
            return NOTIMPL
        if v.payload is not None:
            return repr_host(m, v.payload)
        return '<%s object>' % v.cls.name
    if t in (ListV, tuple, DictV, SetV, slice):
        try:
            return repr(to_host(v))
        except KeyError:
            return Term('repr', (v if t is tuple else repr(v),), 'str')
    if t is ClassV:
        return "<class '%s'>" % v.name
    if t is HostV:
        return repr(v.v)
    if isinstance(v, Abs):
        return Term('repr', (v,), 'str')
    return repr(v)


def i_str(m, args, kw):
    if not args:
        return ''
    v = args[0]
    if len(args) > 1:
        return host_call(m, str, args, kw)
    h = str_host(m, v)
    if h is NOTIMPL:
        a = v.cls.lookup('__str__')
        if type(a) is not FuncV:
            a = v.cls.lookup('__repr__')
        m.call(a, [v])
        return PUSHED
    return h


def i_repr(m, args, kw):
    h = repr_host(m, args[0])
    if h is NOTIMPL:
        m.call(args[0].cls.lookup('__repr__'), [args[0]])
        return PUSHED
    return h


# ------------------------------------------------------------------ subscripts
def getitem(m, o, k):
    u = user_method(m, o, '__getitem__')
    if u is not None:
        return m.call(u, [o, k])
    m.push(getitem_plain(m, o, k))


def norm_slice(m, s):
    def f(x):
        x = unwrap(x)
        return x
    return slice(f(s.start), f(s.stop), f(s.step))


def getitem_plain(m, o, k):
    src = o
    o = unwrap(o)
    t = type(o)
    if t is DictV:
        e = dict_find(m, o, k)
        if e is None:
            miss = src.cls.lookup('__missing__') if type(src) is Obj else MISSING
            if miss is not MISSING:
                raise _m().Unsupported('__missing__')
            if o.default is not None:
                raise _m().Unsupported('defaultdict')
            m.throw('KeyError', k)
        return e[1]
    if t is ViewV and t is not None and o.kind in ('attrs', 'module', 'class', 'names'):
        d = view_dict(o)
        kk = strpay(k)
        if isinstance(kk, Abs):
            raise _m().Unsupported('vars()[unknown]')
        if kk not in d:
            m.throw('KeyError', k)
        return d[kk]
    k2 = unwrap(k)
    if t in (ListV, tuple, str, range, bytes):
        seq = o.items if t is ListV else o
        if type(k2) is slice:
            s = norm_slice(m, k2)
            if not is_const(s):
                s = absdom.const_slice(m, s, len(seq))
            r = host_try_raw(m, lambda: seq[s])
            return ListV(r) if t is ListV else r
        if isinstance(k2, Abs):
            k2 = absdom.const_index(m, k2, len(seq))
        if type(k2) not in (int, bool):
            m.throw('TypeError', '%s indices must be integers or slices, not %s' % (m.typeof(o).name, m.typeof(k).name))
        return host_try_raw(m, lambda: seq[k2])
    if isinstance(o, Abs):
        return absdom.getitem(m, o, norm_slice(m, k2) if type(k2) is slice else k2)
    if t is ClassV:
        if o.meta is None or o.builtin:
            return o
        u = o.meta.lookup('__getitem__')
        return o
    if t is HostV:
        return host_try(m, lambda: o.v[to_host(k)], [])
    if t is Opq:
        return Opq(o.name + '[]')
    m.throw('TypeError', '%r object is not subscriptable' % m.typeof(o).name)


def host_try_raw(m, f):
    try:
        return f()
    except (IndexError, ValueError, TypeError, KeyError) as e:
        m.throw(type(e).__name__, *[str(x) for x in e.args])


def setitem(m, o, k, v):
    u = user_method(m, o, '__setitem__')
    if u is not None:
        return m.call(u, [o, k, v], None, _m()._discard)
    setitem_plain(m, o, k, v)


def setitem_plain(m, o, k, v):
    o = unwrap(o)
    t = type(o)
    if t is DictV:
        return dict_set(m, o, k, v)
    if t is ListV:
        k = unwrap(k)
        if type(k) is slice:
            xs = seq_items(m, v)
            if xs is None:
                raise _m().Unsupported('slice assignment from iterator')
            xs = list(xs)
            s = norm_slice(m, k)
            if not is_const(s):
                s = absdom.const_slice(m, s, len(o.items))
            it = m.lmut(o)
            it[s] = xs
            return
        if isinstance(k, Abs):
            k = absdom.const_index(m, k, len(o.items))
        it = m.lmut(o)
        try:
            it[k] = v
        except (IndexError, TypeError) as e:
            m.throw(type(e).__name__, str(e))
        return
    if t is ViewV and o.kind in ('attrs', 'module', 'class', 'names'):
        return m.dset(view_dict(o), strpay(k), v)
    if isinstance(o, Abs):
        return absdom.setitem(m, o, k, v)
    m.throw('TypeError', '%r object does not support item assignment' % m.typeof(o).name)


def delitem(m, o, k):
    u = user_method(m, o, '__delitem__')
    if u is not None:
        return m.call(u, [o, k], None, _m()._discard)
    delitem_plain(m, o, k)


def delitem_plain(m, o, k):
    o = unwrap(o)
    if type(o) is DictV:
        dict_del(m, o, k)
        return
    if type(o) is ListV:
        k = unwrap(k)
        if isinstance(k, Abs):
            k = absdom.const_index(m, k, len(o.items))
        it = m.lmut(o)
        try:
            del it[k]
        except (IndexError, TypeError) as e:
            m.throw(type(e).__name__, str(e))
        return
    if type(o) is ViewV:
        d = view_dict(o)
        kk = strpay(k)
        if kk not in d:
            m.throw('KeyError', k)
        return m.ddel(d, kk)
    raise _m().Unsupported('delitem')


def delattr_(m, o, name):
    if type(o) is Obj:
        a = o.cls.lookup(name)
        if type(a) is PropV:
            if a.fdel is None:
                m.throw('AttributeError', "can't delete " + name)
            return m.call(a.fdel, [o], None, _m()._discard)
        if name not in o.attrs:
            m.throw('AttributeError', name)
        return m.ddel(o.attrs, name)
    d = o.dict if type(o) in (ClassV, ModuleV) else None
    if d is None:
        raise _m().Unsupported('delattr')
    if name not in d:
        m.throw('AttributeError', name)
    m.ddel(d, name)


# ------------------------------------------------------------------ iteration
def get_iter(m, v, cont=None):
    """deliver iter(v)"""
    t = type(v)
    if t is GenV or t is ItV or isinstance(v, AbsIter):
        return m.deliver(v, cont)
    u = user_method(m, v, '__iter__')
    if u is not None:
        return m.call(u, [v], None, cont)
    if user_method(m, v, '__next__') is not None and type(v) is Obj and v.payload is None:
        return m.deliver(v, cont)
    x = unwrap(v)
    t = type(x)
    if t in (ListV, tuple, str, range, bytes):
        return m.deliver(ItV(x), cont)
    if t in (DictV, SetV, ViewV):
        return m.deliver(ItV(tuple(seq_items(m, x)), 'snap'), cont)
    if isinstance(x, Abs):
        return m.deliver(absdom.iter_(m, x), cont)
    if user_method(m, v, '__getitem__') is not None:
        return m.call(prelude['_getitem_iter'], [v], None, cont)
    if t is HostV:
        try:
            return m.deliver(ItV(tuple(from_host(m, y) for y in x.v), 'snap'), cont)
        except TypeError:
            pass
    m.throw('TypeError', '%r object is not iterable' % m.typeof(v).name)


def iter_next(m, it, got, stop, caller):
    """next(it): got(m, caller, v) or stop(m, caller); may push frames"""
    t = type(it)
    if t is ItV:
        src = it.src
        seq = src.items if type(src) is ListV else src
        if it.idx < 0:
            return stop(m, caller)
        if it.idx < len(seq):
            v = seq[it.idx]
            m.fset(it, 'idx', it.idx + 1)
            return got(m, caller, v)
        m.fset(it, 'idx', -1)
        return stop(m, caller)
    if t is GenV:
        if it.state == 'done':
            return stop(m, caller)
        if it.state == 'run':
            m.throw('ValueError', 'generator already executing')
        fr = it.frame.copy()
        m.fset(it, 'frame', fr)
        m.fset(it, 'state', 'run')
        if it.started:
            fr.stack.append(None)     # result of the yield expression
        else:
            m.fset(it, 'started', True)
        si = builtin_classes['StopIteration']
        fr.cont = got

        def onexc(m, caller, exc, stop=stop):
            if exc.cls.issub(si):
                stop(m, caller)
                return True
            return False
        fr.onexc = onexc
        m.frames.append(fr)
        return
    if isinstance(it, AbsIter):
        v = it.step(m, it)
        if v is STOP:
            return stop(m, caller)
        return got(m, caller, v)
    u = user_method(m, it, '__next__')
    if u is not None:
        si = builtin_classes['StopIteration']

        def onexc(m, caller, exc, stop=stop):
            if exc.cls.issub(si):
                stop(m, caller)
                return True
            return False
        return m.call(u, [it], None, got, onexc)
    if isinstance(it, Abs):
        r = absdom.next_(m, it)
        if r is STOP:
            return stop(m, caller)
        return got(m, caller, r)
    m.throw('TypeError', '%r object is not an iterator' % m.typeof(it).name)


# ------------------------------------------------------------------ classes
def class_attr(m, c, name):
    if name == '__name__':
        return c.name
    if name == '__qualname__':
        return c.qualname
    if name == '__mro__':
        return tuple(c.mro)
    if name == '__bases__':
        return c.bases
    if name == '__base__':
        return c.bases[0] if c.bases else None
    if name == '__dict__':
        return ViewV(c, 'class')
    if name == '__module__':
        return c.module
    if name == '__doc__':
        return None
    if name == '__class__':
        return c.meta or builtin_classes['type']
    if name == 'mro':
        return IntrV('mro', lambda m, a, k: ListV(c.mro), False)
    if name == '__subclasses__':
        raise _m().Unsupported('__subclasses__')
    return MISSING


def func_attr(m, f, name):
    if name == '__name__':
        return f.name
    if name == '__qualname__':
        return f.qualname
    if name == '__doc__':
        c = f.code.co_consts
        return c[0] if c and isinstance(c[0], str) else None
    if name == '__module__':
        return f.module
    if name == '__code__':
        return HostV(f.code)
    if name == '__globals__':
        return ViewV(HostV(f.globals), 'names')
    if name == '__get__':
        return IntrV('__get__', lambda m, a, k: m.bind(f, a[0], a[1] if len(a) > 1 else None) if a[0] is not None else f, False)
    if name == '__dict__':
        return DictV({k: (k, v) for k, v in f.attrs.items()})
    if name == '__wrapped__':
        return MISSING
    return MISSING


def super_attr(m, s, name):
    return MISSING


def payload_attr(m, o, name):
    return MISSING


def object_attr(m, o, name):
    if name == '__doc__':
        return None
    if name == '__module__':
        return o.cls.module
    return MISSING


def builtin_attr(m, o, name):
    t = type(o)
    cls = m.typeof(o)
    if name == '__class__':
        return cls
    if t is PropV:
        if name in ('setter', 'getter', 'deleter'):
            def f(m, a, k, name=name, p=o):
                q = PropV(p.fget, p.fset, p.fdel)
                setattr(q, {'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}[name], a[0])
                return q
            return IntrV(name, f, False)
        if name in ('fget', 'fset', 'fdel'):
            return getattr(o, name)
        if name == '__doc__':
            return None
    a = cls.lookup(name)
    if a is not MISSING:
        return m.bind(a, o, cls)
    if t is HostV:
        if isinstance(o.v, _re.Pattern):
            from . import foreign
            return foreign.pat_attr(m, o, name)
        if hasattr(o.v, name):
            x = getattr(o.v, name)
            if callable(x):
                return HostV(x)
            return from_host(m, x)
        return MISSING
    if t is GenV:
        if name in ('close', 'send', 'throw', '__next__', '__iter__'):
            if name == '__next__':
                return IntrV('next', lambda m, a, k: i_next(m, [o], {}), False)
            if name == '__iter__':
                return IntrV('iter', lambda m, a, k: o, False)
            if name == 'close':
                def close(m, a, k):
                    m.fset(o, 'state', 'done')
                    return None
                return IntrV('close', close, False)
            raise _m().Unsupported('generator.' + name)
    if t is ItV and name == '__next__':
        return IntrV('next', lambda m, a, k: i_next(m, [o], {}), False)
    if t is ItV and name == '__iter__':
        return IntrV('iter', lambda m, a, k: o, False)
    if t in (StaticV, ClassMV) and name == '__func__':
        return o.f
    if t in (int, float, bool) and hasattr(o, name):
        x = getattr(o, name)
        return HostV(x) if callable(x) else from_host(m, x)
    if name == '__doc__':
        return None
    return MISSING


def build_class(m, args, kw):
    fn, name = args[0], args[1]
    bases = [b for b in args[2:]]
    real = []
    for b in bases:
        if type(b) is ClassV:
            if b not in real:
                real.append(b)
        elif isinstance(b, Abs) or type(b) in (OpaqueModuleV, HostV):
            pass
        elif type(b) is IntrV or type(b) is FuncV:
            pass
        else:
            m.throw('TypeError', 'bad base %r' % (b,))
    if not real:
        real = [builtin_classes['object']]
    meta = kw.pop('metaclass', None)
    if type(meta) is not ClassV:
        meta = None
    if meta is None:
        for b in real:
            if b.meta is not None and b.meta is not builtin_classes['type']:
                meta = b.meta
    ns = {'__module__': fn.globals.get('__name__'), '__qualname__': fn.qualname}
    fr = m.mkframe(fn.code, fn.globals, None, ns, None, fn)

    def done(m, caller, cellv, name=name, real=real, ns=ns, meta=meta):
        cell = ns.pop('__classcell__', None)
        if meta is not None:
            mn = meta.lookup('__new__')
            mi = meta.lookup('__init__')
            if type(mn) in (FuncV, StaticV):
                raise _m().Unsupported('metaclass __new__')
        c = make_class(m, name, real, ns, meta)
        if cell is not None:
            m.fset(cell, 'v', c)
        if meta is not None:
            mi = meta.lookup('__init__')
            if type(mi) is FuncV:
                def c2(m, caller, v, c=c):
                    m.deliver(c)
                return m.call(mi, [c, name, tuple(real), DictV()], None, c2)
        m.deliver(c)
    fr.cont = done
    m.frames.append(fr)
    m.visited.add(fn.code)
    m.pushed_cont = True
    return PUSHED


def make_class(m, name, bases, ns, meta=None):
    c = ClassV(strpay(name), bases, ns, meta=meta, module=ns.get('__module__'))
    if '__qualname__' in ns:
        c.qualname = ns['__qualname__']
    nw = ns.get('__new__')
    if '__eq__' in ns and '__hash__' not in ns:
        ns['__hash__'] = None
    isub = MISSING
    for k in c.mro[1:]:
        if '__init_subclass__' in k.dict and not k.builtin:
            raise _m().Unsupported('__init_subclass__')
    return c


def i_type(m, args, kw):
    if len(args) == 1:
        return m.typeof(args[0])
    name, bases, d = args
    ns = {strpay(k): v for k, v in unwrap(d).data.values()} if type(unwrap(d)) is DictV else {}
    if isinstance(strpay(name), Abs):
        nm = strpay(name)
    else:
        nm = strpay(name)
    if '__module__' not in ns:
        ns['__module__'] = m.frames[-1].glob.get('__name__') if m.frames else None
    for b in bases:
        if type(b) is not ClassV:
            m.throw('TypeError', 'type(): bad base')
    meta = None
    for b in bases:
        if b.meta is not None:
            meta = b.meta
    if not bases:
        bases = (builtin_classes['object'],)
    c = ClassV(nm, bases, ns, meta=meta, module=ns['__module__'])
    return c


def builtin_new(m, cls, args, kwargs):
    """object of a user class whose __new__ is builtin"""
    lay = cls.layout
    if lay is None or lay == 'type':
        o = Obj(cls)
        if cls.issub(builtin_classes['BaseException']):
            o.attrs['args'] = tuple(args)
        return o
    if lay == 'dict':
        return Obj(cls, DictV())
    if lay == 'list':
        return Obj(cls, ListV())
    if lay == 'set':
        return Obj(cls, SetV())
    r = construct(m, builtin_classes[lay], args, {})
    if r is PUSHED:
        return PUSHED
    return Obj(cls, unwrap(r))


def construct(m, cls, args, kw, cont=None):
    """call of a builtin class"""
    n = cls.name
    if n == 'type':
        return i_type(m, args, kw)
    if n == 'str':
        return i_str(m, args, kw)
    if n in ('int', 'float'):
        return i_num(m, n, args, kw)
    if n == 'bool':
        if not args:
            return False
        r = m.truth_host(args[0])
        if r is NOTIMPL:
            m.call(prelude['_bool'], [args[0]])
            return PUSHED
        return r
    if n == 'object':
        return Obj(cls)
    if n in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            xs = []
        else:
            xs = seq_items(m, args[0])
            if xs is None:
                if args[0] is None or type(args[0]) in (int, float, bool):
                    m.throw('TypeError', '%r object is not iterable' % m.typeof(args[0]).name)
                m.call(prelude['_to' + n.replace('frozen', '')], [args[0]])
                return PUSHED
        if n == 'list':
            return ListV(xs)
        if n == 'tuple':
            return tuple(xs)
        s = SetV(frozen=n == 'frozenset')
        for x in xs:
            if dict_find(m, _SetD(s), x) is None:
                s.data[hkey(m, x)] = x
        return s
    if n == 'dict':
        d = DictV()
        if args:
            r = dict_update(m, d, args[0])
            if r is PUSHED:
                if kw:
                    raise _m().Unsupported('dict(iter, **kw)')
                return PUSHED
        for k, v in kw.items():
            dict_set(m, d, k, v)
        return d
    if n == 'property':
        return PropV(*(args + [None] * (3 - len(args)))[:3]) if not kw else PropV(kw.get('fget', args[0] if args else None), kw.get('fset', args[1] if len(args) > 1 else None), kw.get('fdel'))
    if n == 'staticmethod':
        return StaticV(args[0])
    if n == 'classmethod':
        return ClassMV(args[0])
    if n == 'super':
        if not args:
            fr = m.frames[-1]
            c = fr.cells['__class__'].v
            s = fr.loc[fr.code.co_varnames[0]]
            args = [c, s]
        o = args[1] if len(args) > 1 else None
        return SuperV(args[0], o, o if type(o) is ClassV else m.typeof(o))
    if n == 'range':
        a = [unwrap(x) for x in args]
        if all(type(x) in (int, bool) for x in a):
            return range(*a)
        for x in a:
            if not isinstance(x, Abs) and type(x) is not int:
                m.throw('TypeError', '%r object cannot be interpreted as an integer' % m.typeof(x).name)
        m.call(prelude['_range'], a)
        return PUSHED
    if n == 'slice':
        return slice(*args)
    if n == 'bytes':
        return host_call(m, bytes, args, kw)
    if cls.issub(builtin_classes['BaseException']):
        o = Obj(cls)
        o.attrs['args'] = tuple(args)
        return o
    if n == 'enumerate' or n in prelude:
        m.call(prelude[n], args, kw)
        return PUSHED
    raise _m().Unsupported('construct ' + n)


def dict_update(m, d, src):
    src = unwrap(src)
    if type(src) is DictV:
        for k, v in src.data.values():
            dict_set(m, d, k, v)
        return d
    if type(src) is ViewV and src.kind not in ('keys', 'values', 'items'):
        for k, v in view_pairs(m, src):
            dict_set(m, d, k, v)
        return d
    xs = seq_items(m, src)
    if xs is None:
        m.call(prelude['_dict_from'], [d, src])
        return PUSHED
    for p in xs:
        q = seq_items(m, p)
        dict_set(m, d, q[0], q[1])
    return d


def i_num(m, n, args, kw):
    f = int if n == 'int' else float
    if not args:
        return f()
    v = args[0]
    u = user_method(m, v, '__int__' if n == 'int' else '__float__')
    if u is not None:
        m.call(u, [v])
        return PUSHED
    v = unwrap(v)
    if isinstance(v, Abs):
        return absdom.to_num(m, n, v, args[1:])
    if not is_const(v):
        m.throw('TypeError', '%s() argument must be a string or a real number, not %r' % (n, m.typeof(v).name))
    a = [v] + [unwrap(x) for x in args[1:]]
    return host_try(m, f, a, {k: to_host(x) for k, x in kw.items()})


# ------------------------------------------------------------------ builtin functions
def _units(m, a, k):
    s = unwrap(a[0])
    if s is None:
        return ListV()
    parts = s.parts if isinstance(s, absdom.SStr) else (s,)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, Abs) and p.tname == 'str':
            out.append(p)
        else:
            m.throw('TypeError', 'string expected')
    return ListV(out)


def i_isinstance(m, args, kw):
    return m.isinst(args[0], args[1])


def i_issubclass(m, args, kw):
    a, b = args
    if type(a) is not ClassV:
        m.throw('TypeError', 'issubclass() arg 1 must be a class')
    if type(b) is tuple:
        return any(a.issub(x) for x in b)
    return a.issub(b)


def i_getattr(m, args, kw):
    o, name = args[0], strpay(args[1])
    if isinstance(name, Abs):
        raise _m().Unsupported('getattr with unknown name')
    if len(args) == 2:
        m.load_attr(o, name)
        return PUSHED
    dflt = args[2]
    ae = builtin_classes['AttributeError']
    depth = len(m.frames)
    fr = m.frames[-1]

    def onexc(m, caller, exc, dflt=dflt):
        if exc.cls.issub(ae):
            m.deliver(dflt)
            return True
        return False
    cont = m.cur_cont
    if cont is not None:
        def onexc(m, caller, exc, dflt=dflt, cont=cont):     # noqa
            if exc.cls.issub(ae):
                m.deliver(dflt, cont)
                return True
            return False
        m.pushed_cont = True
    try:
        m.load_attr(o, name, cont, onexc)
    except _m().PyRaise as e:
        if e.exc.cls.issub(ae):
            m.deliver(dflt, cont)
            m.pushed_cont = True
            return PUSHED
        raise
    return PUSHED


def i_hasattr(m, args, kw):
    o, name = args[0], strpay(args[1])
    ae = builtin_classes['AttributeError']

    def cont(m, caller, v):
        m.deliver(True)

    def onexc(m, caller, exc):
        if exc.cls.issub(ae):
            m.deliver(False)
            return True
        return False
    try:
        m.load_attr(o, name, cont, onexc)
    except _m().PyRaise as e:
        if e.exc.cls.issub(ae):
            return False
        raise
    return PUSHED


def i_setattr(m, args, kw):
    o, name, v = args
    n = len(m.frames)
    m.store_attr(o, strpay(name), v)
    if len(m.frames) > n:
        fr = m.frames[-1]

        def c(m, caller, v):
            m.deliver(None)
        fr.cont = c
        return PUSHED
    return None


def i_delattr(m, args, kw):
    n = len(m.frames)
    delattr_(m, args[0], strpay(args[1]))
    if len(m.frames) > n:
        raise _m().Unsupported('delattr property')
    return None


def i_len(m, args, kw):
    v = args[0]
    u = user_method(m, v, '__len__')
    if u is not None:
        m.call(u, [v])
        return PUSHED
    x = unwrap(v)
    t = type(x)
    if t in (str, tuple, range, bytes):
        return len(x)
    if t is ListV:
        return len(x.items)
    if t in (DictV, SetV):
        return len(x.data)
    if t is ViewV:
        return len(view_items(m, x))
    if isinstance(x, Abs):
        return absdom.len_(m, x)
    if t is HostV:
        return host_try(m, len, [x.v])
    m.throw('TypeError', 'object of type %r has no len()' % m.typeof(v).name)


def i_iter(m, args, kw):
    if len(args) == 2:
        m.call(prelude['_iter2'], args)
        return PUSHED
    get_iter(m, args[0])
    return PUSHED


def i_next(m, args, kw):
    dflt = args[1:]

    def got(m, caller, v):
        m.deliver(v)

    def stop(m, caller):
        if dflt:
            m.deliver(dflt[0])
        else:
            m.unwind(m.exc('StopIteration'))
    iter_next(m, args[0], got, stop, m.frames[-1])
    return PUSHED


def i_vars(m, args, kw):
    if not args:
        fr = m.frames[-1]
        return i_locals(m, args, kw)
    o = args[0]
    if type(o) is Obj:
        return ViewV(o, 'attrs')
    if type(o) in (ModuleV, OpaqueModuleV):
        return ViewV(o, 'module')
    if type(o) is ClassV:
        return ViewV(o, 'class')
    if isinstance(o, Abs):
        return absdom.vars_(m, o)
    m.throw('TypeError', 'vars() argument must have __dict__ attribute')


def i_globals(m, args, kw):
    return ViewV(HostV(m.frames[-1].glob), 'names')


def i_locals(m, args, kw):
    fr = m.frames[-1]
    if fr.names is not None and fr.names is not fr.loc:
        return ViewV(HostV(fr.names), 'names')
    d = DictV()
    for k, v in fr.loc.items():
        d.data[k] = (k, v)
    for k, c in fr.cells.items():
        if c.v is not MISSING:
            d.data[k] = (k, c.v)
    return d


def i_callable(m, args, kw):
    v = args[0]
    t = type(v)
    if t in (FuncV, BoundV, IntrV, ClassV):
        return True
    if t is Obj:
        return v.cls.lookup('__call__') is not MISSING
    if isinstance(v, Abs):
        return m.decide(('callable', v))
    return False


def i_ord(m, args, kw):
    v = unwrap(args[0])
    if isinstance(v, Abs):
        return absdom.ord_(m, v)
    return host_try(m, ord, [v])


def i_chr(m, args, kw):
    v = unwrap(args[0])
    if isinstance(v, Abs):
        return absdom.chr_(m, v)
    return host_try(m, chr, [v])


def i_id(m, args, kw):
    v = args[0]
    return Term('id', (hkey(m, ('id', v)) if isinstance(v, Abs) else _Id(v),), 'int')


def i_hash(m, args, kw):
    v = args[0]
    u = user_method(m, v, '__hash__')
    if u is not None:
        m.call(u, [v])
        return PUSHED
    return Term('hash', (hkey(m, v),), 'int')


def i_print(m, args, kw):
    return None


def _fold(name):
    f = getattr(hb, name)

    def g(m, args, kw):
        a = [unwrap(x) for x in args]
        if any(isinstance(x, Abs) for x in a):
            return absdom.fold(m, name, a, kw)
        return host_call(m, f, a, kw)
    return g


def _pre(name):
    def g(m, args, kw):
        m.call(prelude[name], args, kw)
        return PUSHED
    return g


def i_sorted(m, args, kw):
    if not kw or set(kw) == {'reverse'}:
        try:
            xs = seq_items(m, args[0])
            if xs is not None:
                h = [to_host(x) for x in xs]
                if all(type(x) in HOSTC or type(x) is tuple for x in xs):
                    return from_host(m, host_sorted(m, h, **{k: to_host(v) for k, v in kw.items()}))
        except KeyError:
            pass
    m.call(prelude['sorted'], args, kw)
    return PUSHED


def host_sorted(m, h, **k):
    try:
        return sorted(h, **k)
    except TypeError as e:
        m.throw('TypeError', str(e))


def i_minmax(name):
    f = getattr(hb, name)

    def g(m, args, kw):
        xs = args if len(args) > 1 else seq_items(m, args[0])
        if xs is not None and not kw:
            try:
                return from_host(m, host_try_raw(m, lambda: f([to_host(x) for x in xs])))
            except KeyError:
                pass
        m.call(prelude[name], args, kw)
        return PUSHED
    return g


def i_sum(m, args, kw):
    m.call(prelude['sum'], args, kw)
    return PUSHED


def i_dir(m, args, kw):
    o = args[0]
    names = []
    if type(o) is Obj:
        names += list(o.attrs)
        c = o.cls
    elif type(o) is ClassV:
        c = o
    else:
        names += list(getattr(o, 'dict', {}))
        c = None
    if c:
        for k in c.mro:
            names += list(k.dict)
    return ListV(sorted(set(names)))


def i_open(m, args, kw):
    h = m.hooks.get('open')
    if h:
        return h(m, args, kw)
    return Opq('file')


def i_import(m, args, kw):
    from .machine import _imp
    return _imp(m, [strpay(args[0])], {})


# ------------------------------------------------------------------ methods of builtin types
STR_METHODS = [n for n in dir(str) if not n.startswith('__')] + ['__format__']


def _strm(name):
    f = getattr(str, name)

    def g(m, args, kw):
        a = [unwrap(x) for x in args]
        if type(a[0]) is not str and not isinstance(a[0], Abs):
            m.throw('TypeError', 'descriptor %r for str objects' % name)
        if name == 'join':
            if a[0] == '' and isinstance(a[1], (SStr, Sym)):
                return a[1]
            xs = seq_items(m, a[1])
            if xs is None:
                def c(m, caller, l, sep=a[0]):
                    m.deliver(do_join(m, sep, l.items))
                m.call(prelude['_tolist'], [a[1]], None, c)
                return PUSHED
            return do_join(m, a[0], xs)
        if name == 'format':
            try:
                return host_call_strict(m, f, a, kw)
            except KeyError:
                m.call(prelude['_str_format'], [a[0], tuple(a[1:]), DictV({k: (k, v) for k, v in kw.items()})])
                return PUSHED
        if name in ('startswith', 'endswith') and len(a) > 1 and type(a[1]) is tuple:
            a[1] = tuple(unwrap(x) for x in a[1])
        if any(isinstance(x, Abs) for x in a) or any(isinstance(x, tuple) and any(isinstance(y, Abs) for y in x) for x in a):
            return absdom.str_method(m, name, a, kw)
        if name == 'translate' and type(a[1]) in (DictV,):
            return host_try(m, f, [a[0], {k: to_host(v) for k, v in ((k, v) for k, v in a[1].data.values())}])
        return host_call(m, f, a, kw)
    return g


def host_call_strict(m, f, args, kw):
    return host_try(m, f, [to_host(x) for x in args], {k: to_host(v) for k, v in kw.items()})


def do_join(m, sep, xs):
    out = []
    for i, x in enumerate(xs):
        x = unwrap(x)
        if type(x) is not str and not (isinstance(x, Abs) and x.tname in ('str', None)):
            m.throw('TypeError', 'sequence item %d: expected str instance, %s found' % (i, m.typeof(x).name))
        if i:
            out.append(sep)
        out.append(x)
    return mkstr(out)


def _listm():
    d = {}

    def meth(name):
        def deco(f):
            d[name] = IntrV('list.' + name, f)
            return f
        return deco

    def L(v):
        v = unwrap(v)
        if type(v) is not ListV:
            raise _m().Unsupported('list method on %r' % (v,))
        return v

    @meth('append')
    def _(m, a, k):
        m.lmut(L(a[0])).append(a[1])

    @meth('extend')
    def _(m, a, k):
        xs = seq_items(m, a[1])
        if xs is None:
            m.call(prelude['_lext'], [L(a[0]), a[1]])
            return PUSHED
        xs = list(xs)
        m.lmut(L(a[0])).extend(xs)

    @meth('insert')
    def _(m, a, k):
        l = L(a[0])
        i = unwrap(a[1])
        if isinstance(i, Abs):
            i = absdom.const_index(m, i, len(l.items) + 1)
        if type(i) not in (int, bool):
            m.throw('TypeError', 'insert index')
        m.lmut(l).insert(i, a[2])

    @meth('pop')
    def _(m, a, k):
        l = L(a[0])
        i = unwrap(a[1]) if len(a) > 1 else -1
        if isinstance(i, Abs):
            i = absdom.const_index(m, i, len(l.items))
        if not l.items:
            m.throw('IndexError', 'pop from empty list')
        if not (-len(l.items) <= i < len(l.items)):
            m.throw('IndexError', 'pop index out of range')
        return m.lmut(l).pop(i)

    def find(m, l, v, start=0, stop=None):
        n = len(l.items) if stop is None else min(stop, len(l.items))
        for i in range(start, n):
            x = l.items[i]
            if x is v:
                return i
            r = eq_host(m, x, v)
            if r is NOTIMPL:
                return None
            if r:
                return i
        return -1

    @meth('index')
    def _(m, a, k):
        l = L(a[0])
        i = find(m, l, a[1], *[unwrap(x) for x in a[2:]])
        if i is None:
            m.call(prelude['_lindex'], [l] + list(a[1:]))
            return PUSHED
        if i < 0:
            m.throw('ValueError', 'item is not in list')
        return i

    @meth('remove')
    def _(m, a, k):
        l = L(a[0])
        i = find(m, l, a[1])
        if i is None:
            m.call(prelude['_lremove'], [l, a[1]])
            return PUSHED
        if i < 0:
            m.throw('ValueError', 'list.remove(x): x not in list')
        del m.lmut(l)[i]

    @meth('count')
    def _(m, a, k):
        m.call(prelude['_lcount'], [L(a[0]), a[1]])
        return PUSHED

    @meth('reverse')
    def _(m, a, k):
        m.lmut(L(a[0])).reverse()

    @meth('clear')
    def _(m, a, k):
        m.lmut(L(a[0])).clear()

    @meth('copy')
    def _(m, a, k):
        return ListV(L(a[0]).items)

    @meth('sort')
    def _(m, a, k):
        l = L(a[0])

        def c(m, caller, r, l=l):
            m.lmut(l)[:] = r.items
            m.deliver(None)
        m.call(prelude['sorted'], [ListV(l.items)], k, c)
        m.pushed_cont = m.pushed_cont or False
        return PUSHED

    @meth('__init__')
    def _(m, a, k):
        if len(a) > 1:
            xs = seq_items(m, a[1])
            if xs is None:
                m.call(prelude['_lext'], [L(a[0]), a[1]])
                return PUSHED
            m.lmut(L(a[0]))[:] = list(xs)

    @meth('__getitem__')
    def _(m, a, k):
        return getitem_plain(m, a[0], a[1])

    @meth('__setitem__')
    def _(m, a, k):
        setitem_plain(m, a[0], a[1], a[2])

    @meth('__delitem__')
    def _(m, a, k):
        delitem_plain(m, a[0], a[1])

    @meth('__len__')
    def _(m, a, k):
        return len(L(a[0]).items)

    @meth('__iter__')
    def _(m, a, k):
        return ItV(L(a[0]))

    @meth('__contains__')
    def _(m, a, k):
        contains(m, a[1], L(a[0]))
        return PUSHED

    @meth('__add__')
    def _(m, a, k):
        return ListV(L(a[0]).items + list(seq_items(m, a[1])))
    d['__hash__'] = None
    return d


def _dictm():
    d = {}

    def meth(name):
        def deco(f):
            d[name] = IntrV('dict.' + name, f)
            return f
        return deco

    def D(v):
        v = unwrap(v)
        if type(v) is ViewV and v.kind in ('attrs', 'module', 'class', 'names'):
            return DictV({k: (k, x) for k, x in view_dict(v).items()})
        if type(v) is not DictV:
            raise _m().Unsupported('dict method on %r' % (v,))
        return v

    @meth('get')
    def _(m, a, k):
        e = dict_find(m, D(a[0]), a[1])
        if e is None:
            return a[2] if len(a) > 2 else k.get('default')
        return e[1]

    @meth('setdefault')
    def _(m, a, k):
        e = dict_find(m, D(a[0]), a[1])
        if e is None:
            v = a[2] if len(a) > 2 else None
            dict_set(m, D(a[0]), a[1], v)
            return v
        return e[1]

    @meth('keys')
    def _(m, a, k):
        return ViewV(D(a[0]), 'keys')

    @meth('values')
    def _(m, a, k):
        return ViewV(D(a[0]), 'values')

    @meth('items')
    def _(m, a, k):
        return ViewV(D(a[0]), 'items')

    @meth('update')
    def _(m, a, k):
        r = None
        if len(a) > 1:
            r = dict_update(m, D(a[0]), a[1])
            if r is PUSHED:
                if k:
                    raise _m().Unsupported('update')
                return PUSHED
        for n, v in k.items():
            dict_set(m, D(a[0]), n, v)

    @meth('pop')
    def _(m, a, k):
        dd = D(a[0])
        e = dict_find(m, dd, a[1])
        if e is None:
            if len(a) > 2:
                return a[2]
            m.throw('KeyError', a[1])
        del m.dmut(dd)[hkey(m, e[0])]
        return e[1]

    @meth('popitem')
    def _(m, a, k):
        dd = D(a[0])
        if not dd.data:
            m.throw('KeyError', 'popitem(): dictionary is empty')
        dt = m.dmut(dd)
        kk = list(dt)[-1]
        return dt.pop(kk)

    @meth('copy')
    def _(m, a, k):
        return DictV(dict(D(a[0]).data))

    @meth('clear')
    def _(m, a, k):
        m.dmut(D(a[0])).clear()

    @meth('__init__')
    def _(m, a, k):
        if len(a) > 1:
            r = dict_update(m, D(a[0]), a[1])
            if r is PUSHED:
                return PUSHED
        for n, v in k.items():
            dict_set(m, D(a[0]), n, v)

    @meth('__getitem__')
    def _(m, a, k):
        return getitem_plain(m, a[0], a[1])

    @meth('__setitem__')
    def _(m, a, k):
        setitem_plain(m, a[0], a[1], a[2])

    @meth('__delitem__')
    def _(m, a, k):
        delitem_plain(m, a[0], a[1])

    @meth('__contains__')
    def _(m, a, k):
        return dict_find(m, D(a[0]), a[1]) is not None

    @meth('__len__')
    def _(m, a, k):
        return len(D(a[0]).data)

    @meth('__iter__')
    def _(m, a, k):
        return ItV(tuple(kk for kk, _ in D(a[0]).data.values()), 'snap')

    @meth('__eq__')
    def _(m, a, k):
        return eq_host(m, unwrap(a[0]), unwrap(a[1]))

    def fromkeys(m, a, k):
        dd = DictV()
        for x in seq_items(m, a[1]):
            dict_set(m, dd, x, a[2] if len(a) > 2 else None)
        return dd
    d['fromkeys'] = ClassMV(IntrV('fromkeys', fromkeys, False))
    d['__hash__'] = None
    return d


def _setm():
    d = {}

    def S(v):
        v = unwrap(v)
        if type(v) is ViewV:
            return SetV({hkey(None, x): x for x in view_items(None, v)})
        return v

    def meth(name):
        def deco(f):
            d[name] = IntrV('set.' + name, f)
            return f
        return deco

    @meth('add')
    def _(m, a, k):
        s = S(a[0])
        if dict_find(m, _SetD(s), a[1]) is None:
            m.dmut(s)[hkey(m, a[1])] = a[1]

    @meth('discard')
    def _(m, a, k):
        s = S(a[0])
        e = dict_find(m, _SetD(s), a[1])
        if e is not None:
            del m.dmut(s)[hkey(m, e[0])]

    @meth('remove')
    def _(m, a, k):
        s = S(a[0])
        e = dict_find(m, _SetD(s), a[1])
        if e is None:
            m.throw('KeyError', a[1])
        del m.dmut(s)[hkey(m, e[0])]

    @meth('update')
    def _(m, a, k):
        for q in a[1:]:
            xs = seq_items(m, q)
            if xs is None:
                raise _m().Unsupported('set.update(iter)')
            dt = m.dmut(S(a[0]))
            for x in xs:
                dt[hkey(m, x)] = x

    @meth('pop')
    def _(m, a, k):
        raise _m().Unsupported('set.pop')

    @meth('clear')
    def _(m, a, k):
        m.dmut(S(a[0])).clear()

    @meth('copy')
    def _(m, a, k):
        return SetV(dict(S(a[0]).data), S(a[0]).frozen)

    @meth('__contains__')
    def _(m, a, k):
        return dict_find(m, _SetD(S(a[0])), a[1]) is not None

    @meth('__len__')
    def _(m, a, k):
        return len(S(a[0]).data)

    @meth('__iter__')
    def _(m, a, k):
        return ItV(tuple(S(a[0]).data.values()), 'snap')

    def setop(name, op):
        @meth(name)
        def _(m, a, k):
            x = dict(S(a[0]).data)
            for q in a[1:]:
                y = {hkey(m, z): z for z in seq_items(m, q)}
                if op == '|':
                    x.update(y)
                elif op == '&':
                    x = {kk: v for kk, v in x.items() if kk in y}
                elif op == '-':
                    x = {kk: v for kk, v in x.items() if kk not in y}
                elif op == '<=':
                    return all(kk in y for kk in x)
                elif op == '>=':
                    return all(kk in x for kk in y)
                elif op == '0':
                    return not any(kk in y for kk in x)
            return SetV(x)
    setop('union', '|')
    setop('intersection', '&')
    setop('difference', '-')
    setop('issubset', '<=')
    setop('issuperset', '>=')
    setop('isdisjoint', '0')
    d['__hash__'] = None
    return d


def _tuplem():
    def index(m, a, k):
        m.call(prelude['_lindex'], a)
        return PUSHED

    def count(m, a, k):
        m.call(prelude['_lcount'], a)
        return PUSHED
    return {'index': IntrV('tuple.index', index), 'count': IntrV('tuple.count', count),
            '__iter__': IntrV('tuple.__iter__', lambda m, a, k: ItV(a[0])),
            '__len__': IntrV('tuple.__len__', lambda m, a, k: len(a[0])),
            '__getitem__': IntrV('tuple.__getitem__', lambda m, a, k: getitem_plain(m, a[0], a[1]))}


def _mk_new(lay):
    def new(m, args, kw):
        cls = args[0]
        if lay == 'object':
            o = Obj(cls)
            if cls.layout == 'dict':
                o.payload = DictV()
            elif cls.layout == 'list':
                o.payload = ListV()
            elif cls.layout == 'str':
                o.payload = ''
            return o
        if cls.builtin:
            return construct(m, cls, list(args[1:]), kw)
        if lay in ('dict', 'list'):
            return Obj(cls, DictV() if lay == 'dict' else ListV())
        if lay == 'Exception':
            o = Obj(cls)
            o.attrs['args'] = tuple(args[1:])
            return o
        r = construct(m, builtin_classes[lay], list(args[1:]), kw)
        if r is PUSHED:
            def c(m, caller, v, cls=cls):
                m.deliver(Obj(cls, unwrap(v)))
            fr = m.frames[-1]
            if fr.cont is not None:
                raise _m().Unsupported('new')
            fr.cont = c
            return PUSHED
        return Obj(cls, unwrap(r))
    return StaticV(IntrV(lay + '.__new__', new, False))


def _cmp_method(op):
    def f(m, a, k):
        x, y = unwrap(a[0]), unwrap(a[1])
        if op in ('==', '!='):
            r = eq_host(m, x, y)
            if r is NOTIMPL:
                if type(x) is Obj:
                    r = x is y
                else:
                    raise _m().Unsupported('builtin eq')
            return r if op == '==' else not r
        return compare_plain(m, op, x, y)
    return IntrV(op, f)


def install(m):
    """build the builtin namespace of one machine"""
    builtins.clear()
    builtin_classes.clear()
    prelude.clear()
    obj = ClassV('object', (), {}, True, host=object)
    builtin_classes['object'] = obj
    m.object = obj
    typ = ClassV('type', (obj,), {}, True, host=type)
    builtin_classes['type'] = typ

    def obj_init(mm, a, k):
        return None

    def obj_setattr(mm, a, k):
        o, n, v = a
        mm.dset(o.attrs, strpay(n), v)

    def obj_getattribute(mm, a, k):
        mm.load_attr(a[0], strpay(a[1]), raw=True)
        return PUSHED

    def obj_eq(mm, a, k):
        if unwrap(a[0]) is not a[0]:
            return eq_host(mm, unwrap(a[0]), unwrap(a[1])) is True
        return True if a[0] is a[1] else NOTIMPL

    def obj_str(mm, a, k):
        v = a[0]
        h = unwrap(v)
        if h is not v:
            return str_host(mm, h) if v.cls.layout == 'str' else repr_host(mm, h)
        return '<%s object>' % (v.cls.name if type(v) is Obj else '?')
    obj.dict.update({'__init__': IntrV('object.__init__', obj_init), '__setattr__': IntrV('object.__setattr__', obj_setattr),
                     '__getattribute__': IntrV('object.__getattribute__', obj_getattribute),
                     '__delattr__': IntrV('object.__delattr__', lambda mm, a, k: mm.ddel(a[0].attrs, a[1])),
                     '__eq__': IntrV('object.__eq__', obj_eq), '__ne__': IntrV('object.__ne__', lambda mm, a, k: not (obj_eq(mm, a, k) is True)),
                     '__hash__': IntrV('object.__hash__', lambda mm, a, k: Term('hash', (hkey(mm, unwrap(a[0])),), 'int')),
                     '__str__': IntrV('object.__str__', obj_str), '__repr__': IntrV('object.__repr__', obj_str),
                     '__new__': _mk_new('object'),
                     '__init_subclass__': ClassMV(IntrV('isc', lambda mm, a, k: None, False)),
                     '__reduce_ex__': IntrV('x', lambda mm, a, k: opaque('reduce')),
                     '__dir__': IntrV('dir', i_dir)})
    for n in ('__init__',):
        pass

    def cls(name, bases=None, d=None, host=None):
        c = ClassV(name, bases or (obj,), d or {}, True, host=host)
        builtin_classes[name] = c
        return c
    sd = {n: IntrV('str.' + n, _strm(n)) for n in STR_METHODS}
    cm = {DUNDER[o]: _cmp_method(o) for o in DUNDER}

    def plus(op):
        def f(mm, a, k):
            binop(mm, op, unwrap(a[0]), unwrap(a[1]))
            return PUSHED
        return IntrV(op, f)
    ar = {BIN[o][0]: plus(o) for o in BIN}

    def radd(op):
        def f(mm, a, k):
            binop(mm, op, unwrap(a[1]), unwrap(a[0]))
            return PUSHED
        return IntrV('r' + op, f)
    ar.update({BIN[o][1]: radd(o) for o in BIN})

    def un(op):
        def f(mm, a, k):
            unary(mm, op, unwrap(a[0]))
            return PUSHED
        return IntrV(op, f)
    ar['__neg__'] = un('-')
    ar['__pos__'] = un('+')
    ar['__abs__'] = IntrV('abs', lambda mm, a, k: _fold('abs')(mm, a, k))
    ar['__int__'] = IntrV('int', lambda mm, a, k: i_num(mm, 'int', [unwrap(a[0])], {}))
    ar['__float__'] = IntrV('float', lambda mm, a, k: i_num(mm, 'float', [unwrap(a[0])], {}))
    ar['__bool__'] = IntrV('bool', lambda mm, a, k: mm.truth_host(unwrap(a[0])))
    hsh = {'__hash__': IntrV('hash', lambda mm, a, k: Term('hash', (hkey(mm, unwrap(a[0])),), 'int'))}
    ini = {'__init__': IntrV('init', lambda mm, a, k: None)}
    tostr = {'__str__': IntrV('str', lambda mm, a, k: str_host(mm, unwrap(a[0]))), '__repr__': IntrV('repr', lambda mm, a, k: repr_host(mm, unwrap(a[0])))}
    seqd = {'__len__': IntrV('len', lambda mm, a, k: i_len(mm, [unwrap(a[0])], {})),
            '__getitem__': IntrV('getitem', lambda mm, a, k: getitem_plain(mm, a[0], a[1])),
            '__contains__': IntrV('contains', lambda mm, a, k: (contains(mm, a[1], unwrap(a[0])), PUSHED)[1]),
            '__iter__': IntrV('iter', lambda mm, a, k: (get_iter(mm, unwrap(a[0])), PUSHED)[1])}
    maketrans = {'maketrans': StaticV(IntrV('maketrans', lambda mm, a, k: host_call(mm, str.maketrans, a, k), False))}
    cls('str', None, dict(sd, **dict(cm, **dict(hsh, **dict(ini, **dict(tostr, **dict(seqd, __new__=_mk_new('str'), __add__=ar['__add__'], __mul__=ar['__mul__'], __mod__=ar['__mod__'], **maketrans)))))), str)
    bd = {n: (lambda n: IntrV('bytes.' + n, lambda mm, a, k: host_call(mm, getattr(bytes, n), a, k)))(n) for n in dir(bytes) if not n.startswith('__')}
    cls('bytes', None, dict(bd, **seqd), bytes)
    numd = dict(cm, **dict(ar, **dict(hsh, **dict(ini, **tostr))))
    for n, f in (('int', int), ('float', float)):
        d = dict(numd, __new__=_mk_new(n))
        for q in ('is_integer', 'bit_length', 'conjugate', 'as_integer_ratio', '__round__', '__trunc__', '__floor__', '__ceil__'):
            if hasattr(f, q):
                d[q] = (lambda n, q: IntrV(n + q, lambda mm, a, k: absdom.fold(mm, q, [unwrap(x) for x in a], k) if isinstance(unwrap(a[0]), Abs) else host_call(mm, getattr(f, q), [unwrap(x) for x in a], k)))(n, q)
        cls(n, None, d, f)
    builtin_classes['float'].dict['fromhex'] = StaticV(HostV(float.fromhex))
    cls('bool', (builtin_classes['int'],), {}, bool)
    ld = _listm()
    ld['__new__'] = _mk_new('list')
    ld['__str__'] = tostr['__str__']
    ld['__repr__'] = tostr['__repr__']
    ld['__eq__'] = cm['__eq__']
    ld['__ne__'] = cm['__ne__']
    cls('list', None, ld, list)
    dd = _dictm()
    dd['__new__'] = _mk_new('dict')
    dd['__str__'] = tostr['__str__']
    dd['__repr__'] = tostr['__repr__']
    cls('dict', None, dd, dict)
    cls('dict_view', None, {k: v for k, v in dd.items() if k in ('get', 'items', 'keys', 'values', '__contains__', '__getitem__', '__setitem__', 'copy', '__len__', '__iter__')})
    vu = dict(builtin_classes['dict_view'].dict)

    def view_update(mm, a, k):
        v = a[0]
        d = view_dict(v)
        for q in a[1:]:
            q = unwrap(q)
            ps = view_pairs(mm, q) if type(q) in (ViewV, DictV) and not (type(q) is ViewV and q.kind == 'items') else None
            if type(q) is DictV:
                ps = list(q.data.values())
            if ps is None:
                ps = [tuple(seq_items(mm, p)) for p in seq_items(mm, q)]
            for kk, x in ps:
                mm.dset(d, strpay(kk), x)
        for kk, x in k.items():
            mm.dset(d, kk, x)

    def view_pop(mm, a, k):
        d = view_dict(a[0])
        kk = strpay(a[1])
        if kk not in d:
            if len(a) > 2:
                return a[2]
            mm.throw('KeyError', kk)
        r = d[kk]
        mm.ddel(d, kk)
        return r

    def view_setdefault(mm, a, k):
        d = view_dict(a[0])
        kk = strpay(a[1])
        if kk not in d:
            mm.dset(d, kk, a[2] if len(a) > 2 else None)
        return d[kk]
    builtin_classes['dict_view'].dict.update({'update': IntrV('view.update', view_update), 'pop': IntrV('view.pop', view_pop),
                                              'setdefault': IntrV('view.setdefault', view_setdefault)})
    td = _tuplem()
    td['__new__'] = _mk_new('tuple')
    cls('tuple', None, td, tuple)
    st = _setm()
    st['__new__'] = _mk_new('set')
    cls('set', None, st, set)
    cls('frozenset', None, dict(st), frozenset)
    for n in ('property', 'staticmethod', 'classmethod', 'super', 'range', 'slice', 'NoneType', 'function', 'method', 'module', 'generator',
              'iterator', 'builtin_function_or_method', 'ellipsis', 'code', 'cell', 'complex', 'memoryview', 'bytearray'):
        cls(n)
    builtin_classes['range'].dict.update(seqd)

    # exceptions
    todo = [BaseException]
    done = set()
    while todo:
        e = todo.pop(0)
        if e in done or e.__module__ != 'builtins':
            continue
        done.add(e)
        base = obj if e is BaseException else builtin_classes[e.__bases__[0].__name__]
        c = cls(e.__name__, (base,), {}, e)
        todo.extend(sorted(e.__subclasses__(), key=lambda x: x.__name__))

    def exc_init(mm, a, k):
        mm.dset(a[0].attrs, 'args', tuple(a[1:]))

    def exc_str(mm, a, k):
        aa = a[0].attrs.get('args', ())
        if len(aa) == 1:
            return i_str(mm, [aa[0]], {})
        return '' if not aa else repr_host(mm, aa)
    builtin_classes['BaseException'].dict.update({'__init__': IntrV('exc.__init__', exc_init), '__new__': _mk_new('Exception'),
                                                  'with_traceback': IntrV('wt', lambda mm, a, k: a[0]),
                                                  '__traceback__': None})
    builtin_classes['EnvironmentError'] = builtin_classes['OSError']
    builtin_classes['IOError'] = builtin_classes['OSError']

    builtins.update(builtin_classes)
    for n in ('dict_view', 'function', 'method', 'module', 'generator', 'iterator', 'builtin_function_or_method', 'ellipsis', 'code', 'cell', 'NoneType'):
        builtins.pop(n, None)
    I = {'isinstance': i_isinstance, 'issubclass': i_issubclass, 'getattr': i_getattr, 'hasattr': i_hasattr, 'setattr': i_setattr,
         'delattr': i_delattr, 'len': i_len, 'iter': i_iter, 'next': i_next, 'vars': i_vars, 'globals': i_globals, 'locals': i_locals,
         'callable': i_callable, 'ord': i_ord, 'chr': i_chr, 'id': i_id, 'hash': i_hash, 'print': i_print, 'repr': i_repr,
         'abs': _fold('abs'), 'round': _fold('round'), 'divmod': _fold('divmod'), 'hex': _fold('hex'), 'oct': _fold('oct'), 'bin': _fold('bin'),
         'pow': _fold('pow'), 'ascii': _fold('ascii'), 'format': _fold('format'),
         'sorted': i_sorted, 'min': i_minmax('min'), 'max': i_minmax('max'), 'sum': i_sum, 'dir': i_dir, 'open': i_open,
         '__build_class__': build_class, '__import__': i_import}
    for n, f in I.items():
        builtins[n] = IntrV(n, f, False)
    builtins['NotImplemented'] = NOTIMPL
    builtins['Ellipsis'] = Ellipsis
    builtins['__name__'] = 'builtins'
    builtins['__debug__'] = True
    import os
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude.py')
    with open(path) as fh:
        code = compile(fh.read(), '<prelude>', 'exec')
    g = {'__name__': 'prelude', '_raw_setdata': None}
    g['__am_units__'] = IntrV('units', _units, False)
    fr = m.mkframe(code, g, None, g)
    m.frames = [fr]
    m.run()
    for k, v in g.items():
        if type(v) is FuncV or type(v) is ClassV:
            prelude[k] = v
    for n in ('enumerate', 'zip', 'map', 'filter', 'any', 'all', 'reversed'):
        builtins[n] = prelude[n]
    from . import foreign
    m.foreign = foreign


def foreign_module(m, name):
    from . import foreign
    return foreign.make(m, name)
