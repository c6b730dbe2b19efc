"""operations on abstract values"""
from .values import *

_DIG = frozenset('0123456789')


class Opq(Abs):
    """result of something outside the analysed sources"""
    __slots__ = ('name',)
    tname = None

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return '<%s>' % self.name


VOID = ('log.', 'logger', 'status.', 'logging.', 'sys.stdout', 'sys.stderr', 'gc.', 'warnings.')


def _mm():
    from . import machine
    return machine


def un(msg):
    raise _mm().Unsupported(msg)


def fork(opts):
    raise _mm().Fork(opts)


# ------------------------------------------------------------------ generic hooks
def call(m, f, args, kw):
    h = getattr(f, 'am_call', None)
    if h:
        return h(m, args, kw)
    if type(f) is Opq:
        hk = m.hooks.get(f.name)
        if hk:
            return hk(m, args, kw)
        if f.name.startswith(VOID):
            return Opq('log.') if f.name.endswith('getLogger') else None
        return Opq(f.name + '()')
    if f.tname in ('str', 'int', 'float', 'bool'):
        m.throw('TypeError', '%r object is not callable' % f.tname)
    un('call of unknown %r' % (f,))


def getattr_(m, o, name):
    h = getattr(o, 'am_getattr', None)
    if h:
        return h(m, name)
    if type(o) is Opq:
        if o.name in m.opaque_attrs and name in m.opaque_attrs[o.name]:
            return m.opaque_attrs[o.name][name]
        if o.name.startswith('typing.') or name in ('macroMode', 'macroName'):
            return MISSING
        return Opq(o.name + '.' + name)
    if o.tname and o.tname in m.B.builtin_classes:
        c = m.B.builtin_classes[o.tname]
        a = c.lookup(name)
        if a is not MISSING:
            return m.bind(a, o, c)
        if name == '__class__':
            return c
        return MISSING
    if isinstance(o, Sym) and o.tname is None:
        un('attribute %s of unknown %r' % (name, o))
    return MISSING


def setattr_(m, o, name, v):
    h = getattr(o, 'am_setattr', None)
    if h:
        return h(m, name, v)
    if type(o) is Opq:
        return
    un('setattr on unknown')


def setitem(m, o, k, v):
    if type(o) is Opq:
        return
    un('setitem on unknown %r' % (o,))


def truth(m, v):
    if isinstance(v, Lin):
        return compare(m, '!=', v, 0)
    if isinstance(v, SStr):
        if any(isinstance(p, str) and p for p in v.parts):
            return True
        if any(isinstance(p, Ch) for p in v.parts):
            return True
        for p in v.parts:
            if truth(m, p):
                return True
        return False
    if isinstance(v, Ch):
        return True
    if isinstance(v, Sym):
        if 'nonempty' in v.props or 'word' in v.props:
            return True
        if v.tname in ('int', 'float'):
            return compare(m, '!=', v, 0)
    h = getattr(v, 'am_truth', None)
    if h:
        return h(m)
    if isinstance(v, Term) and v.op in TRUTHY:
        return True
    if isinstance(v, Term) and v.tname in ('int', 'float'):
        return compare(m, '!=', v, 0)
    if isinstance(v, AbsIter):
        return True
    return m.decide(('truth', v))


TRUTHY = {'fmt'}


def maybe_none(v):
    return isinstance(v, Sym) and 'optional' in v.props


def isnone(m, v):
    return m.decide(('none', v))


def unpack(m, v, n):
    if type(v) is Opq:
        return [Opq(v.name + '[]')] * n
    if isinstance(v, SStr):
        return chars(m, v)
    h = getattr(v, 'am_unpack', None)
    if h:
        return h(m, n)
    un('unpack of unknown %r' % (v,))


def vars_(m, o):
    un('vars of unknown')


def iter_(m, v):
    h = getattr(v, 'am_iter', None)
    if h:
        return h(m)
    if isinstance(v, AbsIter):
        return v
    if isinstance(v, (SStr, Ch)):
        return ItV(tuple(chars(m, v)), 'snap')
    if type(v) is Opq and v.name in m.opaque_iters:
        return ItV(tuple(m.opaque_iters[v.name]), 'snap')
    if isinstance(v, Lin) or v.tname in ('int', 'float', 'bool'):
        m.throw('TypeError', '%r object is not iterable' % v.tname)
    un('iteration over unknown %r' % (v,))


def next_(m, v):
    un('next of unknown')


def chars(m, v):
    if isinstance(v, Ch):
        return [v]
    out = []
    for p in v.parts:
        if isinstance(p, str):
            out.extend(p)
        elif isinstance(p, Ch):
            out.append(p)
        else:
            un('characters of unknown string %r' % (p,))
    return out


# ------------------------------------------------------------------ characters
def ch_dom(m, c):
    return m.facts.get(('dom', c), (True, frozenset()))


def ch_in(m, c, S):
    """c in S (finite set of characters)"""
    S = frozenset(S)
    neg, D = ch_dom(m, c)
    if neg:
        ins = (False, S - D)
        outs = (True, D | S)
        if not (S - D):
            return False
    else:
        ins = (False, D & S)
        outs = (False, D - S)
        if not ins[1]:
            return False
        if not outs[1]:
            return True
    k = ('dom', c)
    fork([{k: ins}, {k: outs}])


def ch_pred(m, c, name, f):
    neg, D = ch_dom(m, c)
    if not neg:
        yes = frozenset(x for x in D if f(x))
        if not yes:
            return False
        if yes == D:
            return True
        k = ('dom', c)
        fork([{k: (False, yes)}, {k: (False, D - yes)}])
    return m.decide(('pred', name, c))


def ch_map(m, c, name, f):
    neg, D = ch_dom(m, c)
    if not neg and len(D) == 1:
        return f(next(iter(D)))
    if not neg and len(D) <= 40:
        k = ('dom', c)
        fork([{k: (False, frozenset([x]))} for x in sorted(D)])
    return Term(name, (c,), 'str')


# ------------------------------------------------------------------ equality / comparison
def typ(v):
    if isinstance(v, Abs):
        return v.tname
    return {str: 'str', int: 'int', float: 'float', bool: 'bool', type(None): 'none'}.get(type(v), 'other')


def numeric(t):
    return t in ('int', 'float', 'bool')


def eq(m, a, b):
    if isinstance(a, Abs) and isinstance(b, Abs) and a == b:
        return True
    h = getattr(a, 'am_eq', None)
    if h:
        r = h(m, b)
        if r is not NOTIMPL:
            return r
    h = getattr(b, 'am_eq', None)
    if h:
        r = h(m, a)
        if r is not NOTIMPL:
            return r
    if b is None:
        return isnone(m, a) if maybe_none(a) else False if not isinstance(a, Opq) else m.decide(('eqnone', a))
    if a is None:
        return eq(m, b, a)
    ta, tb = typ(a), typ(b)
    if ta and tb and ta != tb and not (numeric(ta) and numeric(tb)):
        return False
    if numeric(ta) and numeric(tb) and not (ta == 'bool' or tb == 'bool'):
        return compare(m, '==', a, b)
    if 'bool' in (ta, tb):
        if typ(a) == 'bool' and typ(b) == 'bool':
            return m.truth_host(a) == m.truth_host(b)
        x, y = (a, b) if isinstance(a, Abs) else (b, a)
        if not isinstance(y, Abs) and y in (0, 1) and x.tname == 'bool':
            return m.truth_host(x) == bool(y)
        return False
    if ta == 'str' or tb == 'str':
        r = str_eq(m, a, b)
        if r is not None:
            return r
    if type(a) in (ListV, tuple, DictV) or type(b) in (ListV, tuple, DictV):
        return False
    if not isinstance(a, Abs) and not is_basic(a) or not isinstance(b, Abs) and not is_basic(b):
        x = a if isinstance(a, Abs) else b
        if x.tname is not None or isinstance(x, Sym):
            return False
    k = ('eq', frozenset([_hk(a), _hk(b)]))
    return m.decide(k)


def is_basic(v):
    return type(v) in (str, int, float, bool, bytes)


def _hk(v):
    return v if isinstance(v, Abs) or is_basic(v) else repr(v)


def distinct(v):
    return isinstance(v, Sym) and ('distinct' in v.props or 'word' in v.props)


def isword(v):
    return isinstance(v, Sym) and 'word' in v.props


def maywordchars(s):
    return s.isalpha()


def str_eq(m, a, b):
    """decided equality of strings or None"""
    if isinstance(a, Ch) and isinstance(b, str) or isinstance(b, Ch) and isinstance(a, str):
        c, s = (a, b) if isinstance(a, Ch) else (b, a)
        if len(s) != 1:
            return False
        return ch_in(m, c, s)
    if isinstance(a, Ch) and isinstance(b, Ch):
        da, db = ch_dom(m, a), ch_dom(m, b)
        if not da[0] and not db[0]:
            if not (da[1] & db[1]):
                return False
            if len(da[1]) == 1 and da[1] == db[1]:
                return True
        elif not da[0] and db[0] and da[1] <= db[1] or not db[0] and da[0] and db[1] <= da[1]:
            return False
        if not da[0] and len(da[1]) == 1:
            return ch_in(m, b, da[1])
        if not db[0] and len(db[1]) == 1:
            return ch_in(m, a, db[1])
        return None
    if distinct(a) and (distinct(b) or isinstance(b, (str, Ch)) or isinstance(b, SStr) and len(b.parts) > 1):
        return False
    if distinct(b) and (isinstance(a, (str, Ch)) or isinstance(a, SStr) and len(a.parts) > 1):
        return False
    pa = list(a.parts) if isinstance(a, SStr) else [a]
    pb = list(b.parts) if isinstance(b, SStr) else [b]
    pa = [p for p in pa if not (isinstance(p, str) and p == '')]
    pb = [p for p in pb if not (isinstance(p, str) and p == '')]
    # strip common prefix / suffix
    for rev in (False, True):
        while pa and pb:
            i = -1 if rev else 0
            x, y = pa[i], pb[i]
            if x == y and type(x) is type(y):
                pa.pop(i)
                pb.pop(i)
                continue
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if rev:
                    if x[-n:] != y[-n:]:
                        return False
                    x, y = x[:-n], y[:-n]
                else:
                    if x[:n] != y[:n]:
                        return False
                    x, y = x[n:], y[n:]
                pa[i] = x
                pb[i] = y
                if not x:
                    pa.pop(i)
                if not y:
                    pb.pop(i)
                continue
            if isinstance(x, Ch) and isinstance(y, str) or isinstance(y, Ch) and isinstance(x, str):
                c, s = (x, y) if isinstance(x, Ch) else (y, x)
                if not ch_in(m, c, s[-1] if rev else s[0]):
                    return False
                s2 = s[:-1] if rev else s[1:]
                if isinstance(x, Ch):
                    pa.pop(i)
                    if s2:
                        pb[i] = s2
                    else:
                        pb.pop(i)
                else:
                    pb.pop(i)
                    if s2:
                        pa[i] = s2
                    else:
                        pa.pop(i)
                continue
            if isinstance(x, Ch) and isinstance(y, Ch):
                r = eq(m, x, y)
                if not r:
                    return False
                pa.pop(i)
                pb.pop(i)
                continue
            if distinct(x) and distinct(y):
                return False
            if isword(x) and isinstance(y, str) and not (y[-1] if rev else y[0]).isalpha():
                return False
            if isword(y) and isinstance(x, str) and not (x[-1] if rev else x[0]).isalpha():
                return False
            break
    if not pa and not pb:
        return True
    if (any(distinct(x) for x in pa) or any(distinct(x) for x in pb)) and all(isinstance(x, str) or distinct(x) for x in pa + pb):
        # unknown words are fresh: they coincide with no other text
        return False
    for p, q in ((pa, pb), (pb, pa)):
        if not p:
            for x in q:
                if isinstance(x, (str, Ch)) or isinstance(x, Sym) and ('nonempty' in x.props or 'word' in x.props):
                    return False
    return None


def tolin(v):
    """(terms dict, const, tname) or None"""
    if isinstance(v, Lin):
        return dict(v.terms), v.const, v.tname
    if isinstance(v, (Sym, Term)) and v.tname in ('int', 'float'):
        return {v: 1}, 0, v.tname
    if type(v) in (int, float, bool):
        return {}, v, 'float' if type(v) is float else 'int'
    return None


def mklin(t, c, tn):
    items = [(s, k) for s, k in t.items() if k != 0]
    if not items:
        return c
    items.sort(key=lambda x: repr(x[0]))
    if len(items) == 1 and c == 0 and items[0][1] == 1 and items[0][0].tname == tn:
        return items[0][0]
    return Lin(items, c, tn)


def lin_binop(op, a, b):
    la, lb = tolin(a), tolin(b)
    if la is None or lb is None:
        return None
    tn = 'float' if 'float' in (la[2], lb[2]) else 'int'
    if op in '+-':
        t = dict(la[0])
        for s, k in lb[0].items():
            t[s] = t.get(s, 0) + (k if op == '+' else -k)
        return mklin(t, la[1] + lb[1] if op == '+' else la[1] - lb[1], tn)
    if op == '*':
        if not la[0]:
            la, lb = lb, la
        if not lb[0]:
            k = lb[1]
            return mklin({s: c * k for s, c in la[0].items()}, la[1] * k, tn)
    if op == '/' and not lb[0] and lb[1] != 0:
        return mklin({s: c / lb[1] for s, c in la[0].items()}, la[1] / lb[1], 'float')
    if op == '//' and not lb[0] and lb[1] == 1 and tn == 'int':
        return a
    return None


def interval(m, terms):
    return m.facts.get(('iv', terms), (None, False, None, False))


def norm_lin(t):
    items = sorted(((s, k) for s, k in t.items() if k != 0), key=lambda x: repr(x[0]))
    sign = 1
    k0 = items[0][1]
    if k0 != 1:
        # scale so that the leading coefficient is one
        items = [(s, k / k0) for s, k in items]
        items = [(s, int(k) if k == int(k) else k) for s, k in items]
    return tuple(items), k0


def compare(m, op, a, b):
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op])):
        h = getattr(x, 'am_compare', None)
        if h:
            r = h(m, o, y)
            if r is not NOTIMPL:
                return r
    la, lb = tolin(a), tolin(b)
    if la is not None and lb is not None:
        t = dict(la[0])
        for s, k in lb[0].items():
            t[s] = t.get(s, 0) - k
        t = {s: k for s, k in t.items() if k != 0}
        c = lb[1] - la[1]
        if not t:
            import operator as o
            return {'<': o.lt, '>': o.gt, '<=': o.le, '>=': o.ge, '==': o.eq, '!=': o.ne}[op](0, c)
        isint = la[2] == 'int' and lb[2] == 'int'
        form, k0 = norm_lin(t)
        c = c / k0 if (isint is False or k0 != 1) else c
        if isint and c == int(c):
            c = int(c)
        if k0 < 0:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op]
        allint = isint and all(isinstance(k, int) for _, k in form)
        return cmp_iv(m, form, op, c, allint)
    if op == '==':
        return eq(m, a, b)
    if op == '!=':
        return not eq(m, a, b)
    ta, tb = typ(a), typ(b)
    if isinstance(a, Ch) and isinstance(b, str) and len(b) == 1 or isinstance(b, Ch) and isinstance(a, str) and len(a) == 1:
        import operator as o
        f = {'<': o.lt, '>': o.gt, '<=': o.le, '>=': o.ge}[op]
        if isinstance(a, Ch):
            return ch_pred(m, a, 'cmp%s%s' % (op, b), lambda x: f(x, b))
        return ch_pred(m, b, 'rcmp%s%s' % (op, a), lambda x: f(a, x))
    if ta and tb and ta != tb and not (numeric(ta) and numeric(tb)):
        m.throw('TypeError', "'%s' not supported" % op)
    # canonical form: a < b
    if a == b:
        return op in ('<=', '>=')
    if op == '<':
        return m.decide(('lt', _hk(a), _hk(b)))
    if op == '>':
        return m.decide(('lt', _hk(b), _hk(a)))
    if op == '>=':
        return not m.decide(('lt', _hk(a), _hk(b)))
    return not m.decide(('lt', _hk(b), _hk(a)))


def cmp_iv(m, form, op, c, isint):
    lo, ls, hi, hs = interval(m, form)
    k = ('iv', form)
    if isint and c != int(c):
        import math
        if op == '==':
            return False
        if op == '!=':
            return True
        if op in ('<', '<='):
            op, c = '<=', math.floor(c)
        else:
            op, c = '>=', math.ceil(c)
    if isint:
        if op == '<':
            op, c = '<=', c - 1
        elif op == '>':
            op, c = '>=', c + 1

    def below():     # f < c certainly
        return hi is not None and (hi < c or (hi == c and hs))

    def above():
        return lo is not None and (lo > c or (lo == c and ls))

    def atmost():
        return hi is not None and hi <= c

    def atleast():
        return lo is not None and lo >= c
    if op in ('==', '!='):
        if below() or above():
            return op == '!='
        if lo is not None and lo == hi == c:
            return op == '=='
        opts = []
        if not atmost_(lo, c, True):
            pass
        opts.append({k: (c, False, c, False)})
        if isint:
            l2 = (lo, ls, c - 1, False)
            g2 = (c + 1, False, hi, hs)
            if lo is None or lo <= c - 1:
                opts.append({k: l2})
            if hi is None or hi >= c + 1:
                opts.append({k: g2})
        else:
            if not (lo is not None and lo >= c):
                opts.append({k: (lo, ls, c, True)})
            if not (hi is not None and hi <= c):
                opts.append({k: (c, True, hi, hs)})
        fork(opts)
    if op == '<=':
        if atmost():
            return True
        if above():
            return False
        fork([{k: (lo, ls, c, False)}, {k: (c + 1 if isint else c, not isint, hi, hs)}])
    if op == '<':
        if below():
            return True
        if atleast():
            return False
        fork([{k: (lo, ls, c, True)}, {k: (c, False, hi, hs)}])
    if op == '>=':
        if atleast():
            return True
        if below():
            return False
        fork([{k: (c, False, hi, hs)}, {k: (lo, ls, c - 1 if isint else c, not isint)}])
    if op == '>':
        if above():
            return True
        if atmost():
            return False
        fork([{k: (c, True, hi, hs)}, {k: (lo, ls, c, False)}])


def atmost_(a, b, c):
    return True


# ------------------------------------------------------------------ operators
def binop(m, op, a, b):
    for x, y, rev in ((a, b, False), (b, a, True)):
        h = getattr(x, 'am_binop', None)
        if h:
            r = h(m, op, y, rev)
            if r is not NOTIMPL:
                return r
    ta, tb = typ(a), typ(b)
    if ta == 'str' or tb == 'str':
        if op == '+':
            if ta == 'str' and tb == 'str' or None in (ta, tb):
                return mkstr([a, b])
            m.throw('TypeError', 'can only concatenate str')
        if op == '*':
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                return mkstr([a] * b) if b > 0 else ''
            return Term('*', (a, b), 'str')
        if op == '%' and ta == 'str':
            return Term('%', (a, b if isinstance(b, Abs) else repr(b)), 'str')
        m.throw('TypeError', 'unsupported operand for str')
    r = lin_binop(op, a, b)
    if r is not None:
        return r
    if numeric(ta) and numeric(tb):
        if op in ('//', '%', '/') and not isinstance(b, Abs) and b == 0:
            m.throw('ZeroDivisionError', 'division by zero')
        if op in ('//', '%', '/') and isinstance(b, Abs):
            if compare(m, '==', b, 0):
                m.throw('ZeroDivisionError', 'division by zero')
        if op == '%' and type(b) is int and b > 0:
            return modterm(m, a, b)
        tn = 'float' if op == '/' or 'float' in (ta, tb) else 'int'
        return Term(op, (a, b), tn)
    if type(a) is Opq or type(b) is Opq:
        return Opq('%s%s%s' % (a, op, b))
    un('binop %r %s %r' % (a, op, b))


def modterm(m, a, b):
    """a % b for constant b > 0: linear forms are reduced modulo b"""
    t = tolin(a)
    if t is not None and t[2] == 'int':
        d = {s: k % b for s, k in t[0].items()}
        c = t[1] % b
        r = mklin(d, c, 'int')
        if not isinstance(r, Abs):
            return r
        q = Term('%', (r, b), 'int')
        k = ('iv', ((q, 1),))
        if k not in m.facts:
            m.facts = dict(m.facts)
            m.facts[k] = (0, False, b - 1, False)
        return q
    return Term('%', (a, b), 'int')


def unary(m, op, a):
    if op == '-':
        r = lin_binop('*', a, -1)
        if r is not None:
            return r
    if op == '+' and numeric(a.tname):
        return a
    if a.tname == 'str':
        m.throw('TypeError', 'bad operand type for unary %s' % op)
    return Term(op, (a,), a.tname)


def to_str(m, v):
    if v.tname == 'str':
        return v
    if isinstance(v, Opq):
        return Term('str', (v,), 'str')
    return Term('str', (v,), 'str')


def to_num(m, n, v, rest):
    t = v.tname
    rest = [m.B.unwrap(x) for x in rest]
    if t == n and not rest:
        return v
    if t == 'int' and n == 'float':
        return Term('float', (v,), 'float')
    if t == 'float' and n == 'int':
        if isinstance(v, Term) and v.op == 'float':
            return v.args[0]
        return Term('trunc', (v,), 'int')
    if t == 'bool':
        return 1 if m.truth_host(v) else 0
    if t == 'str':
        if isinstance(v, Ch):
            neg, D = ch_dom(m, v)
            base = rest[0] if rest else 10
            r = ch_in(m, v, '0123456789') if base == 10 and neg else None
            if r is False:
                m.throw('ValueError', 'invalid literal for int()')
            return Term('int', (ch_or(m, v), base) if base != 10 else (v,), 'int')
        if isinstance(v, Term) and v.op == 'str' and v.args[0].tname == 'int' and n == 'int' and not rest:
            return v.args[0]
        if isinstance(v, Sym) and 'digits' in v.props:
            return Term(n, (v,) + tuple(rest), n)
        if isinstance(v, SStr) and n == 'int' and v.parts and isinstance(v.parts[0], str) and v.parts[0] in '+-' and len(v.parts) == 2:
            r = to_num(m, n, v.parts[1], rest)
            return lin_binop('*', r, -1) if v.parts[0] == '-' else r
        if isinstance(v, Sym) and 'word' in v.props:
            m.throw('ValueError', 'invalid literal')
        if isinstance(v, SStr) and n == 'float' and all(isinstance(p, str) and not p.strip('0123456789.+- ') or isinstance(p, Sym) and 'digits' in p.props for p in v.parts):
            return Term(n, (v,), n)
        if isinstance(v, SStr) and all(isinstance(p, str) and p.isdigit() or isinstance(p, (Sym,)) and 'digits' in p.props or isinstance(p, Ch) and not ch_dom(m, p)[0] and ch_dom(m, p)[1] <= frozenset('0123456789abcdefABCDEF') for p in v.parts):
            return Term(n, (v,) + tuple(rest), n)
        if m.decide(('isnum', n, v) + tuple(rest)):
            return Term(n, (v,) + tuple(rest), n)
        m.throw('ValueError', 'invalid literal for %s()' % n)
    if t is None:
        return Term(n, (v,), n)
    m.throw('TypeError', '%s() argument' % n)


def ch_or(m, c):
    return c


def getitem(m, o, k):
    h = getattr(o, 'am_getitem', None)
    if h:
        return h(m, k)
    if type(o) is Opq:
        return Opq(o.name + '[]')
    if isinstance(o, Ch):
        o = SStr((o,))
    if isinstance(o, Sym) and o.tname == 'str':
        if type(k) is slice and k.step is None and k.start in (None, 0) and k.stop is None:
            return o
        return Term('getitem', (o, _slk(k)), 'str')
    if isinstance(o, SStr):
        if all(isinstance(p, (str, Ch)) for p in o.parts):
            cs = chars(m, o)
            if type(k) is slice:
                if not m.B.is_const(k):
                    k = const_slice(m, k, len(cs))
                return mkstr(cs[k])
            if isinstance(k, Abs):
                k = const_index(m, k, len(cs))
            try:
                return cs[k]
            except IndexError:
                m.throw('IndexError', 'string index out of range')
        r = sstr_slice(m, o, k)
        if r is not None:
            return r
        return Term('getitem', (o, _slk(k)), 'str')
    if isinstance(o, Term) and o.tname == 'str':
        return Term('getitem', (o, _slk(k)), 'str')
    if isinstance(o, Lin) or o.tname in ('int', 'float', 'bool'):
        m.throw('TypeError', '%r object is not subscriptable' % o.tname)
    un('getitem of unknown %r' % (o,))


def _slk(k):
    if type(k) is slice:
        return ('slice', k.start, k.stop, k.step)
    return k


def sstr_slice(m, o, k):
    parts = list(o.parts)
    if type(k) is int:
        if k >= 0 and isinstance(parts[0], str) and k < len(parts[0]):
            return parts[0][k]
        if k < 0 and isinstance(parts[-1], str) and -k <= len(parts[-1]):
            return parts[-1][k]
        if k == 0 and isinstance(parts[0], Ch):
            return parts[0]
        if k == -1 and isinstance(parts[-1], Ch):
            return parts[-1]
        return None
    if type(k) is slice and k.step is None:
        a, b = k.start, k.stop
        a = a or 0
        if type(a) is int and a >= 0 and (b is None or type(b) is int):
            # drop from the front
            def dropfront(ps, n):
                while n and ps:
                    p = ps[0]
                    if isinstance(p, str):
                        q = min(n, len(p))
                        n -= q
                        if q == len(p):
                            ps.pop(0)
                        else:
                            ps[0] = p[q:]
                    elif isinstance(p, Ch):
                        ps.pop(0)
                        n -= 1
                    else:
                        return None
                return ps

            def dropback(ps, n):
                while n and ps:
                    p = ps[-1]
                    if isinstance(p, str):
                        q = min(n, len(p))
                        n -= q
                        if q == len(p):
                            ps.pop()
                        else:
                            ps[-1] = p[:-q]
                    elif isinstance(p, Ch):
                        ps.pop()
                        n -= 1
                    else:
                        return None
                return ps
            if b is not None and b >= 0:
                out = []
                n = b
                for p in parts:
                    if n <= 0:
                        break
                    if isinstance(p, str):
                        out.append(p[:n])
                        n -= min(n, len(p))
                    elif isinstance(p, Ch):
                        out.append(p)
                        n -= 1
                    else:
                        return None
                parts = out
            elif b is not None:
                parts = dropback(parts, -b)
                if parts is None:
                    return None
            if a:
                parts = dropfront(parts, a)
                if parts is None:
                    return None
            return mkstr(parts)
        if type(a) is int and a < 0 and b is None:
            out = []
            n = -a
            for p in reversed(parts):
                if n <= 0:
                    break
                if isinstance(p, str):
                    out.insert(0, p[-n:])
                    n -= min(n, len(p))
                elif isinstance(p, Ch):
                    out.insert(0, p)
                    n -= 1
                else:
                    return None
            return mkstr(out)
    return None


def const_index(m, k, n):
    """enumerate the possible constant indices of a sequence of length n"""
    if tolin(k) is None:
        m.throw('TypeError', 'indices must be integers')
    for i in range(-n, n):
        if compare(m, '==', k, i):
            return i
    m.throw('IndexError', 'index out of range')


def const_slice(m, s, n):
    def f(x, neg):
        if not isinstance(x, Abs):
            return x
        if compare(m, '>=', x, n):
            return n
        if compare(m, '<=', x, -n):
            return -n if n else 0
        for i in range(-n + 1, n):
            if compare(m, '==', x, i):
                return i
        return n
    return slice(f(s.start, False), f(s.stop, False), f(s.step, False))


def len_(m, v):
    h = getattr(v, 'am_len', None)
    if h:
        return h(m)
    if isinstance(v, Ch):
        return 1
    if isinstance(v, SStr):
        n = 0
        for p in v.parts:
            x = len(p) if isinstance(p, str) else len_(m, p)
            n = x if n == 0 and isinstance(x, Abs) else (n + x if not isinstance(n, Abs) and not isinstance(x, Abs) else lin_binop('+', n, x))
        return n
    if v.tname in ('int', 'float', 'bool'):
        m.throw('TypeError', 'object of type %r has no len()' % v.tname)
    t = Term('len', (v,), 'int')
    k = ('iv', ((t, 1),))
    if k not in m.facts:
        m.facts = dict(m.facts)
        m.facts[k] = (1 if isinstance(v, Sym) and ('nonempty' in v.props or 'word' in v.props) else 0, False, None, False)
    return t


def ord_(m, v):
    if isinstance(v, Term) and v.op == 'chr':
        return v.args[0]
    if isinstance(v, Ch):
        neg, D = ch_dom(m, v)
        if not neg and len(D) == 1:
            return ord(next(iter(D)))
        t = Term('ord', (v,), 'int')
        k = ('iv', ((t, 1),))
        if k not in m.facts:
            m.facts = dict(m.facts)
            m.facts[k] = (0, False, 0x10ffff, False)
        return t
    if v.tname == 'str':
        if isinstance(v, (SStr,)):
            m.throw('TypeError', 'ord() expected a character')
        if m.decide(('len1', v)):
            return Term('ord', (v,), 'int')
        m.throw('TypeError', 'ord() expected a character')
    un('ord')


def chr_(m, v):
    if isinstance(v, Term) and v.op == 'ord':
        return v.args[0]
    # range check
    if compare(m, '<', v, 0) or compare(m, '>', v, 0x10ffff):
        m.throw('ValueError', 'chr() arg not in range(0x110000)')
    return Term('chr', (v,), 'str')


def fold(m, name, a, kw):
    v = a[0]
    if name == 'abs':
        if compare(m, '<', v, 0):
            return unary(m, '-', v)
        return v
    if name == 'divmod':
        return (Term('//', tuple(a), 'int'), binop(m, '%', a[0], a[1]))
    if name == 'round':
        if v.tname == 'int':
            return v
        return Term('round', tuple(a), 'int' if len(a) == 1 else 'float')
    return Term(name, tuple(a), 'str' if name in ('hex', 'oct', 'bin', 'ascii', 'format') else 'int')


def host_call(m, f, args, kwargs):
    h = m.host_hooks.get(getattr(f, '__qualname__', getattr(f, '__name__', '')))
    if h:
        return h(m, f, args, kwargs)
    if getattr(f, '__name__', '') == 'decode' and args and isinstance(args[0], Term) and args[0].op == 'encode':
        return args[0].args[0]
    return NOTIMPL


# ------------------------------------------------------------------ strings
_LETTERS = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')


def in_str(m, a, s):
    """unknown string a in constant s"""
    if isinstance(a, Ch):
        return ch_in(m, a, s)
    if isinstance(a, SStr):
        for p in a.parts:
            if isinstance(p, str) and p not in s:
                return False
            if isword(p):
                return False
        if all(isinstance(p, (str, Ch)) for p in a.parts):
            # fixed length substring
            n = len(chars(m, a))
            for i in range(len(s) - n + 1):
                if eq(m, a, s[i:i + n]):
                    return True
            return False
    if isword(a):
        # a run of letters standing for one letter-class unit
        return _LETTERS <= set(s)
    if distinct(a):
        return False
    if isinstance(a, Abs) and a.tname not in ('str', None):
        m.throw('TypeError', "'in <string>' requires string")
    return m.decide(('in', a, s))


def contains(m, a, b):
    h = getattr(b, 'am_contains', None)
    if h:
        return h(m, a)
    if type(b) is Opq:
        return m.decide(('in', _hk(a), b))
    if isinstance(b, Ch):
        if a == '':
            return True
        return eq(m, a, b) if not (isinstance(a, str) and len(a) != 1) else False
    if isinstance(b, SStr) or isinstance(b, Sym) and b.tname == 'str':
        if a == '':
            return True
        parts = b.parts if isinstance(b, SStr) else (b,)
        if isinstance(a, Ch) and all(isinstance(p, (str, Ch)) for p in parts):
            for p in parts:
                if (ch_in(m, a, p) if isinstance(p, str) else eq(m, a, p)):
                    return True
            return False
        if isinstance(a, str):
            for p in parts:
                if isinstance(p, str) and a in p:
                    return True
            if len(a) == 1:
                for p in parts:
                    if isinstance(p, Ch):
                        if ch_in(m, p, a):
                            return True
                rest = [p for p in parts if not isinstance(p, (str, Ch)) and not lacks(p, a)]
                if not rest:
                    return False
                for p in rest:
                    if m.decide(('in', a, p)):
                        return True
                return False
            if all(lacks(p, a[0]) or lacks(p, a[-1]) for p in parts if not isinstance(p, str)) and all(isinstance(p, str) or isword(p) for p in parts):
                if not a.isalpha():
                    # every occurrence would have to include a non-letter of some constant part
                    joined = ''.join(p if isinstance(p, str) else '\ue000' for p in parts)
                    if not any(x.isalpha() for x in a):
                        return a in joined
                    import re
                    pat = re.escape(a)
                    if a in joined:
                        return True
                    k = [c for c in a if not c.isalpha()]
                    if all(c not in joined for c in k):
                        return False
        elif a == b or a in parts:
            return True
        elif isinstance(b, Sym) and distinct(b) and distinct(a):
            return False
        elif all(isinstance(p, str) or distinct(p) for p in parts) and distinct(a):
            return False
        return m.decide(('in', _hk(a), b))
    if isinstance(b, Term) and b.tname == 'str' or isinstance(b, Abs) and b.tname is None:
        return m.decide(('in', _hk(a), b))
    if isinstance(b, AbsIter):
        un('contains on stream')
    m.throw('TypeError', 'argument of type %r is not iterable' % b.tname)


def lacks(p, s):
    """unknown string p certainly does not contain character s"""
    if isinstance(p, str):
        return s not in p
    if isinstance(p, Sym):
        if 'word' in p.props:
            return not s.isalpha()
        if 'digits' in p.props:
            return not s.isdigit()
        for q in p.props:
            if q.startswith('lacks:') and all(c in q[6:] for c in s[:1]) and s[0] in q[6:]:
                return True
    if isinstance(p, Term) and p.op == 'str' and p.tname == 'str' and isinstance(p.args[0], Abs) and p.args[0].tname == 'int':
        return not (s.isdigit() or s == '-')
    if isinstance(p, Term):
        return getattr(p, 'lacks', lambda s: False)(s) if hasattr(p, 'lacks') else False
    return False


WS = ' \t\n\r\x0b\x0c'


def str_method(m, name, a, kw):
    s = a[0]
    h = getattr(s, 'am_str', None)
    if h:
        r = h(m, name, a[1:], kw)
        if r is not NOTIMPL:
            return r
    if isinstance(s, Abs) and s.tname not in ('str', None):
        m.throw('TypeError', 'str method on %s' % s.tname)
    parts = list(s.parts) if isinstance(s, SStr) else [s]
    if isinstance(s, str):
        parts = [s]
    const = all(not isinstance(x, Abs) for x in a[1:])
    if name in ('strip', 'lstrip', 'rstrip') and const:
        cs = a[1] if len(a) > 1 and a[1] is not None else WS
        ps = list(parts)
        if name != 'rstrip':
            while ps:
                p = ps[0]
                if isinstance(p, str):
                    q = p.lstrip(cs)
                    if q:
                        ps[0] = q
                        break
                    ps.pop(0)
                elif isinstance(p, Ch):
                    if ch_in(m, p, cs):
                        ps.pop(0)
                    else:
                        break
                else:
                    break
        if name != 'lstrip':
            while ps:
                p = ps[-1]
                if isinstance(p, str):
                    q = p.rstrip(cs)
                    if q:
                        ps[-1] = q
                        break
                    ps.pop()
                elif isinstance(p, Ch):
                    if ch_in(m, p, cs):
                        ps.pop()
                    else:
                        break
                else:
                    break
        # an unknown end part must be known not to start/end with stripped characters
        ok = True
        for p, side in ((ps[0] if ps else '', 'rstrip'), (ps[-1] if ps else '', 'lstrip')):
            if name == side:
                continue
            if not isinstance(p, (str, Ch)) and not all(lacks(p, c) for c in cs):
                ok = False
        if ok:
            return mkstr(ps)
        return Term(name, (mkstr(ps),) + tuple(a[1:]), 'str')
    if name in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'casefold'):
        f = getattr(str, name)
        if name in ('upper', 'lower', 'swapcase', 'casefold'):
            return mkstr([f(p) if isinstance(p, str) else ch_map(m, p, name, f) if isinstance(p, Ch) else (p if isinstance(p, Sym) and (name in p.props or 'digits' in p.props) else Term(name, (p,), 'str')) for p in parts])
        if len(parts) == 1 and isinstance(s, Ch):
            return ch_map(m, s, name, f)
        return Term(name, (s,), 'str')
    if name in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isnumeric', 'isdecimal', 'isidentifier', 'isprintable', 'isascii'):
        f = getattr(str, name)
        if len(parts) == 1 and isinstance(s, Ch):
            return ch_pred(m, s, name, f)
        r = True
        for p in parts:
            if isinstance(p, str):
                if not f(p):
                    return False
            elif isinstance(p, Ch):
                if not ch_pred(m, p, name, f):
                    return False
            elif isword(p):
                if name not in ('isalpha', 'isalnum', 'isidentifier', 'isprintable'):
                    return False if name in ('isdigit', 'isspace', 'isnumeric', 'isdecimal') else m.decide((name, p))
            elif isinstance(p, Sym) and 'digits' in p.props:
                if name not in ('isdigit', 'isalnum', 'isnumeric', 'isdecimal', 'isprintable', 'isascii'):
                    return False
            else:
                if not m.decide((name, p)):
                    return False
        return r
    if name in ('startswith', 'endswith') and len(a) >= 2:
        x = a[1]
        if isinstance(x, tuple):
            for y in x:
                if str_method(m, name, [s, y] + a[2:], kw):
                    return True
            return False
        if len(a) > 2:
            un('startswith(start)')
        if x == '':
            return True
        if isinstance(s, str):
            s = s
        end = name == 'endswith'
        ps = list(parts)
        xs = list(x.parts) if isinstance(x, SStr) else [x]
        if isinstance(s, str) and not s:
            return False if not isinstance(x, Abs) or (isinstance(x, Sym) and 'nonempty' in x.props or isword(x)) else m.decide((name, s, x))
        while xs:
            if not ps:
                if all(isinstance(y, (str, Ch)) or isword(y) for y in xs):
                    return False
                return m.decide((name, s, x))
            i = -1 if end else 0
            p, q = ps[i], xs[i]
            if type(p) is type(q) and p == q:
                ps.pop(i)
                xs.pop(i)
                continue
            if isinstance(p, str) and isinstance(q, str):
                n = min(len(p), len(q))
                if end:
                    if p[-n:] != q[-n:]:
                        return False
                    p, q = p[:-n], q[:-n]
                else:
                    if p[:n] != q[:n]:
                        return False
                    p, q = p[n:], q[n:]
                if p:
                    ps[i] = p
                else:
                    ps.pop(i)
                if q:
                    xs[i] = q
                else:
                    xs.pop(i)
                continue
            if isinstance(p, Ch) and isinstance(q, str):
                if not ch_in(m, p, q[i]):
                    return False
                ps.pop(i)
                q = q[:-1] if end else q[1:]
                if q:
                    xs[i] = q
                else:
                    xs.pop(i)
                continue
            if isinstance(q, str) and lacks(p, q[i]) and (isword(p) or 'digits' in getattr(p, 'props', ()) or 'nonempty' in getattr(p, 'props', ())):
                return False
            if isinstance(p, str) and isword(q) and not p[i].isalpha():
                return False
            if distinct(p) and distinct(q):
                return False
            return m.decide((name, s, x))
        return True
    if name == 'replace' and const and len(a) == 3 and a[1]:
        out = []
        x, y = a[1], a[2]
        ok = True
        for p in parts:
            if isinstance(p, str):
                out.append(p.replace(x, y))
            elif isinstance(p, Ch):
                if len(x) == 1:
                    out.append(y if ch_in(m, p, x) else p)
                else:
                    ok = False
            elif any(lacks(p, c) for c in x):
                out.append(p)
            else:
                ok = False
        if ok:
            if len(x) > 1 and len(parts) > 1 and not all(isinstance(p, str) or lacks(p, x[0]) or lacks(p, x[-1]) for p in parts):
                ok = False
            if ok:
                return mkstr(out)
        return Term('replace', tuple(a), 'str')
    if name in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition') and const:
        sep = a[1] if len(a) > 1 else kw.get('sep')
        maxs = a[2] if len(a) > 2 else kw.get('maxsplit', -1)
        if name in ('split', 'rsplit') and all(isinstance(p, str) or (lacks(p, sep[0]) if sep else all(lacks(p, c) for c in WS)) for p in parts):
            # private-use placeholders stand for the unknown parts
            tab = {}
            txt = ''
            for p in parts:
                if isinstance(p, str):
                    txt += p
                else:
                    c = chr(0xE000 + len(tab))
                    tab[c] = p
                    txt += c
            r = getattr(txt, name)(sep, maxs)
            return ListV([_unph(x, tab) for x in r])
        if name in ('partition', 'rpartition') and all(isinstance(p, str) or lacks(p, sep[0]) for p in parts):
            tab = {}
            txt = ''
            for p in parts:
                if isinstance(p, str):
                    txt += p
                else:
                    c = chr(0xE000 + len(tab))
                    tab[c] = p
                    txt += c
            r = getattr(txt, name)(sep)
            return tuple(_unph(x, tab) for x in r)
        un('%s of unknown string %r' % (name, s))
    if name in ('find', 'index', 'rfind', 'rindex', 'count') and const and len(a) == 2:
        x = a[1]
        if all(isinstance(p, (str, Ch)) for p in parts):
            cs = chars(m, SStr(parts))
            n = len(x)
            rng = range(len(cs) - n + 1)
            if name.startswith('r'):
                rng = reversed(rng)
            cnt = 0
            for i in rng:
                if all(eq(m, c, d) is True if isinstance(c, Abs) else c == d for c, d in zip(cs[i:i + n], x)):
                    if name == 'count':
                        cnt += 1
                        continue
                    return i
            if name == 'count':
                return cnt
            if name.endswith('index'):
                m.throw('ValueError', 'substring not found')
            return -1
        if name in ('find', 'index') and all(isinstance(p, str) or lacks(p, x[0]) for p in parts) and len(x) == 1:
            n = 0
            for p in parts:
                if isinstance(p, str) and x in p:
                    r = binop(m, '+', n, p.index(x)) if isinstance(n, Abs) else n + p.index(x)
                    return r
                l = len(p) if isinstance(p, str) else len_(m, p)
                n = binop(m, '+', n, l) if isinstance(n, Abs) or isinstance(l, Abs) else n + l
            if name == 'index':
                m.throw('ValueError', 'substring not found')
            return -1
        if name == 'count' and all(isinstance(p, str) or lacks(p, x[0]) for p in parts):
            return sum(p.count(x) for p in parts if isinstance(p, str))
        return Term(name, tuple(a), 'int')
    if len(a) >= 2 and isinstance(a[1], Ch) and name in ('replace', 'count', 'find', 'index', 'rfind', 'rindex') and all(isinstance(p, (str, Ch)) for p in parts):
        c = a[1]
        cst = frozenset(x for p in parts if isinstance(p, str) for x in p)
        neg, D = ch_dom(m, c)
        if neg or len(D) != 1:
            if cst and ch_in(m, c, cst):
                neg, D = ch_dom(m, c)
                if neg or len(D) != 1:
                    fork([{('dom', c): (False, frozenset([x]))} for x in sorted(D)])
        one = None
        neg, D = ch_dom(m, c)
        if not neg and len(D) == 1:
            one = next(iter(D))
        units = chars(m, SStr(parts))
        hit = [(u == one) if isinstance(u, str) else eq(m, u, c) is True for u in units]
        if name == 'replace':
            return mkstr([a[2] if h2 else u for u, h2 in zip(units, hit)])
        if name == 'count':
            return sum(hit)
        if True not in hit:
            if name.endswith('index'):
                m.throw('ValueError', 'substring not found')
            return -1
        return hit.index(True) if not name.startswith('r') else len(hit) - 1 - hit[::-1].index(True)
    if name == 'encode':
        return Term('encode', tuple(a), 'bytes')
    if name in ('removeprefix', 'removesuffix') and const:
        if str_method(m, 'startswith' if name == 'removeprefix' else 'endswith', [s, a[1]], {}):
            n = len(a[1])
            return getitem(m, s, slice(n, None) if name == 'removeprefix' else slice(None, -n))
        return s
    if name == 'translate' and len(a) == 2:
        t = a[1]
        if type(t) is DictV:
            t = {m.B.to_host(k): v for k, v in t.data.values()}
        elif type(t) is HostV:
            t = t.v
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(m.B.unwrap(m.B.host_try(m, p.translate, [{k: m.B.to_host(v) for k, v in t.items()}])))
            elif isinstance(p, Ch):
                hit = False
                for k, v in t.items():
                    c = chr(k) if isinstance(k, int) else k
                    if ch_in(m, p, c):
                        v = m.B.unwrap(v)
                        out.append(chr(v) if isinstance(v, int) else (v or ''))
                        hit = True
                        break
                if not hit:
                    out.append(p)
            elif all(lacks(p, chr(k) if isinstance(k, int) else k) for k in t):
                out.append(p)
            else:
                return Term('translate', (s,), 'str')
        return mkstr(out)
    if name in ('zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'format', 'title'):
        return Term(name, tuple(a), 'str')
    un('str.%s on unknown %r' % (name, s))


def _unph(x, tab):
    out = []
    for c in x:
        out.append(tab.get(c, c))
    return mkstr(out)
