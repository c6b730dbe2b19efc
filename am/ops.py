"""abstract semantics of the instructions"""
from .values import *
from .machine import Machine, Unsupported, PyRaise, Fork, _discard
from . import absdom

M = Machine


def op(f):
    setattr(M, f.__name__, staticmethod(f))
    return f


def _nop(m, fr, ins):
    pass


for n in ('NOP', 'RESUME', 'EXTENDED_ARG', 'CACHE', 'PRECALL', 'END_ASYNC_FOR'):
    setattr(M, 'op_' + n, staticmethod(_nop))


@op
def op_SETUP_ANNOTATIONS(m, fr, ins):
    if '__annotations__' not in fr.names:
        m.dset(fr.names, '__annotations__', DictV())


@op
def op_LOAD_CONST(m, fr, ins):
    v = ins.val
    if type(v) is frozenset:
        v = SetV({m.B.hkey(m, x): x for x in sorted(v, key=repr)}, True)
    fr.stack.append(v)


@op
def op_RETURN_CONST(m, fr, ins):
    _ret(m, fr, ins.val)


@op
def op_RETURN_VALUE(m, fr, ins):
    _ret(m, fr, fr.stack[-1])


def _ret(m, fr, v):
    m.frames.pop()
    if fr.gen is not None:
        m.fset(fr.gen, 'state', 'done')
        # StopIteration in the resumer
        e = m.exc('StopIteration', *([] if v is None else [v]))
        e.attrs['value'] = v
        if fr.onexc is not None and fr.onexc(m, m.frames[-1] if m.frames else None, e):
            return
        m.unwind(e)
        return
    m.deliver(v, fr.cont)


@op
def op_LOAD_FAST(m, fr, ins):
    v = fr.loc.get(ins.val, MISSING)
    if v is MISSING:
        m.unwind(m.exc('UnboundLocalError', 'cannot access local variable %r' % ins.val), fr)
        return
    fr.stack.append(v)


@op
def op_LOAD_FAST_CHECK(m, fr, ins):
    if ins.val not in fr.loc:
        m.throw('UnboundLocalError', 'cannot access local variable %r' % ins.val)
    fr.stack.append(fr.loc[ins.val])


@op
def op_LOAD_FAST_AND_CLEAR(m, fr, ins):
    fr.stack.append(fr.loc.pop(ins.val, NULL))


@op
def op_STORE_FAST(m, fr, ins):
    v = fr.stack.pop()
    if v is NULL:
        fr.loc.pop(ins.val, None)
    else:
        fr.loc[ins.val] = v


@op
def op_DELETE_FAST(m, fr, ins):
    if ins.val not in fr.loc:
        m.throw('UnboundLocalError', ins.val)
    del fr.loc[ins.val]


@op
def op_LOAD_NAME(m, fr, ins):
    n = ins.val
    if n in fr.names:
        v = fr.names[n]
    elif n in fr.glob:
        v = fr.glob[n]
    elif n in m.B.builtins:
        v = m.B.builtins[n]
    else:
        m.unwind(m.exc('NameError', 'name %r is not defined' % n), fr)
        return
    fr.stack.append(v)


@op
def op_LOAD_GLOBAL(m, fr, ins):
    n = ins.val
    if ins.arg & 1:
        fr.stack.append(NULL)
    if n in fr.glob:
        v = fr.glob[n]
    elif n in m.B.builtins:
        v = m.B.builtins[n]
    else:
        m.unwind(m.exc('NameError', 'name %r is not defined' % n), fr)
        return
    fr.stack.append(v)


@op
def op_STORE_NAME(m, fr, ins):
    m.dset(fr.names, ins.val, fr.stack.pop())


@op
def op_DELETE_NAME(m, fr, ins):
    if ins.val not in fr.names:
        m.throw('NameError', ins.val)
    m.ddel(fr.names, ins.val)


@op
def op_STORE_GLOBAL(m, fr, ins):
    m.dset(fr.glob, ins.val, fr.stack.pop())


@op
def op_DELETE_GLOBAL(m, fr, ins):
    m.ddel(fr.glob, ins.val)


@op
def op_MAKE_CELL(m, fr, ins):
    fr.cells[ins.val] = Cell(fr.loc.get(ins.val, MISSING))


@op
def op_COPY_FREE_VARS(m, fr, ins):
    f = fr.func
    for n, c in zip(fr.code.co_freevars, f.closure):
        fr.cells[n] = c


@op
def op_LOAD_CLOSURE(m, fr, ins):
    fr.stack.append(fr.cells[ins.val])


@op
def op_LOAD_DEREF(m, fr, ins):
    v = fr.cells[ins.val].v
    if v is MISSING:
        m.unwind(m.exc('NameError', 'free variable %r' % ins.val), fr)
        return
    fr.stack.append(v)


@op
def op_STORE_DEREF(m, fr, ins):
    m.fset(fr.cells[ins.val], 'v', fr.stack.pop())


@op
def op_DELETE_DEREF(m, fr, ins):
    m.fset(fr.cells[ins.val], 'v', MISSING)


@op
def op_LOAD_LOCALS(m, fr, ins):
    fr.stack.append(HostV(fr.names))


@op
def op_LOAD_FROM_DICT_OR_DEREF(m, fr, ins):
    d = fr.stack.pop().v
    if ins.val in d:
        fr.stack.append(d[ins.val])
    else:
        fr.stack.append(fr.cells[ins.val].v)


@op
def op_LOAD_FROM_DICT_OR_GLOBALS(m, fr, ins):
    d = fr.stack.pop().v
    n = ins.val
    for s in (d, fr.glob, m.B.builtins):
        if n in s:
            fr.stack.append(s[n])
            return
    m.throw('NameError', n)


@op
def op_LOAD_BUILD_CLASS(m, fr, ins):
    fr.stack.append(m.B.builtins['__build_class__'])


@op
def op_LOAD_ASSERTION_ERROR(m, fr, ins):
    fr.stack.append(m.B.builtin_classes['AssertionError'])


@op
def op_POP_TOP(m, fr, ins):
    fr.stack.pop()


@op
def op_PUSH_NULL(m, fr, ins):
    fr.stack.append(NULL)


@op
def op_COPY(m, fr, ins):
    fr.stack.append(fr.stack[-ins.arg])


@op
def op_SWAP(m, fr, ins):
    s = fr.stack
    s[-1], s[-ins.arg] = s[-ins.arg], s[-1]


@op
def op_END_FOR(m, fr, ins):
    fr.stack.pop()
    fr.stack.pop()


@op
def op_JUMP_FORWARD(m, fr, ins):
    fr.pc = ins.tgt


@op
def op_JUMP_BACKWARD(m, fr, ins):
    fr.pc = ins.tgt


op_JUMP_BACKWARD_NO_INTERRUPT = staticmethod(op_JUMP_BACKWARD)
M.op_JUMP_BACKWARD_NO_INTERRUPT = op_JUMP_BACKWARD_NO_INTERRUPT


def _cjump(when):
    def h(m, fr, ins):
        v = fr.stack.pop()
        r = m.truth_host(v)
        if r is NOTIMPL:
            def c(m, caller, r, t=ins.tgt):
                if r == when:
                    caller.pc = t
            m.call_truth(v, c)
            return
        if r == when:
            fr.pc = ins.tgt
    return h


M.op_POP_JUMP_IF_FALSE = staticmethod(_cjump(False))
M.op_POP_JUMP_IF_TRUE = staticmethod(_cjump(True))


@op
def op_POP_JUMP_IF_NONE(m, fr, ins):
    if fr.stack.pop() is None:
        fr.pc = ins.tgt


@op
def op_POP_JUMP_IF_NOT_NONE(m, fr, ins):
    if fr.stack.pop() is not None:
        fr.pc = ins.tgt


# None-ness of unknowns must fork, so these are not 'safe' for abstract optionals; see absdom.isnone
def _none_jump(when):
    def h(m, fr, ins):
        v = fr.stack[-1]
        if isinstance(v, Abs) and absdom.maybe_none(v):
            r = absdom.isnone(m, v)
        else:
            r = v is None
        fr.stack.pop()
        if r == when:
            fr.pc = ins.tgt
    return h


M.op_POP_JUMP_IF_NONE = staticmethod(_none_jump(True))
M.op_POP_JUMP_IF_NOT_NONE = staticmethod(_none_jump(False))


@op
def op_IS_OP(m, fr, ins):
    b = fr.stack.pop()
    a = fr.stack.pop()
    r = m.B.is_same(m, a, b)
    fr.stack.append(r != bool(ins.arg))


@op
def op_UNARY_NOT(m, fr, ins):
    v = fr.stack.pop()
    r = m.truth_host(v)
    if r is NOTIMPL:
        def c(m, caller, r):
            caller.stack.append(not r)
        return m.call_truth(v, c)
    fr.stack.append(not r)


@op
def op_UNARY_NEGATIVE(m, fr, ins):
    v = fr.stack.pop()
    m.B.unary(m, '-', v)


@op
def op_UNARY_INVERT(m, fr, ins):
    v = fr.stack.pop()
    m.B.unary(m, '~', v)


@op
def op_COMPARE_OP(m, fr, ins):
    b = fr.stack.pop()
    a = fr.stack.pop()
    m.B.compare(m, ins.val, a, b)


@op
def op_CONTAINS_OP(m, fr, ins):
    b = fr.stack.pop()
    a = fr.stack.pop()
    neg = bool(ins.arg)
    m.B.contains(m, a, b, neg)


@op
def op_BINARY_OP(m, fr, ins):
    b = fr.stack.pop()
    a = fr.stack.pop()
    m.B.binop(m, ins.val, a, b)


@op
def op_BINARY_SUBSCR(m, fr, ins):
    k = fr.stack.pop()
    o = fr.stack.pop()
    m.B.getitem(m, o, k)


@op
def op_STORE_SUBSCR(m, fr, ins):
    k = fr.stack.pop()
    o = fr.stack.pop()
    v = fr.stack.pop()
    m.B.setitem(m, o, k, v)


@op
def op_DELETE_SUBSCR(m, fr, ins):
    k = fr.stack.pop()
    o = fr.stack.pop()
    m.B.delitem(m, o, k)


@op
def op_BINARY_SLICE(m, fr, ins):
    e = fr.stack.pop()
    s = fr.stack.pop()
    o = fr.stack.pop()
    m.B.getitem(m, o, slice(s, e, None))


@op
def op_STORE_SLICE(m, fr, ins):
    e = fr.stack.pop()
    s = fr.stack.pop()
    o = fr.stack.pop()
    v = fr.stack.pop()
    m.B.setitem(m, o, slice(s, e, None), v)


@op
def op_BUILD_SLICE(m, fr, ins):
    if ins.arg == 3:
        st = fr.stack.pop()
    else:
        st = None
    e = fr.stack.pop()
    s = fr.stack.pop()
    fr.stack.append(slice(s, e, st))


@op
def op_LOAD_ATTR(m, fr, ins):
    o = fr.stack.pop()
    if ins.arg & 1:
        fr.stack.append(NULL)
    m.load_attr(o, ins.val)


@op
def op_LOAD_SUPER_ATTR(m, fr, ins):
    self_ = fr.stack.pop()
    cls = fr.stack.pop()
    fr.stack.pop()
    if ins.arg & 1:
        fr.stack.append(NULL)
    start = self_ if type(self_) is ClassV else m.typeof(self_)
    m.load_attr(SuperV(cls, self_, start), ins.val)


@op
def op_STORE_ATTR(m, fr, ins):
    o = fr.stack.pop()
    v = fr.stack.pop()
    m.store_attr(o, ins.val, v)


@op
def op_DELETE_ATTR(m, fr, ins):
    o = fr.stack.pop()
    m.B.delattr_(m, o, ins.val)


def _popn(s, n):
    if n == 0:
        return []
    r = s[-n:]
    del s[-n:]
    return r


@op
def op_BUILD_TUPLE(m, fr, ins):
    fr.stack.append(tuple(_popn(fr.stack, ins.arg)))


@op
def op_BUILD_LIST(m, fr, ins):
    fr.stack.append(ListV(_popn(fr.stack, ins.arg)))


@op
def op_BUILD_SET(m, fr, ins):
    s = SetV()
    for x in _popn(fr.stack, ins.arg):
        s.data[m.B.hkey(m, x)] = x
    fr.stack.append(s)


@op
def op_BUILD_MAP(m, fr, ins):
    xs = _popn(fr.stack, 2 * ins.arg)
    d = DictV()
    for i in range(0, len(xs), 2):
        m.B.dict_set(m, d, xs[i], xs[i + 1])
    fr.stack.append(d)


@op
def op_BUILD_CONST_KEY_MAP(m, fr, ins):
    keys = fr.stack.pop()
    vals = _popn(fr.stack, ins.arg)
    d = DictV()
    for k, v in zip(keys, vals):
        m.B.dict_set(m, d, k, v)
    fr.stack.append(d)


@op
def op_BUILD_STRING(m, fr, ins):
    fr.stack.append(mkstr([m.B.strpay(x) for x in _popn(fr.stack, ins.arg)]))


@op
def op_FORMAT_VALUE(m, fr, ins):
    spec = ''
    if ins.arg & 4:
        spec = fr.stack.pop()
    conv = ins.arg & 3
    v = fr.stack.pop()
    m.B.format_value(m, v, conv, spec)


@op
def op_LIST_APPEND(m, fr, ins):
    v = fr.stack.pop()
    m.lmut(fr.stack[-ins.arg]).append(v)


@op
def op_SET_ADD(m, fr, ins):
    v = fr.stack.pop()
    m.dmut(fr.stack[-ins.arg])[m.B.hkey(m, v)] = v


@op
def op_MAP_ADD(m, fr, ins):
    v = fr.stack.pop()
    k = fr.stack.pop()
    m.B.dict_set(m, fr.stack[-ins.arg], k, v)


@op
def op_LIST_EXTEND(m, fr, ins):
    v = fr.stack.pop()
    l = fr.stack[-ins.arg]
    xs = m.B.seq_items(m, v)
    if xs is not None:
        m.lmut(l).extend(xs)
    else:
        m.call(m.B.prelude['_lext'], [l, v], None, _discard)


@op
def op_SET_UPDATE(m, fr, ins):
    v = fr.stack.pop()
    s = fr.stack[-ins.arg]
    xs = m.B.seq_items(m, v)
    if xs is None:
        raise Unsupported('set update')
    d = m.dmut(s)
    for x in xs:
        d[m.B.hkey(m, x)] = x


def _dupd(m, fr, ins):
    v = fr.stack.pop()
    d = fr.stack[-ins.arg]
    v = m.B.unwrap(v)
    if type(v) is DictV:
        m.dmut(d).update(v.data)
    elif type(v) is ViewV:
        for k, x in m.B.view_pairs(m, v):
            m.B.dict_set(m, d, k, x)
    else:
        raise Unsupported('dict update with %r' % (v,))


M.op_DICT_UPDATE = staticmethod(_dupd)
M.op_DICT_MERGE = staticmethod(_dupd)


@op
def op_UNPACK_SEQUENCE(m, fr, ins):
    v = fr.stack.pop()
    n = ins.arg

    def spread(m, caller, xs):
        if isinstance(xs, ListV):
            xs = xs.items
        if len(xs) != n:
            m.throw('ValueError', 'unpack: expected %d values, got %d' % (n, len(xs)))
        caller.stack.extend(reversed(xs))
    xs = m.B.seq_items(m, v)
    if xs is None:
        if v is None or type(v) in (int, float, bool):
            m.throw('TypeError', 'cannot unpack non-iterable')
        if isinstance(v, Abs):
            xs = absdom.unpack(m, v, n)
            return spread(m, fr, xs)
        return m.call(m.B.prelude['_tolist'], [v], None, spread)
    spread(m, fr, list(xs))


@op
def op_UNPACK_EX(m, fr, ins):
    v = fr.stack.pop()
    a = ins.arg & 0xff
    b = ins.arg >> 8

    def spread(m, caller, xs):
        if isinstance(xs, ListV):
            xs = xs.items
        xs = list(xs)
        if len(xs) < a + b:
            m.throw('ValueError', 'not enough values to unpack')
        tail = xs[len(xs) - b:] if b else []
        mid = xs[a:len(xs) - b]
        caller.stack.extend(reversed(xs[:a] + [ListV(mid)] + tail))
    xs = m.B.seq_items(m, v)
    if xs is None:
        return m.call(m.B.prelude['_tolist'], [v], None, spread)
    spread(m, fr, xs)


@op
def op_GET_ITER(m, fr, ins):
    v = fr.stack.pop()
    m.B.get_iter(m, v)


op_GET_YIELD_FROM_ITER = op_GET_ITER
M.op_GET_YIELD_FROM_ITER = staticmethod(op_GET_ITER)


@op
def op_FOR_ITER(m, fr, ins):
    it = fr.stack[-1]
    tgt = ins.tgt

    def got(m, caller, v):
        caller.stack.append(v)

    def stop(m, caller):
        caller.stack.pop()
        caller.pc = tgt + 1
    m.B.iter_next(m, it, got, stop, fr)


@op
def op_KW_NAMES(m, fr, ins):
    fr.kw = ins.val if isinstance(ins.val, tuple) else fr.code.co_consts[ins.arg]


@op
def op_CALL(m, fr, ins):
    n = ins.arg
    s = fr.stack
    args = _popn(s, n)
    b = s.pop()
    a = s.pop()
    if a is NULL:
        f = b
    else:
        f = a
        args.insert(0, b)
    kw = fr.kw
    kwargs = None
    if kw:
        fr.kw = ()
        nk = len(kw)
        kwargs = dict(zip(kw, args[-nk:]))
        args = args[:-nk]
    m.call(f, args, kwargs)


@op
def op_CALL_FUNCTION_EX(m, fr, ins):
    kwargs = None
    if ins.arg & 1:
        d = m.B.unwrap(fr.stack.pop())
        kwargs = {k: v for k, v in ((m.B.strpay(k), v) for k, v in d.data.values())}
    a = fr.stack.pop()
    f = fr.stack.pop()
    fr.stack.pop()
    xs = m.B.seq_items(m, a)
    if xs is None:
        def c(m, caller, l, f=f, kwargs=kwargs):
            m.call(f, list(l.items), kwargs)
        return m.call(m.B.prelude['_tolist'], [a], None, c)
    m.call(f, list(xs), kwargs)


@op
def op_MAKE_FUNCTION(m, fr, ins):
    s = fr.stack
    code = s.pop()
    closure = ()
    kwd = None
    defaults = ()
    ann = None
    if ins.arg & 8:
        closure = s.pop()
    if ins.arg & 4:
        ann = s.pop()
    if ins.arg & 2:
        kwd = {k: v for k, v in s.pop().data.values()}
    if ins.arg & 1:
        defaults = s.pop()
    f = FuncV(code, fr.glob, defaults, kwd, closure)
    s.append(f)


@op
def op_RETURN_GENERATOR(m, fr, ins):
    m.frames.pop()
    g = GenV(fr)
    fr.stack.append(None)     # value popped by the POP_TOP that follows
    cont = fr.cont
    fr.gen = g
    fr.cont = None
    fr.onexc = None
    m.deliver(g, cont)


@op
def op_YIELD_VALUE(m, fr, ins):
    v = fr.stack.pop()
    m.frames.pop()
    m.fset(fr.gen, 'state', 'susp')
    c = fr.cont
    fr.cont = None
    fr.onexc = None
    m.deliver(v, c)


@op
def op_SEND(m, fr, ins):
    # [iter, value] -> yield from
    fr.stack.pop()
    it = fr.stack[-1]
    tgt = ins.tgt

    def got(m, caller, v):
        caller.stack.append(v)

    def stop(m, caller, val=None):
        caller.stack.append(val)
        caller.pc = tgt
    m.B.iter_next(m, it, got, stop, fr)


@op
def op_END_SEND(m, fr, ins):
    v = fr.stack.pop()
    fr.stack.pop()
    fr.stack.append(v)


@op
def op_CLEANUP_THROW(m, fr, ins):
    raise Unsupported('CLEANUP_THROW')


@op
def op_PUSH_EXC_INFO(m, fr, ins):
    e = fr.stack.pop()
    fr.stack.append(m.handling)
    fr.stack.append(e)
    m.handling = e


@op
def op_POP_EXCEPT(m, fr, ins):
    m.handling = fr.stack.pop()


@op
def op_CHECK_EXC_MATCH(m, fr, ins):
    c = fr.stack.pop()
    e = fr.stack[-1]
    if type(c) is not tuple:
        c = (c,)
    r = False
    for k in c:
        if type(k) is ClassV:
            r = r or e.cls.issub(k)
        elif type(k) is tuple:
            r = r or any(e.cls.issub(x) for x in k if type(x) is ClassV)
    fr.stack.append(r)


@op
def op_RERAISE(m, fr, ins):
    e = fr.stack.pop()
    raise PyRaise(e)


@op
def op_RAISE_VARARGS(m, fr, ins):
    if ins.arg == 2:
        fr.stack.pop()
    if ins.arg == 0:
        e = m.handling
        if e is None:
            m.throw('RuntimeError', 'No active exception to reraise')
        raise PyRaise(e)
    e = fr.stack.pop()
    if type(e) is ClassV:
        def c(m, caller, o):
            m.unwind(o, caller)
        return m.call(e, [], None, c)
    if type(e) is not Obj:
        m.throw('TypeError', 'exceptions must derive from BaseException')
    raise PyRaise(e)


@op
def op_BEFORE_WITH(m, fr, ins):
    o = fr.stack.pop()

    def got_exit(m, caller, ex, o=o):
        caller.stack.append(ex)

        def got_enter(m, caller, en):
            m.call(en, [])
        m.load_attr(o, '__enter__', got_enter)
    m.load_attr(o, '__exit__', got_exit)


@op
def op_WITH_EXCEPT_START(m, fr, ins):
    e = fr.stack[-1]
    ex = fr.stack[-4]
    m.call(ex, [e.cls, e, None])


@op
def op_IMPORT_NAME(m, fr, ins):
    name = ins.val
    level = fr.stack[-2]
    fl = fr.stack[-1]
    if level:
        pkg = fr.glob.get('__package__') or ''
        parts = pkg.split('.')
        parts = parts[:len(parts) - (level - 1)]
        name = '.'.join(parts + ([name] if name else []))
    if name not in m.modules:
        if not m.import_frames(name):
            fr.pc -= 1      # retry once the module body has been interpreted
            while fr.ins[fr.pc].op != 'IMPORT_NAME':
                fr.pc -= 1
            return
    if fl:
        sub = fl if '*' not in fl else ()
        mod = m.modules[name]
        for s in sub:
            full = name + '.' + s
            if s not in mod.dict and m.owned(name) and full not in m.modules and m.find_module(full) and mod.file.endswith('__init__.py'):
                if not m.import_frames(full):
                    fr.pc -= 1
                    return
    fr.stack.pop()
    fr.stack.pop()
    if fl or level:
        fr.stack.append(m.modules[name])
    else:
        fr.stack.append(m.modules[name.split('.')[0]])


@op
def op_IMPORT_FROM(m, fr, ins):
    mod = fr.stack[-1]
    n = ins.val
    if n in mod.dict:
        fr.stack.append(mod.dict[n])
    elif mod.name + '.' + n in m.modules:
        fr.stack.append(m.modules[mod.name + '.' + n])
    elif type(mod) is OpaqueModuleV:
        fr.stack.append(m.B.opaque(mod.name + '.' + n))
    else:
        m.throw('ImportError', 'cannot import name %r from %r' % (n, mod.name))


@op
def op_CALL_INTRINSIC_1(m, fr, ins):
    n = ins.val
    if n == 'INTRINSIC_IMPORT_STAR':
        mod = fr.stack.pop()
        al = mod.dict.get('__all__')
        names = [k for k in mod.dict if not k.startswith('_')] if al is None else list(al.items if type(al) is ListV else al)
        for k in names:
            if k in mod.dict:
                m.dset(fr.names, k, mod.dict[k])
        fr.stack.append(None)
    elif n == 'INTRINSIC_LIST_TO_TUPLE':
        fr.stack.append(tuple(fr.stack.pop().items))
    elif n == 'INTRINSIC_STOPITERATION_ERROR':
        e = fr.stack.pop()
        if e.cls.issub(m.B.builtin_classes['StopIteration']):
            e = m.exc('RuntimeError', 'generator raised StopIteration')
        fr.stack.append(e)
    elif n == 'INTRINSIC_UNARY_POSITIVE':
        v = fr.stack.pop()
        m.B.unary(m, '+', v)
    else:
        raise Unsupported(n)


@op
def op_DICT_MERGE_(m, fr, ins):
    raise Unsupported('x')


@op
def op_GET_LEN(m, fr, ins):
    m.call(m.B.builtins['len'], [fr.stack[-1]])
