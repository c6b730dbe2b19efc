"""Abstract machine: abstract interpretation of CPython 3.12 bytecode compiled from source text.

The analysed program is never imported or executed: only `compile()` is applied to it and the resulting
instructions are given an abstract semantics here.
"""
import dis
import os
import sys
import types as _types
from .values import *
from . import absdom

if sys.version_info[:2] != (3, 12):
    raise SystemExit('abstract machine is written for CPython 3.12 bytecode')


class Unsupported(Exception):
    """construct outside the abstract semantics: the path is undecided"""


class PyRaise(Exception):
    """the analysed program raises `exc` (an Obj)"""
    def __init__(self, exc):
        self.exc = exc


class Fork(Exception):
    """an undetermined condition: `options` is a list of fact updates"""
    def __init__(self, options, nondet=False):
        self.options = options
        self.nondet = nondet


class Prune(Exception):
    """state already covered"""


class Ins(object):
    __slots__ = ('op', 'fn', 'arg', 'val', 'tgt', 'line', 'safe')


_code_cache = {}
SAFE = set('''LOAD_CONST LOAD_FAST STORE_FAST LOAD_GLOBAL LOAD_NAME STORE_NAME POP_TOP PUSH_NULL COPY SWAP
JUMP_FORWARD JUMP_BACKWARD JUMP_BACKWARD_NO_INTERRUPT NOP RESUME BUILD_TUPLE BUILD_LIST MAKE_FUNCTION EXTENDED_ARG
LOAD_DEREF LOAD_CLOSURE RETURN_CONST IS_OP POP_JUMP_IF_NONE POP_JUMP_IF_NOT_NONE KW_NAMES LOAD_FAST_AND_CLEAR END_FOR'''.split())


def decode(code):
    d = _code_cache.get(code)
    if d is not None:
        return d
    instrs = list(dis.get_instructions(code))
    off2i = {ins.offset: i for i, ins in enumerate(instrs)}
    out = []
    line = code.co_firstlineno
    for ins in instrs:
        x = Ins()
        x.op = ins.opname
        x.fn = getattr(Machine, 'op_' + ins.opname, None)
        x.arg = ins.arg
        x.val = ins.argval
        if ins.opname in ('BINARY_OP',):
            x.val = ins.argrepr
        if ins.opname == 'CALL_INTRINSIC_1' or ins.opname == 'CALL_INTRINSIC_2':
            x.val = ins.argrepr
        x.tgt = None
        if ins.opcode in dis.hasjrel or ins.opcode in dis.hasjabs:
            x.tgt = off2i[ins.argval]
        if ins.positions and ins.positions.lineno:
            line = ins.positions.lineno
        x.line = line
        x.safe = ins.opname in SAFE
        out.append(x)
    table = []
    for e in dis._parse_exception_table(code):
        # [start, end) offsets -> indices
        s = off2i[e.start]
        t = off2i[e.target]
        idx = [i for i, ins in enumerate(instrs) if e.start <= ins.offset < e.end]
        table.append((idx[0], idx[-1], t, e.depth, e.lasti))
    d = (out, table)
    _code_cache[code] = d
    return d


class Frame(object):
    __slots__ = ('code', 'ins', 'table', 'pc', 'stack', 'loc', 'names', 'glob', 'cells', 'cont', 'onexc', 'gen', 'kw', 'func')

    def copy(self):
        f = Frame.__new__(Frame)
        f.code = self.code
        f.ins = self.ins
        f.table = self.table
        f.pc = self.pc
        f.stack = self.stack[:]
        f.loc = self.loc.copy()
        f.names = self.names
        f.glob = self.glob
        f.cells = self.cells
        f.cont = self.cont
        f.onexc = self.onexc
        f.gen = self.gen
        f.kw = self.kw
        f.func = self.func
        return f


class Result(object):
    """one abstract path: kind in return/raise/undecided/prune"""
    def __init__(self, kind, value, facts, trace, out, where=None):
        self.kind, self.value, self.facts, self.trace, self.out, self.where = kind, value, facts, trace, out, where


class Machine(object):

    def __init__(self, repo='/repo', max_steps=2000000):
        self.repo = repo
        self.trail = []
        self.trailing = False
        self.facts = {}
        self.frames = []
        self.handling = None
        self.choices = []
        self.modules = {}
        self.steps = 0
        self.total_steps = 0
        self.max_steps = max_steps
        self.visited = set()
        self.trace = []
        self.ret = None
        self.seq = 0
        self.output = []
        self.sources = {}
        self.forks = 0
        self.seen = {}
        self.merges = 0
        self.hooks = {}
        self.stubs = {}          # module name -> ModuleV
        self.summaries = {}      # qualified function -> host summary
        self.dedup = False
        self.scanned = set()
        self.line_hook = None
        self.opaque_attrs = {}
        self.opaque_iters = {}
        self.host_hooks = {}
        from . import builtins_ as B
        self.B = B
        B.install(self)

    # ------------------------------------------------------------ journaling
    def dset(self, d, k, v):
        if self.trailing:
            self.trail.append((0, d, k, d.get(k, MISSING)))
        d[k] = v

    def ddel(self, d, k):
        if self.trailing:
            self.trail.append((0, d, k, d[k]))
        del d[k]

    def fset(self, o, field, v):
        if self.trailing:
            self.trail.append((1, o, field, getattr(o, field)))
        setattr(o, field, v)

    def lmut(self, l):
        """items list of l, ready to be mutated in place"""
        if self.trailing:
            old = l.items
            self.trail.append((1, l, 'items', old))
            l.items = list(old)
        return l.items

    def dmut(self, d):
        if self.trailing:
            old = d.data
            self.trail.append((1, d, 'data', old))
            d.data = dict(old)
        return d.data

    def undo(self, mark):
        t = self.trail
        while len(t) > mark:
            e = t.pop()
            if e[0] == 0:
                if e[3] is MISSING:
                    e[1].pop(e[2], None)
                else:
                    e[1][e[2]] = e[3]
            else:
                setattr(e[1], e[2], e[3])

    # ------------------------------------------------------------ facts / forks
    def decide(self, key):
        """truth of an undetermined condition on this path"""
        v = self.facts.get(key)
        if v is None:
            raise Fork([{key: True}, {key: False}])
        return v

    def choose(self, name, options):
        """environment nondeterminism"""
        self.seq += 1
        key = ('nd', name, self.seq)
        if key in self.facts:
            return self.facts[key]
        options = list(options)
        if len(options) == 1:
            return options[0]
        raise Fork([{key: o} for o in options], True)

    # ------------------------------------------------------------ exceptions
    def exc(self, name, *args):
        cls = self.B.builtin_classes[name]
        o = Obj(cls)
        o.attrs['args'] = tuple(args)
        return o

    def throw(self, name, *args):
        raise PyRaise(self.exc(name, *args))

    # ------------------------------------------------------------ frames
    def mkframe(self, code, glob, loc=None, names=None, cont=None, func=None):
        f = Frame()
        f.code = code
        f.ins, f.table = decode(code)
        f.pc = 0
        f.stack = []
        f.loc = loc if loc is not None else {}
        f.names = names
        f.glob = glob
        f.cells = {}
        f.cont = cont
        f.onexc = None
        f.gen = None
        f.kw = ()
        f.func = func
        return f

    def push(self, v):
        self.frames[-1].stack.append(v)

    def deliver(self, v, cont=None):
        """hand a result to the current frame"""
        if cont is not None:
            cont(self, self.frames[-1] if self.frames else None, v)
        elif self.frames:
            self.frames[-1].stack.append(v)
        else:
            self.ret = v

    # ------------------------------------------------------------ calls
    def bind_args(self, f, args, kwargs):
        co = f.code
        n = co.co_argcount
        nk = co.co_kwonlyargcount
        names = co.co_varnames
        loc = {}
        na = len(args)
        for i in range(min(n, na)):
            loc[names[i]] = args[i]
        p = n + nk
        if co.co_flags & 4:
            loc[names[p]] = tuple(args[n:])
            p += 1
        elif na > n:
            self.throw('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, n, na))
        extra = None
        if co.co_flags & 8:
            extra = {}
        if kwargs:
            npos = co.co_posonlyargcount
            ok = names[npos:n + nk]
            for k, v in kwargs.items():
                if k in ok:
                    if k in loc:
                        self.throw('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                    loc[k] = v
                elif extra is not None:
                    extra[k] = (k, v)
                else:
                    self.throw('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, k))
        if extra is not None:
            loc[names[p]] = DictV(extra)
        nd = len(f.defaults)
        for i in range(n):
            nm = names[i]
            if nm not in loc:
                j = i - (n - nd)
                if j < 0:
                    self.throw('TypeError', '%s() missing required argument %r' % (f.name, nm))
                loc[nm] = f.defaults[j]
        for i in range(n, n + nk):
            nm = names[i]
            if nm not in loc:
                if nm not in f.kwdefaults:
                    self.throw('TypeError', '%s() missing keyword-only argument %r' % (f.name, nm))
                loc[nm] = f.kwdefaults[nm]
        return loc

    def call(self, f, args, kwargs=None, cont=None, onexc=None):
        """call f; the result is delivered to the current frame (through cont)"""
        while True:
            if type(f) is BoundV:
                args = [f.self] + list(args)
                f = f.func
            else:
                break
        t = type(f)
        if t is FuncV:
            s = self.summaries.get((f.module, f.qualname))
            if s is not None:
                r = s(self, args, kwargs or {})
                if r is not NOTIMPL:
                    if r is not PUSHED:
                        self.deliver(r, cont)
                    return
            loc = self.bind_args(f, args, kwargs)
            fr = self.mkframe(f.code, f.globals, loc, None, cont, f)
            if not (f.code.co_flags & 1):
                fr.names = loc
            fr.onexc = onexc
            if len(self.frames) > 400:
                self.throw('RecursionError', 'maximum recursion depth exceeded')
            self.frames.append(fr)
            self.visited.add(f.code)
            return
        if t is IntrV:
            self.cur_cont = cont
            r = f.fn(self, args, kwargs or {})
            if r is not PUSHED:
                self.deliver(r, cont)
            elif cont is not None and onexc is None and self.pushed_cont is not True:
                # the intrinsic pushed frames itself: compose the continuation
                fr = self.frames[-1]
                old = fr.cont
                if old is None:
                    fr.cont = cont
                else:
                    def both(m, caller, v, old=old, cont=cont):
                        mark = len(caller.stack)
                        old(m, caller, v)
                        if m.frames and m.frames[-1] is caller and len(caller.stack) > mark:
                            cont(m, caller, caller.stack.pop())
                        elif m.frames and m.frames[-1] is not caller:
                            raise Unsupported('nested continuation')
                    fr.cont = both
            return
        if t is ClassV:
            return self.instantiate(f, args, kwargs or {}, cont)
        if t is Obj:
            c = f.cls.lookup('__call__')
            if c is MISSING:
                self.throw('TypeError', '%s object is not callable' % f.cls.name)
            return self.call(c, [f] + list(args), kwargs, cont, onexc)
        if isinstance(f, Abs):
            r = absdom.call(self, f, args, kwargs or {})
            self.deliver(r, cont)
            return
        if t is StaticV or t is ClassMV:
            return self.call(f.f, args, kwargs, cont, onexc)
        if t is HostV and callable(f.v):
            return self.deliver(self.B.host_call(self, f.v, args, kwargs or {}), cont)
        if f is None or type(f) in (str, int, float, bool, tuple, ListV, DictV, SetV):
            self.throw('TypeError', '%s object is not callable' % self.typeof(f).name)
        raise Unsupported('call of %r' % (f,))

    pushed_cont = False

    def instantiate(self, cls, args, kwargs, cont=None):
        meta = cls.meta
        if meta is not None and meta is not self.B.builtin_classes['type']:
            mc = meta.lookup('__call__')
            if type(mc) is FuncV:
                return self.call(mc, [cls] + list(args), kwargs, cont)
        if cls.builtin:
            r = self.B.construct(self, cls, list(args), kwargs, cont)
            if r is not PUSHED:
                self.deliver(r, cont)
            return
        new = cls.lookup('__new__')
        if type(new) is StaticV:
            new = new.f
        if type(new) is FuncV:
            def after_new(m, caller, obj, cls=cls, args=list(args), kwargs=kwargs, cont=cont):
                if type(obj) is Obj and obj.cls.issub(cls):
                    m.run_init(obj, args, kwargs, cont)
                else:
                    m.deliver(obj, cont)
            return self.call(new, [cls] + list(args), kwargs, after_new)
        obj = self.B.builtin_new(self, cls, list(args), kwargs)
        if obj is PUSHED:
            # payload conversion needs interpreted code
            def after_conv(m, caller, v, cls=cls, args=list(args), kwargs=kwargs, cont=cont):
                o = Obj(cls, self.B.unwrap(v))
                m.run_init(o, args, kwargs, cont)
            fr = self.frames[-1]
            if fr.cont is not None:
                raise Unsupported('payload conversion')
            fr.cont = after_conv
            return
        self.run_init(obj, args, kwargs, cont)

    def run_init(self, obj, args, kwargs, cont):
        init = obj.cls.lookup('__init__')
        if type(init) is FuncV:
            def after(m, caller, v, obj=obj, cont=cont):
                m.deliver(obj, cont)
            return self.call(init, [obj] + list(args), kwargs, after)
        if type(init) is IntrV:
            r = init.fn(self, [obj] + list(args), kwargs)
            if r is PUSHED:
                fr = self.frames[-1]
                old = fr.cont

                def after(m, caller, v, obj=obj, cont=cont):
                    m.deliver(obj, cont)
                if old is not None:
                    raise Unsupported('init continuation')
                fr.cont = after
                return
        elif init is MISSING and (args or kwargs) and obj.cls.layout is None and not obj.cls.lookup('__new__') is not MISSING:
            self.throw('TypeError', '%s() takes no arguments' % obj.cls.name)
        self.deliver(obj, cont)

    # ------------------------------------------------------------ types
    def typeof(self, v):
        t = type(v)
        if t is Obj:
            return v.cls
        bc = self.B.builtin_classes
        n = _TN.get(t)
        if n is not None:
            return bc[n]
        if t is ClassV:
            return v.meta or bc['type']
        if t is SetV:
            return bc['frozenset' if v.frozen else 'set']
        if isinstance(v, Abs):
            if v.tname and v.tname in bc:
                return bc[v.tname]
            if isinstance(v, Sym) and v.tname and v.tname in self.abs_classes:
                return self.abs_classes[v.tname]
            return bc['object']
        return bc['object']

    abs_classes = {}

    def isinst(self, v, cls):
        if type(cls) is tuple:
            return any(self.isinst(v, c) for c in cls)
        if type(cls) is not ClassV:
            if isinstance(cls, (Abs, HostV, OpaqueModuleV)):
                return False
            raise Unsupported('isinstance with %r' % (cls,))
        if type(v) is absdom.Opq:
            return cls.name == 'object'
        if isinstance(v, Abs) and v.tname is None:
            return self.decide(('isinst', v, cls.name))
        return self.typeof(v).issub(cls) or (cls.name == 'object')

    # ------------------------------------------------------------ attributes
    def load_attr(self, o, name, cont=None, onexc=None, raw=False):
        """deliver o.name"""
        t = type(o)
        if t is Obj:
            if o.cls.gab and not raw:
                g = o.cls.lookup('__getattribute__')
                if type(g) is FuncV:
                    ga = o.cls.lookup('__getattr__')
                    oe = onexc
                    if type(ga) is FuncV:
                        def oe(m, caller, exc, ga=ga, o=o, name=name, cont=cont, onexc=onexc):
                            if exc.cls.issub(m.B.builtin_classes['AttributeError']):
                                m.call(ga, [o, name], None, cont, onexc)
                                return True
                            return onexc(m, caller, exc) if onexc else False
                    return self.call(g, [o, name], None, cont, oe)
            a = o.cls.lookup(name)
            ta = type(a)
            if ta is PropV:
                if a.fget is None:
                    self.throw('AttributeError', 'unreadable attribute ' + name)
                ga = o.cls.lookup('__getattr__')
                oe = onexc
                if type(ga) is FuncV:
                    def oe(m, caller, exc, ga=ga, o=o, name=name, cont=cont, onexc=onexc):
                        if exc.cls.issub(m.B.builtin_classes['AttributeError']):
                            m.call(ga, [o, name], None, cont, onexc)
                            return True
                        return onexc(m, caller, exc) if onexc else False
                return self.call(a.fget, [o], None, cont, oe)
            if ta is Obj and name not in o.attrs:
                g = a.cls.lookup('__get__')
                if g is not MISSING:
                    return self.call(g, [a, o, o.cls], None, cont, onexc)
            if name in o.attrs:
                return self.deliver(o.attrs[name], cont)
            if a is not MISSING:
                return self.deliver(self.bind(a, o, o.cls), cont)
            if name == '__class__':
                return self.deliver(o.cls, cont)
            if name == '__dict__':
                return self.deliver(self.attrs_dict(o), cont)
            if o.payload is not None:
                r = self.B.payload_attr(self, o, name)
                if r is not MISSING:
                    return self.deliver(r, cont)
            r = self.B.object_attr(self, o, name)
            if r is not MISSING:
                return self.deliver(r, cont)
            ga = o.cls.lookup('__getattr__')
            if type(ga) is FuncV:
                return self.call(ga, [o, name], None, cont, onexc)
            self.throw('AttributeError', '%r object has no attribute %r' % (o.cls.name, name))
        r = self.getattr_static(o, name)
        if r is MISSING:
            if type(o) is ModuleV and o.name.startswith('plasTeX'):
                sub = self.find_module(o.name + '.' + name)
                if sub is not None and (o.name + '.' + name) in self.modules:
                    return self.deliver(self.modules[o.name + '.' + name], cont)
            self.throw('AttributeError', '%s has no attribute %r' % (o if type(o) in (ClassV, ModuleV) else self.typeof(o).name, name))
        self.deliver(r, cont)

    def attrs_dict(self, o):
        """o.__dict__ as a live mapping (snapshot for reading)"""
        return ViewV(o, 'attrs')

    def bind(self, a, inst, cls):
        t = type(a)
        if t is FuncV:
            return BoundV(a, inst)
        if t is IntrV:
            return BoundV(a, inst) if a.bind else a
        if t is ClassMV:
            return BoundV(a.f, cls)
        if t is StaticV:
            return a.f
        return a

    def getattr_static(self, o, name):
        """attribute of a non-Obj value, or MISSING"""
        t = type(o)
        if t is ClassV:
            a = o.lookup(name)
            if a is not MISSING:
                ta = type(a)
                if ta is ClassMV:
                    return BoundV(a.f, o)
                if ta is StaticV:
                    return a.f
                return a
            if o.meta is not None:
                a = o.meta.lookup(name)
                if a is not MISSING:
                    return self.bind(a, o, o.meta)
            return self.B.class_attr(self, o, name)
        if t is ModuleV or t is OpaqueModuleV:
            if name in o.dict:
                return o.dict[name]
            if name == '__dict__':
                return ViewV(o, 'module')
            if name == '__name__':
                return o.name
            if t is OpaqueModuleV and name not in ('macroMode', 'macroName'):
                return self.B.opaque(o.name + '.' + name)
            return MISSING
        if t is SuperV:
            mro = o.start.mro
            i = mro.index(o.cls) + 1
            for k in mro[i:]:
                if name in k.dict:
                    a = k.dict[name]
                    if type(a) is PropV:
                        raise Unsupported('property through super')
                    return self.bind(a, o.obj, o.start) if o.obj is not None else a
            r = self.B.super_attr(self, o, name)
            return r
        if t is FuncV:
            if name in o.attrs:
                return o.attrs[name]
            return self.B.func_attr(self, o, name)
        if t is BoundV:
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self.getattr_static(o.func, name)
        if isinstance(o, Abs):
            return absdom.getattr_(self, o, name)
        return self.B.builtin_attr(self, o, name)

    def store_attr(self, o, name, v, cont=None):
        """setattr; calls property setters"""
        t = type(o)
        if t is Obj:
            a = o.cls.lookup(name)
            if type(a) is PropV:
                if a.fset is None:
                    self.throw('AttributeError', "property %r of %r object has no setter" % (name, o.cls.name))
                return self.call(a.fset, [o, v], None, _discard)
            sa = o.cls.lookup('__setattr__')
            if type(sa) is FuncV:
                return self.call(sa, [o, name, v], None, _discard)
            if name == '__class__':
                return self.fset(o, 'cls', v)
            self.dset(o.attrs, name, v)
            return
        if t is ClassV:
            if o.builtin:
                self.throw('TypeError', "cannot set %r attribute of immutable type %r" % (name, o.name))
            self.dset(o.dict, name, v)
            return
        if t is ModuleV or t is OpaqueModuleV:
            self.dset(o.dict, name, v)
            return
        if t is FuncV:
            self.dset(o.attrs, name, v)
            return
        if isinstance(o, Abs):
            return absdom.setattr_(self, o, name, v)
        if t is BoundV or o is None or t in _TN:
            self.throw('AttributeError', '%s object has no attribute %r' % (self.typeof(o).name, name))
        raise Unsupported('setattr on %r' % (o,))

    # ------------------------------------------------------------ truth
    def truth_host(self, v):
        """truth value, or NOTIMPL when interpreted code is needed"""
        t = type(v)
        if v is None or t is bool or t is int or t is str or t is float or t is tuple or t is bytes or t is range:
            return bool(v)
        if t is ListV:
            return bool(v.items)
        if t is DictV or t is SetV:
            return bool(v.data)
        if t is Obj:
            for nm in ('__bool__', '__len__'):
                a = v.cls.lookup(nm)
                if type(a) is FuncV:
                    return NOTIMPL
                if type(a) is IntrV and v.payload is not None:
                    return self.truth_host(v.payload)
            if v.payload is not None:
                return self.truth_host(v.payload)
            return True
        if isinstance(v, Abs):
            return absdom.truth(self, v)
        if t is HostV:
            return bool(v.v)
        if t is ViewV:
            return bool(self.B.view_items(self, v))
        return True

    def call_truth(self, v, cont):
        for nm in ('__bool__', '__len__'):
            a = v.cls.lookup(nm)
            if type(a) is FuncV:
                def c(m, caller, r, cont=cont):
                    tr = m.truth_host(r)
                    if tr is NOTIMPL:
                        raise Unsupported('truth of truth')
                    cont(m, caller, tr)
                return self.call(a, [v], None, c)
        raise Unsupported('truth')

    # ------------------------------------------------------------ main loop
    def run(self):
        """run until the frame stack is empty; returns ('return', v) or raises PyRaise"""
        frames = self.frames
        while frames:
            fr = frames[-1]
            ins = fr.ins[fr.pc]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported('step limit')
            fn = ins.fn
            if fn is None:
                raise Unsupported('opcode %s' % ins.op)
            if ins.safe:
                fr.pc += 1
                fn(self, fr, ins)
                continue
            mark = len(self.trail)
            saved = fr.stack[:]
            pc = fr.pc
            kw = fr.kw
            nfr = len(frames)
            seq = self.seq
            facts = self.facts
            handling = self.handling
            fr.pc = pc + 1
            self.pushed_cont = False
            try:
                fn(self, fr, ins)
            except PyRaise as e:
                # frames pushed by a failing instruction are discarded
                self.unwind(e.exc, fr)
            except Fork as f:
                del frames[nfr:]
                if not frames or frames[-1] is not fr:
                    # instruction popped its own frame: restore it
                    while frames and frames[-1] is not fr and len(frames) >= nfr:
                        frames.pop()
                    if not frames or frames[-1] is not fr:
                        frames.append(fr)
                self.undo(mark)
                fr.stack = saved
                fr.pc = pc
                fr.kw = kw
                self.seq = seq
                self.facts = facts
                self.handling = handling
                self.do_fork(f)
                frames = self.frames
            if not self.trailing and self.trail:
                self.trail.clear()
            frames = self.frames
        return self.ret

    def do_fork(self, f):
        if not self.trailing:
            raise Unsupported('undetermined condition outside an analysis: %r' % (f.options,))
        self.forks += 1
        if self.dedup and f.nondet:
            k = self.canon()
            if k in self.seen:
                self.merges += 1
                raise Prune()
            self.seen[k] = True
        opts = f.options
        snap = [x.copy() for x in self.frames]
        self.choices.append([snap, len(self.trail), self.facts, opts, 1, self.handling, self.seq, len(self.output), len(self.trace), self.steps])
        self.facts = dict(self.facts)
        self.facts.update(opts[0])
        self.note(opts[0])

    def note(self, upd):
        fr = self.frames[-1]
        self.trace = self.trace + [(fr.code.co_filename, fr.ins[min(fr.pc, len(fr.ins) - 1)].line, upd)]

    def backtrack(self):
        """take the next alternative; False when exhausted"""
        while self.choices:
            c = self.choices[-1]
            snap, mark, facts, opts, nxt, handling, seq, nout, ntr, steps = c
            if nxt >= len(opts):
                self.choices.pop()
                continue
            c[4] += 1
            self.undo(mark)
            last = c[4] >= len(opts)
            self.frames = [x.copy() for x in snap]
            for x in self.frames:
                if x.gen is not None:
                    x.gen.frame = x
            self.facts = dict(facts)
            self.facts.update(opts[nxt])
            self.handling = handling
            self.seq = seq
            del self.output[nout:]
            self.trace = self.trace[:ntr]
            self.total_steps += self.steps - steps
            self.steps = steps
            self.note(opts[nxt])
            if last:
                pass
            return True
        return False

    def unwind(self, exc, origin=None):
        frames = self.frames
        if exc is not self.last_exc:
            self.last_exc = exc
            self.last_where = self.where()
        if origin is not None:
            while frames and frames[-1] is not origin and origin in frames:
                frames.pop()
        while frames:
            fr = frames[-1]
            i = fr.pc - 1
            best = None
            for s, e, t, depth, lasti in fr.table:
                if s <= i <= e:
                    best = (t, depth, lasti)
                    break
            if best is not None:
                t, depth, lasti = best
                del fr.stack[depth:]
                if lasti:
                    fr.stack.append(i)
                fr.stack.append(exc)
                fr.pc = t
                return
            frames.pop()
            if fr.gen is not None:
                self.fset(fr.gen, 'state', 'done')
            if fr.onexc is not None:
                try:
                    if fr.onexc(self, frames[-1] if frames else None, exc):
                        return
                except PyRaise as e2:
                    exc = e2.exc
        raise PyRaise(exc)

    # ------------------------------------------------------------ exploration driver
    def explore(self, func, args=(), kwargs=None, observe=None, max_paths=4000, init_facts=None, dedup=False, max_steps=None,
                time_limit=None):
        """abstractly evaluate func(*args) along every feasible abstract path; list of Result"""
        import time
        t0 = time.time()
        self.trail = []
        self.trailing = True
        self.facts = dict(init_facts or {})
        self.choices = []
        self.trace = []
        self.output = []
        self.seq = 0
        self.handling = None
        self.seen = {}
        self.merges = 0
        self.dedup = dedup
        self.steps = 0
        if max_steps:
            self.max_steps, oldmax = max_steps, self.max_steps
        results = []
        self.frames = []
        base = 0
        started = False
        try:
            while True:
                kind = value = where = None
                try:
                    if not started:
                        started = True
                        self.start(func, list(args), kwargs or {})
                    value = self.run()
                    kind = 'return'
                except PyRaise as e:
                    kind, value = 'raise', e.exc
                    where = self.last_where
                except Prune:
                    kind = 'prune'
                except Fork:
                    kind, value = 'undecided', 'fork outside instruction'
                except Unsupported as e:
                    fr = self.frames[-1] if self.frames else None
                    kind, value = 'undecided', '%s at %s' % (e, self.where())
                except RecursionError:
                    kind, value = 'undecided', 'host recursion'
                if kind != 'prune':
                    out = None
                    if observe is not None and kind in ('return', 'raise'):
                        try:
                            out = observe(self, kind, value)
                        except Fork as f:
                            kind, value = 'undecided', 'observation undetermined'
                    results.append(Result(kind, value, self.facts, list(self.trace), out if observe else list(self.output), where))
                if len(results) > max_paths or (time_limit and time.time() - t0 > time_limit):
                    results.append(Result('undecided', 'path limit', {}, [], None))
                    break
                if not self.backtrack():
                    break
        finally:
            self.undo(0)
            self.trailing = False
            self.trail = []
            self.total_steps += self.steps
            self.frames = []
            self.choices = []
            self.facts = {}
            if max_steps:
                self.max_steps = oldmax
        return results

    last_where = None
    last_exc = None

    def where(self):
        for fr in reversed(self.frames):
            fn = fr.code.co_filename
            if not fn.startswith('<'):
                return '%s:%d (%s)' % (os.path.relpath(fn, self.repo) if fn.startswith(self.repo) else fn, fr.ins[max(0, min(fr.pc, len(fr.ins) - 1) - 1)].line, fr.code.co_qualname)
        return '?'

    def start(self, func, args, kwargs):
        # boot frame so that forks in the first instruction are restartable
        code = _boot
        fr = self.mkframe(code, {'__name__': 'boot'}, {'f': func, 'a': tuple(args), 'k': DictV({k: (k, v) for k, v in kwargs.items()})})
        fr.names = fr.loc
        self.frames = [fr]
        self.ret = None

    def eval(self, func, args=(), kwargs=None):
        """evaluate deterministically outside an exploration (base image construction)"""
        self.start(func, list(args), kwargs or {})
        self.ret = None
        self.steps = 0
        r = self.run()
        self.total_steps += self.steps
        return r

    # ------------------------------------------------------------ canonical states
    def canon(self):
        ids = {}
        out = []
        facts = self.facts
        modified = set()
        for e in self.trail:
            modified.add(id(e[1]))
        base_ids = self.base_ids
        usedsyms = set()

        def walk(v):
            t = type(v)
            if v is None or t in (bool, int, float, str, bytes, range):
                return (t.__name__, v)
            if t is tuple:
                return ('t',) + tuple(walk(x) for x in v)
            if isinstance(v, Abs):
                usedsyms.add(v)
                if isinstance(v, AbsIter):
                    return ('ai', v.name, walk(v.st) if not isinstance(v.st, (str, int, tuple)) else v.st)
                return ('a', v)
            i = id(v)
            if i in ids:
                return ('r', ids[i])
            if i in base_ids and i not in modified and (t is not Obj or id(v.attrs) not in modified) and (t is not ClassV or id(v.dict) not in modified):
                return ('b', i)
            ids[i] = len(ids)
            if t is Obj:
                return ('o', v.cls.name if v.cls.builtin else id(v.cls), tuple((k, walk(x)) for k, x in sorted(v.attrs.items(), key=lambda kv: kv[0])), walk(v.payload))
            if t is ListV:
                return ('l',) + tuple(walk(x) for x in v.items)
            if t is DictV:
                return ('d',) + tuple((walk(k), walk(x)) for k, x in v.data.values())
            if t is SetV:
                return ('s', frozenset(walk(x) for x in v.data.values()))
            if t is GenV:
                return ('g', v.state, wframe(v.frame) if v.state == 'susp' else None)
            if t is ItV:
                return ('it', v.kind, v.idx, walk(v.src))
            if t is BoundV:
                return ('bd', walk(v.func), walk(v.self))
            if t is Cell:
                return ('c', walk(v.v))
            if t is FuncV:
                return ('f', id(v.code), tuple(walk(c) for c in v.closure), walk(tuple(v.defaults)))
            if t is ClassV:
                return ('k', v.name, id(v) if i in base_ids else tuple((k, walk(x)) for k, x in sorted(v.dict.items())))
            if t is HostV:
                return ('h', repr(v.v))
            if t is SuperV:
                return ('su', v.cls.name, walk(v.obj))
            if t is ViewV:
                return ('v', v.kind, walk(v.d))
            return ('x', repr(v))

        def wframe(fr):
            return (id(fr.code), fr.pc, tuple(walk(x) for x in fr.stack), tuple((k, walk(x)) for k, x in sorted(fr.loc.items())),
                    tuple((k, walk(x)) for k, x in sorted(fr.cells.items())))

        fr = tuple(wframe(f) for f in self.frames)
        extra = tuple(walk(x) for x in self.roots())
        # modified base objects are part of the state
        mods = []
        for e in self.trail:
            if id(e[1]) in base_ids and id(e[1]) not in ids:
                mods.append(walk(e[1]) if not isinstance(e[1], dict) else ('dd', id(e[1])))
        fx = frozenset((k, v) for k, v in facts.items() if not (isinstance(k, tuple) and k and k[0] == 'nd') and self.fact_live(k, usedsyms))
        return hash_state((fr, extra, tuple(mods), fx, tuple(self.output)))

    def fact_live(self, k, syms):
        return True

    base_ids = frozenset()
    roots_fn = None

    def roots(self):
        return self.roots_fn(self) if self.roots_fn else ()

    def freeze(self):
        """remember every object of the base image"""
        ids = set()
        stack = [m for m in self.modules.values()]
        keep = []
        while stack:
            v = stack.pop()
            i = id(v)
            if i in ids:
                continue
            t = type(v)
            if t in (str, int, float, bool, bytes, _S_type) or v is None:
                continue
            ids.add(i)
            keep.append(v)
            if t is Obj:
                stack.extend(v.attrs.values())
                stack.append(v.payload)
                stack.append(v.cls)
                ids.add(id(v.attrs))
            elif t is ListV:
                stack.extend(v.items)
            elif t is DictV:
                for a, b in v.data.values():
                    stack.append(a)
                    stack.append(b)
            elif t is SetV:
                stack.extend(v.data.values())
            elif t is tuple:
                stack.extend(v)
            elif t is ClassV:
                stack.extend(v.dict.values())
                stack.extend(v.bases)
                ids.add(id(v.dict))
            elif t is ModuleV or t is OpaqueModuleV:
                stack.extend(v.dict.values())
                ids.add(id(v.dict))
            elif t is FuncV:
                stack.extend(v.defaults)
                stack.extend(v.closure)
                stack.extend(v.attrs.values())
            elif t is Cell:
                stack.append(v.v)
            elif t is BoundV:
                stack.append(v.func)
                stack.append(v.self)
            elif t is PropV:
                stack.extend([v.fget, v.fset, v.fdel])
            elif t in (StaticV, ClassMV):
                stack.append(v.f)
        self.base_keep = keep
        self.base_ids = ids

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        for c in (os.path.join(p, '__init__.py'), p + '.py'):
            if os.path.exists(c):
                return c
        return None

    def load_source(self, path):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        self.sources[path] = src
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return compile(src, path, 'exec', dont_inherit=True)

    def import_frames(self, name, cont=None):
        """ensure module `name` (and parents) is loaded.  True when available now; otherwise frames were pushed"""
        if name in self.modules:
            return True
        parent = name.rpartition('.')[0]
        if parent and self.owned(parent) and parent not in self.modules:
            if not self.import_frames(parent, cont):
                return False
        if name in self.stubs:
            self.modules[name] = self.stubs[name]
            return True
        path = self.find_module(name) if self.owned(name) else None
        if path is None:
            if self.owned(name):
                self.throw('ModuleNotFoundError', 'No module named %r' % name)
            m = self.B.foreign_module(self, name)
            self.dset(self.modules, name, m)
            return True
        mod = ModuleV(name, {'__name__': name, '__file__': path, '__doc__': None,
                             '__package__': name if path.endswith('__init__.py') else parent}, path)
        if path.endswith('__init__.py'):
            mod.dict['__path__'] = ListV([os.path.dirname(path)])
        self.dset(self.modules, name, mod)
        code = self.load_source(path)
        fr = self.mkframe(code, mod.dict, None, mod.dict, None)

        def done(m, caller, v, mod=mod, name=name, parent=parent):
            if parent and parent in m.modules:
                m.dset(m.modules[parent].dict, name.rpartition('.')[2], mod)
        fr.cont = done
        self.visited.add(code)
        self.frames.append(fr)
        return False

    def owned(self, name):
        return name.split('.')[0] == 'plasTeX' or self.find_module(name.split('.')[0]) is not None and name.split('.')[0] in ('plasTeX',)

    def load(self, name):
        """load a repo module into the base image"""
        self.frames = []
        f = FuncV(compile('import importlib\nr = __am_import__(%r)' % name, '<load>', 'exec'), {'__name__': '<load>', '__am_import__': IntrV('imp', _imp, False)})
        fr = self.mkframe(f.code, f.globals, None, f.globals)
        self.frames = [fr]
        self.steps = 0
        self.run()
        self.total_steps += self.steps
        return self.modules[name]

    def compile_driver(self, src, fname='<driver>', **globs):
        """compile analysis harness source into the machine; returns its namespace"""
        g = {'__name__': 'driver'}
        g.update(globs)
        code = compile(src, fname, 'exec', dont_inherit=True)
        self.frames = [self.mkframe(code, g, None, g)]
        self.steps = 0
        self.run()
        return g


def _imp(m, args, kw):
    name = args[0]
    if m.import_frames(name):
        return m.modules[name]
    fr = m.frames[-1]
    old = fr.cont

    def done(mm, caller, v, old=old):
        old(mm, caller, v)
        if name in mm.modules:
            mm.deliver(mm.modules[name])
    # the innermost pushed frame may be a parent package: retry afterwards
    base = name

    def retry(mm, caller, v, old=old):
        old(mm, caller, v)
        try:
            r = _imp(mm, [base], {})
        except PyRaise as e:
            return mm.unwind(e.exc)
        if r is not PUSHED:
            mm.deliver(r)
    fr.cont = retry
    m.pushed_cont = True
    return PUSHED


_boot = compile('def boot(f, a, k):\n    return f(*a, **k)\n', '<boot>', 'exec').co_consts[0]
_S_type = type(MISSING)


def hash_state(x):
    return x


def _discard(m, caller, v):
    pass


_TN = {str: 'str', int: 'int', float: 'float', bool: 'bool', tuple: 'tuple', bytes: 'bytes', ListV: 'list', DictV: 'dict',
       type(None): 'NoneType', FuncV: 'function', BoundV: 'method', IntrV: 'builtin_function_or_method', ModuleV: 'module',
       OpaqueModuleV: 'module', GenV: 'generator', ItV: 'iterator', PropV: 'property', range: 'range', slice: 'slice',
       type(Ellipsis): 'ellipsis', StaticV: 'staticmethod', ClassMV: 'classmethod', _types.CodeType: 'code', SuperV: 'super',
       Cell: 'cell', ViewV: 'dict_view', HostV: 'object', complex: 'complex'}

from . import ops  # noqa  (adds op_* methods)
