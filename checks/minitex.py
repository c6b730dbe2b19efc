"""Reference evaluator for a fragment of TeX/LaTeX (written from TeX's rules, independent of plasTeX).

Programs are template strings; <name> stands for one unknown letter ("word").  run(src) returns the visible text with
blanks removed, words printed as <name>."""
import re


class Bad(Exception):
    """program outside the fragment / erroneous program"""


ESC, BG, EG, MATH, ALIGN, EOL, PAR, SUP, SUB, IGN, SPACE, LETTER, OTHER, ACTIVE, COMMENT, INVALID = range(16)
DEFCAT = {'\\': ESC, '{': BG, '}': EG, '$': MATH, '&': ALIGN, '\n': EOL, '#': PAR, '^': SUP, '_': SUB, '\0': IGN, ' ': SPACE, '\t': SPACE,
          '~': ACTIVE, '%': COMMENT, '\x7f': INVALID}


class Tok(object):
    __slots__ = ('kind', 'v', 'cat')

    def __init__(self, kind, v, cat=None):
        self.kind, self.v, self.cat = kind, v, cat       # kind: 'cs' | 'ch' | 'w'

    def same(self, o):
        return self.kind == o.kind and self.v == o.v and self.cat == o.cat

    def __repr__(self):
        return '\\' + self.v if self.kind == 'cs' else self.v if self.kind == 'ch' else '<%s>' % self.v


def cs(n):
    return Tok('cs', n)


def other(s):
    return [Tok('ch', c, SPACE if c == ' ' else LETTER if c.isalpha() and False else OTHER) for c in s]


class Macro(object):
    def __init__(self, pattern, body, hashbrace=False):
        self.pattern, self.body = pattern, body

    def __eq__(self, o):
        return type(o) is type(self) and len(self.pattern) == len(o.pattern) and len(self.body) == len(o.body) and \
            all(a.same(b) for a, b in zip(self.pattern, o.pattern)) and all(a.same(b) for a, b in zip(self.body, o.body))

    def __hash__(self):
        return 1


class Cmd(object):
    """\\newcommand-style macro"""

    def __init__(self, nargs, opt, body):
        self.nargs, self.opt, self.body = nargs, opt, body


class Prim(object):
    def __init__(self, name, f, expandable):
        self.name, self.f, self.expandable = name, f, expandable


class Chr(object):
    """\\let to a character"""

    def __init__(self, tok):
        self.tok = tok

    def __eq__(self, o):
        return type(o) is Chr and o.tok.same(self.tok)

    def __hash__(self):
        return 2


class Reg(object):
    def __init__(self, kind, name):
        self.kind, self.name = kind, name


class Switch(object):
    def __init__(self, name):
        self.name = name


END = object()

UNITS = {'sp': 1, 'pt': 65536, 'pc': 12 * 65536, 'in': 7227 * 65536 / 100., 'bp': 7227 * 65536 / 7200., 'cm': 7227 * 65536 / 254.,
         'mm': 7227 * 65536 / 2540., 'dd': 1238 * 65536 / 1157., 'cc': 14856 * 65536 / 1157.}


class TeX(object):
    MAXSTEPS = 20000

    def __init__(self):
        self.src, self.pos, self.state = '', 0, 'N'
        self.stack = []              # pushed-back tokens (reversed)
        self.scopes = [{}]           # list of {key: meaning}; key 'cs:name'
        self.cats = [dict(DEFCAT)]
        self.regs = {}               # (kind, name) -> value   (counters; globally assigned)
        self.switch = {}
        self.resets = {}             # counter -> dependents
        self.out = []
        self.steps = 0
        self.ifstack = []
        self.envstack = []
        self.groupkind = []
        self.prims = {}
        self.glob = False
        for n in dir(self):
            if n.startswith('p_'):
                self.prims[n[2:]] = Prim(n[2:], getattr(self, n), False)
            elif n.startswith('x_'):
                self.prims[n[2:]] = Prim(n[2:], getattr(self, n), True)
        for a, b in (('\\', 'newrow'), ('(', 'mopen'), (')', 'mclose'), ('[', 'dopen'), (']', 'dclose')):
            self.prims[a] = self.prims.pop(b)
        al = {'if': 'if_', 'else': 'else_', 'or': 'or_', 'def': 'def_', 'global': 'global_', 'makeatletter': 'makeatletter'}
        for a, b in al.items():
            if b in self.prims:
                p = self.prims.pop(b) if b != a else self.prims[b]
                self.prims[a] = Prim(a, p.f, p.expandable)

    # ------------------------------------------------ lexer
    def cat(self, c):
        for d in reversed(self.cats):
            if c in d:
                return d[c]
        return LETTER if c.isalpha() and c.isascii() else OTHER

    def lex(self):
        while True:
            if self.pos >= len(self.src):
                return None
            if self.src[self.pos] == '<':
                mo = re.compile(r'<([A-Za-z]\w*)>').match(self.src, self.pos)
                if mo:
                    self.pos = mo.end()
                    self.state = 'M'
                    return Tok('w', mo.group(1), LETTER)
            c = self.src[self.pos]
            self.pos += 1
            k = self.cat(c)
            if k == ESC:
                if self.pos >= len(self.src):
                    raise Bad('end after escape')
                d = self.src[self.pos]
                self.pos += 1
                if self.cat(d) == LETTER:
                    n = d
                    while self.pos < len(self.src) and self.cat(self.src[self.pos]) == LETTER:
                        if re.match(r'<[A-Za-z]', self.src[self.pos:]):
                            break
                        n += self.src[self.pos]
                        self.pos += 1
                    if self.pos < len(self.src) and re.match(r'<[A-Za-z]\w*>', self.src[self.pos:]):
                        raise Bad('word after control word')
                    self.state = 'S'
                    return cs(n)
                if d == '\n':
                    self.state = 'N'
                    return cs(' ')
                self.state = 'S' if self.cat(d) == SPACE else 'M'
                return cs(d)
            if k == EOL:
                st = self.state
                self.state = 'N'
                if st == 'N':
                    return cs('par')
                if st == 'S':
                    continue
                return Tok('ch', ' ', SPACE)
            if k == SPACE:
                if self.state != 'M':
                    continue
                self.state = 'S'
                return Tok('ch', ' ', SPACE)
            if k == COMMENT:
                while self.pos < len(self.src) and self.src[self.pos] != '\n':
                    self.pos += 1
                self.pos += 1
                self.state = 'N'
                continue
            if k in (IGN, INVALID):
                continue
            self.state = 'M'
            return Tok('ch', c, k)

    def next(self):
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Bad('too many steps')
        if self.stack:
            return self.stack.pop()
        return self.lex()

    def need(self):
        t = self.next()
        if t is None:
            raise Bad('unexpected end')
        return t

    def push(self, toks):
        self.stack.extend(reversed(toks))

    # ------------------------------------------------ meanings
    def meaning(self, t):
        if t.kind == 'cs':
            for s in reversed(self.scopes):
                if t.v in s:
                    return s[t.v]
            return self.prims.get(t.v)
        if t.kind == 'ch' and t.cat == ACTIVE:
            for s in reversed(self.scopes):
                if 'active:' + t.v in s:
                    return s['active:' + t.v]
            return None
        return Chr(t)

    def setm(self, name, m, glob=False):
        if glob:
            for s in self.scopes:
                s.pop(name, None)
            self.scopes[0][name] = m
        else:
            self.scopes[-1][name] = m

    def is_cat(self, t, cat):
        m = self.meaning(t)
        return isinstance(m, Chr) and m.tok.cat == cat

    # ------------------------------------------------ expansion
    def expand1(self, t):
        """expand an expandable token once (pushes the result); False when not expandable"""
        m = self.meaning(t)
        if isinstance(m, Macro):
            self.push(self.subst(m.body, self.match(m)))
            return True
        if isinstance(m, Cmd):
            self.push(self.subst(m.body, self.cmdargs(m)))
            return True
        if isinstance(m, Prim) and m.expandable:
            m.f()
            return True
        if isinstance(m, Switch):
            self.conditional(self.switch[m.name])
            return True
        return False

    def nextx(self):
        """next unexpandable token"""
        while True:
            t = self.next()
            if t is None:
                return None
            if t.kind == 'cs' or t.cat == ACTIVE:
                if self.meaning(t) is None:
                    raise Bad('undefined %r' % t)
                if self.expand1(t):
                    continue
            return t

    def subst(self, body, args):
        out = []
        i = 0
        while i < len(body):
            t = body[i]
            if t.kind == 'ch' and t.cat == PAR:
                n = body[i + 1]
                if n.kind == 'ch' and n.cat == PAR:
                    out.append(n)
                else:
                    out.extend(args[int(n.v) - 1])
                i += 2
                continue
            out.append(t)
            i += 1
        return out

    def undelimited(self):
        t = self.need()
        while t.kind == 'ch' and t.cat == SPACE:
            t = self.need()
        if t.kind == 'ch' and t.cat == BG:
            return self.balanced()
        if t.kind == 'ch' and t.cat == EG:
            raise Bad('extra }')
        return [t]

    def balanced(self):
        out, depth = [], 0
        while True:
            t = self.need()
            if t.kind == 'ch' and t.cat == BG:
                depth += 1
            elif t.kind == 'ch' and t.cat == EG:
                if depth == 0:
                    return out
                depth -= 1
            out.append(t)

    def match(self, m):
        p = m.pattern
        i = 0
        args = []
        while i < len(p) and not (p[i].kind == 'ch' and p[i].cat == PAR):
            t = self.need()
            if not t.same(p[i]):
                raise Bad('use does not match definition')
            i += 1
        while i < len(p):
            i += 2
            delim = []
            while i < len(p) and not (p[i].kind == 'ch' and p[i].cat == PAR):
                delim.append(p[i])
                i += 1
            if not delim:
                args.append(self.undelimited())
                continue
            args.append(self.delimited(delim))
        return args

    def delimited(self, delim):
        out, depth = [], 0
        while True:
            if depth == 0 and len(out) >= 0:
                n = len(delim)
                if len(out) >= n and all(a.same(b) for a, b in zip(out[-n:], delim)) and self._flat(out):
                    out = out[:-n]
                    if delim[-1].kind == 'ch' and delim[-1].cat == BG:
                        raise Bad('#{ handled elsewhere')
                    break
            t = self.need()
            if t.kind == 'ch' and t.cat == BG:
                if depth == 0 and delim[-1].kind == 'ch' and delim[-1].cat == BG:
                    n = len(delim) - 1
                    if n == 0 or (len(out) >= n and all(a.same(b) for a, b in zip(out[-n:], delim))):
                        out = out[:len(out) - n]
                        # the brace ends the match; it is re-inserted by the body
                        return self.strip(out)
                depth += 1
            elif t.kind == 'ch' and t.cat == EG:
                depth -= 1
                if depth < 0:
                    raise Bad('extra } in argument')
            out.append(t)
        return self.strip(out)

    def _flat(self, out):
        d = 0
        for t in out:
            if t.kind == 'ch' and t.cat == BG:
                d += 1
            elif t.kind == 'ch' and t.cat == EG:
                d -= 1
        return d == 0

    def strip(self, out):
        if len(out) >= 2 and out[0].cat == BG and out[-1].cat == EG:
            d = 0
            for k, t in enumerate(out):
                if t.cat == BG:
                    d += 1
                elif t.cat == EG:
                    d -= 1
                    if d == 0 and k < len(out) - 1:
                        return out
            return out[1:-1]
        return out

    def cmdargs(self, m):
        args = []
        n = m.nargs
        if m.opt is not None and n:
            a = self.optional()
            args.append(m.opt if a is None else a)
            n -= 1
        for _ in range(n):
            args.append(self.undelimited())
        return args

    def optional(self):
        """LaTeX's \\@ifnextchar[ : skips blanks; reads up to ] outside braces"""
        sp = None
        t = self.next()
        if t is not None and t.kind == 'ch' and t.cat == SPACE:
            sp = t
            t = self.next()
        if t is None:
            if sp:
                self.push([sp])
            return None
        if t.kind == 'ch' and t.v == '[' and t.cat == OTHER:
            return self.delimited([Tok('ch', ']', OTHER)])
        self.push([t])
        return None

    # ------------------------------------------------ main loop
    def run(self, src):
        self.src = src
        while True:
            t = self.nextx()
            if t is None:
                break
            if self.execute(t) is END:
                break
        if len(self.scopes) != 1:
            raise Bad('unbalanced groups')
        if self.ifstack:
            raise Bad('incomplete conditional')
        return ''.join(self.out)

    def execute(self, t):
        m = self.meaning(t)
        if isinstance(m, Chr):
            c = m.tok
            if c.kind == 'w':
                self.out.append('<%s>' % c.v)
            elif c.cat == BG:
                self.begin('brace')
            elif c.cat == EG:
                self.end('brace')
            elif c.cat in (LETTER, OTHER):
                self.out.append(c.v)
            elif c.cat == SPACE:
                pass
            elif c.cat == MATH:
                self.mathshift()
            elif c.cat == ALIGN:
                self.end('cell')
                self.begin('cell')
            elif c.cat in (PAR, SUP, SUB):
                raise Bad('stray character %r' % c)
            return
        if isinstance(m, Prim):
            return m.f()
        if isinstance(m, Reg):
            return self.assign_reg(m)
        raise Bad('cannot execute %r' % t)

    def begin(self, kind):
        self.scopes.append({})
        self.cats.append({})
        self.groupkind.append(kind)

    def end(self, kind):
        if not self.groupkind or self.groupkind[-1] != kind:
            raise Bad('group mismatch')
        self.groupkind.pop()
        self.scopes.pop()
        self.cats.pop()

    def inmath(self):
        for k in reversed(self.groupkind):
            if k in ('math', 'dmath', 'mathenv'):
                return True
            if k == 'mbox':
                return False
        return False

    def mathshift(self):
        t = self.next()
        dbl = t is not None and t.kind == 'ch' and t.cat == MATH
        k = self.groupkind[-1] if self.groupkind else None
        if dbl:
            if k == 'dmath':
                return self.end('dmath')
            if self.inmath():
                raise Bad('$$ inside math')
            return self.begin('dmath')
        if t is not None:
            self.push([t])
        if k == 'math':
            return self.end('math')
        if self.inmath():
            raise Bad('$ inside math')
        self.begin('math')

    def arggroup(self, kind='arg'):
        toks = self.undelimited()
        self.begin(kind)
        self.push(toks + [cs('endarggroup')])

    def p_endarggroup(self):
        self.end(self.groupkind[-1] if self.groupkind and self.groupkind[-1] in ('arg', 'mbox') else 'arg')

    def p_textbf(self):
        self.arggroup()

    p_textit = p_texttt = p_textsf = p_emph = p_textbf

    def p_mbox(self):
        self.arggroup('mbox')

    p_fbox = p_mbox

    def p_item(self):
        if not self.envstack or self.envstack[-1] not in ('itemize', 'enumerate') or self.groupkind[-1] != 'env':
            raise Bad('stray item')

    def p_newrow(self):
        self.end('cell')
        self.begin('cell')

    def p_multicolumn(self):
        self.undelimited()
        self.undelimited()
        self.arggroup('mbox')

    def p_mopen(self):
        if self.inmath():
            raise Bad('math in math')
        self.begin('math')

    def p_mclose(self):
        self.end('math')

    def p_dopen(self):
        if self.inmath():
            raise Bad('math in math')
        self.begin('dmath')

    def p_dclose(self):
        self.end('dmath')

    NATIVE = ('document', 'center', 'quote', 'flushleft', 'flushright', 'quotation', 'verse', 'itemize', 'enumerate', 'equation', 'displaymath', 'math', 'tabular')

    # ------------------------------------------------ definitions
    def readname(self):
        t = self.need()
        while t.kind == 'ch' and t.cat == SPACE:
            t = self.need()
        if t.kind == 'cs':
            return t.v
        if t.kind == 'ch' and t.cat == ACTIVE:
            return 'active:' + t.v
        raise Bad('name expected, got %r' % t)

    def dodef(self, glob, expand=False):
        n = self.readname()
        pat = []
        hb = False
        while True:
            t = self.need()
            if t.kind == 'ch' and t.cat == BG:
                if pat and pat[-1].kind == 'ch' and pat[-1].cat == PAR:
                    pat.pop()
                    pat.append(t)
                    hb = True
                break
            if t.kind == 'ch' and t.cat == EG:
                raise Bad('} in parameter text')
            pat.append(t)
        if expand:
            body = self.expanded()
        else:
            body = self.balanced()
        if hb:
            body = body + [Tok('ch', '{', BG)]
        self.checkbody(body, sum(1 for i, t in enumerate(pat) if t.kind == 'ch' and t.cat == PAR))
        self.setm(n, Macro(pat, body), glob or self.takeglob())

    def expanded(self):
        out, depth = [], 0
        while True:
            t = self.next()
            if t is None:
                raise Bad('end in edef')
            if t.kind == 'cs' or t.cat == ACTIVE:
                m = self.meaning(t)
                if m is None:
                    raise Bad('undefined in edef')
                if self.expand1(t):
                    continue
            if t.kind == 'ch' and t.cat == BG:
                depth += 1
            elif t.kind == 'ch' and t.cat == EG:
                if depth == 0:
                    return out
                depth -= 1
            out.append(t)

    def checkbody(self, body, n):
        i = 0
        while i < len(body):
            if body[i].kind == 'ch' and body[i].cat == PAR:
                if i + 1 >= len(body):
                    raise Bad('lone # in body')
                b = body[i + 1]
                if not (b.kind == 'ch' and (b.cat == PAR or b.v.isdigit() and 1 <= int(b.v) <= n)):
                    raise Bad('illegal parameter number')
                i += 2
            else:
                i += 1

    def takeglob(self):
        g, self.glob = self.glob, False
        return g

    def p_global_(self):
        self.glob = True

    def p_long(self):
        pass

    def p_relax(self):
        pass

    def p_def_(self):
        self.dodef(False)

    def p_gdef(self):
        self.dodef(True)

    def p_edef(self):
        self.dodef(False, True)

    def p_xdef(self):
        self.dodef(True, True)

    def p_let(self):
        n = self.readname()
        t = self.need()
        while t.kind == 'ch' and t.cat == SPACE:
            t = self.need()
        if t.kind == 'ch' and t.v == '=' and t.cat == OTHER:
            t = self.need()
            if t.kind == 'ch' and t.cat == SPACE:
                t = self.need()
        m = self.meaning(t)
        g = self.takeglob()
        if m is None:
            raise Bad('let to undefined')
        self.setm(n, m, g)

    def x_csname(self):
        n = ''
        while True:
            t = self.nextx()
            if t is None:
                raise Bad('end in csname')
            if t.kind == 'cs':
                if t.v == 'endcsname':
                    break
                raise Bad('unexpandable in csname')
            n += t.v if t.kind == 'ch' else '<%s>' % t.v
        if self.meaning(cs(n)) is None:
            self.scopes[-1][n] = self.prims['relax']
        self.push([cs(n)])

    def p_endcsname(self):
        raise Bad('extra endcsname')

    def x_expandafter(self):
        a = self.need()
        b = self.need()
        if b.kind == 'cs' or b.cat == ACTIVE:
            if self.meaning(b) is None:
                raise Bad('undefined')
            if not self.expand1(b):
                self.push([b])
        else:
            self.push([b])
        self.push([a])

    def x_noexpand(self):
        raise Bad('noexpand')

    def x_string(self):
        t = self.need()
        self.push(other('\\' + t.v if t.kind == 'cs' else t.v))

    def p_begingroup(self):
        self.begin('begingroup')

    def p_endgroup(self):
        self.end('begingroup')

    def p_bgroup(self):
        self.begin('brace')

    def p_egroup(self):
        self.end('brace')

    def p_par(self):
        pass

    def p_makeatletter(self):
        self.cats[-1]['@'] = LETTER

    def p_makeatother(self):
        self.cats[-1]['@'] = OTHER

    def p_catcode(self):
        n = self.number()
        self.opteq()
        v = self.number()
        self.cats[-1][chr(n)] = v

    # LaTeX definitions
    def star(self):
        t = self.next()
        while t is not None and t.kind == 'ch' and t.cat == SPACE:
            t = self.next()
        if t is not None and t.kind == 'ch' and t.v == '*':
            return True
        if t is not None:
            self.push([t])
        return False

    def csarg(self):
        a = self.undelimited()
        a = [t for t in a if not (t.kind == 'ch' and t.cat == SPACE)]
        if len(a) != 1 or a[0].kind != 'cs':
            raise Bad('control sequence expected')
        return a[0].v

    def textarg(self, toks=None):
        """expanded argument as plain text"""
        toks = self.undelimited() if toks is None else toks
        out = ''
        mark = Tok('cs', 'endtextarg')
        self.push(toks + [mark])
        while True:
            t = self.nextx2(mark)
            if t is mark:
                return out
            m = self.meaning(t)
            if isinstance(m, Chr) and m.tok.cat in (LETTER, OTHER, SPACE):
                out += m.tok.v if m.tok.kind == 'ch' else '<%s>' % m.tok.v
            else:
                raise Bad('text expected, got %r' % t)

    def nextx2(self, mark):
        while True:
            t = self.need()
            if t is mark:
                return t
            if t.kind == 'cs' or t.cat == ACTIVE:
                if self.meaning(t) is None:
                    raise Bad('undefined')
                if self.expand1(t):
                    continue
            return t

    def intarg(self, toks=None):
        toks = self.undelimited() if toks is None else toks
        mark = cs('relax')
        self.push(toks + [mark])
        n = self.number()
        t = self.next()
        while t is not mark:
            if t is None or not (t.kind == 'ch' and t.cat == SPACE):
                raise Bad('junk after number')
            t = self.next()
        return n

    def newcmd(self, mode):
        self.star()
        n = self.csarg()
        a = self.optional()
        nargs = self.intarg(a) if a is not None else 0
        opt = self.optional() if a is not None else None
        body = self.undelimited()
        self.checkbody(body, nargs)
        m = self.meaning(cs(n))
        exists = m is not None and m is not self.prims['relax']
        if mode == 'new' and exists or mode == 'renew' and not exists:
            raise Bad('newcommand existence')
        if mode == 'provide' and exists:
            return
        self.setm(n, Cmd(nargs, opt, body))

    def p_newcommand(self):
        self.newcmd('new')

    def p_renewcommand(self):
        self.newcmd('renew')

    def p_providecommand(self):
        self.newcmd('provide')

    def newenv(self, renew):
        self.star()
        n = self.textarg()
        a = self.optional()
        nargs = self.intarg(a) if a is not None else 0
        opt = self.optional() if a is not None else None
        b = self.undelimited()
        e = self.undelimited()
        self.checkbody(b, nargs)
        self.checkbody(e, 0)
        exists = self.meaning(cs(n)) is not None
        if exists != renew:
            raise Bad('newenvironment existence')
        self.setm(n, Cmd(nargs, opt, b))
        self.setm('end' + n, Cmd(0, None, e))

    def p_newenvironment(self):
        self.newenv(False)

    def p_renewenvironment(self):
        self.newenv(True)

    def p_begin(self):
        n = self.textarg()
        if n in ('equation', 'displaymath', 'math'):
            if self.inmath():
                raise Bad('math in math')
            self.begin('mathenv')
        else:
            if self.inmath() and n in self.NATIVE:
                raise Bad('environment in math')
            self.begin('env')
        self.envstack.append(n)
        if n in self.NATIVE:
            if n == 'tabular':
                self.undelimited()
                self.begin('cell')
            return
        if self.meaning(cs(n)) is None:
            raise Bad('unknown environment')
        self.push([cs(n)])

    def p_end(self):
        n = self.textarg()
        if n in self.NATIVE:
            if n == 'tabular':
                self.end('cell')
            self.closeenv(n)
            return END if n == 'document' else None
        post = [cs('closeenv'), Tok('cs', n)]
        if self.meaning(cs('end' + n)) is not None:
            post = [cs('end' + n)] + post
        self.push(post)

    def p_closeenv(self):
        self.closeenv(self.need().v)

    def closeenv(self, n):
        if not self.envstack or self.envstack[-1] != n:
            raise Bad('environment mismatch')
        self.envstack.pop()
        self.end('mathenv' if n in ('equation', 'displaymath', 'math') else 'env')

    # ------------------------------------------------ numbers
    def skipsp(self, expand=True):
        while True:
            t = self.nextx() if expand else self.next()
            if t is None:
                return
            if not (t.kind == 'ch' and t.cat == SPACE):
                self.push([t])
                return

    def opteq(self):
        self.skipsp()
        t = self.nextx()
        if t is not None and t.kind == 'ch' and t.v == '=' and t.cat == OTHER:
            return
        if t is not None:
            self.push([t])

    def signs(self):
        s = 1
        while True:
            t = self.nextx()
            if t is None:
                raise Bad('number expected')
            if t.kind == 'ch' and t.cat == SPACE:
                continue
            if t.kind == 'ch' and t.v in '+-' and t.cat == OTHER:
                if t.v == '-':
                    s = -s
                continue
            self.push([t])
            return s

    def number(self):
        s = self.signs()
        t = self.nextx()
        if t is None:
            raise Bad('number expected')
        m = self.meaning(t)
        if isinstance(m, Reg):
            return s * int(self.regval(m))
        if isinstance(m, Prim) and m.name == 'value':
            n = self.textarg()
            return s * self.regs[('counter', n)]
        if t.kind == 'ch' and t.v == '`':
            u = self.need()
            if u.kind == 'cs':
                if len(u.v) != 1:
                    raise Bad('improper alphabetic constant')
                n = ord(u.v)
            elif u.kind == 'w':
                raise Bad('code of word')
            else:
                n = ord(u.v)
            self.optspace()
            return s * n
        if t.kind == 'ch' and t.v == "'":
            return s * self.digits(8, None)
        if t.kind == 'ch' and t.v == '"':
            return s * self.digits(16, None)
        if t.kind == 'ch' and t.v.isdigit() and t.cat == OTHER:
            return s * self.digits(10, t.v)
        raise Bad('missing number at %r' % t)

    def optspace(self):
        t = self.nextx()
        if t is not None and not (t.kind == 'ch' and t.cat == SPACE):
            self.push([t])

    def digits(self, base, first):
        d = first or ''
        ok = '0123456789ABCDEF'[:base]
        while True:
            t = self.nextx()
            if t is None:
                break
            if t.kind == 'ch' and t.v in ok:
                d += t.v
                continue
            if not (t.kind == 'ch' and t.cat == SPACE):
                m = self.meaning(t)
                if isinstance(m, Reg) or isinstance(m, Prim) and m.name not in ('relax', 'else', 'or', 'fi', 'par'):
                    raise Bad('number ended by a command')
                self.push([t])
            break
        if not d:
            raise Bad('missing digits')
        return int(d, base)

    def regval(self, m):
        return self.regs.get((m.kind, m.name), 0)

    def dimen(self):
        s = self.signs()
        t = self.nextx()
        if t is None:
            raise Bad('dimen expected')
        m = self.meaning(t)
        if isinstance(m, Reg) and m.kind == 'dimen':
            return s * self.regval(m)
        if isinstance(m, Reg):
            f = float(self.regval(m))
        elif t.kind == 'ch' and (t.v.isdigit() or t.v in '.,'):
            d = ''
            while t is not None and t.kind == 'ch' and (t.v.isdigit() or t.v in '.,' and '.' not in d):
                d += '.' if t.v == ',' else t.v
                t = self.nextx()
            if t is not None:
                self.push([t])
            f = float(d if d != '.' else '0')
        else:
            raise Bad('dimen expected at %r' % t)
        self.skipsp()
        t = self.nextx()
        m = self.meaning(t)
        if isinstance(m, Reg) and m.kind == 'dimen':
            return s * f * self.regval(m)
        if isinstance(m, Reg):
            return s * f * self.regval(m)
        u = self.nextx()
        if t.kind != 'ch' or u is None or u.kind != 'ch':
            raise Bad('unit expected')
        k = t.v + u.v
        if k == 'tr':
            t, u = self.need(), self.need()
            if t.v + u.v != 'ue':
                raise Bad('unit')
            self.skipsp()
            t, u = self.need(), self.need()
            k = t.v + u.v
        k = k.lower()
        if k not in UNITS:
            raise Bad('unit %s' % k)
        self.optspace()
        return s * f * UNITS[k]

    # ------------------------------------------------ registers
    def p_newcount(self):
        n = self.readname()
        self.setm(n, Reg('count', n), True)
        self.regs[('count', n)] = 0

    def p_newdimen(self):
        n = self.readname()
        self.setm(n, Reg('dimen', n), True)
        self.regs[('dimen', n)] = 0

    def p_newlength(self):
        n = self.csarg()
        self.setm(n, Reg('dimen', n), True)
        self.regs[('dimen', n)] = 0

    def p_setlength(self):
        n = self.csarg()
        m = self.meaning(cs(n))
        toks = self.undelimited()
        mark = cs('relax')
        self.push(toks + [mark])
        v = self.dimen()
        t = self.next()
        if t is not mark:
            raise Bad('junk after dimen')
        self.regs[(m.kind, m.name)] = v

    def p_addtolength(self):
        n = self.csarg()
        m = self.meaning(cs(n))
        old = self.regval(m)
        toks = self.undelimited()
        mark = cs('relax')
        self.push(toks + [mark])
        v = self.dimen()
        t = self.next()
        if t is not mark:
            raise Bad('junk after dimen')
        self.regs[(m.kind, m.name)] = old + v

    def assign_reg(self, m):
        self.opteq()
        self.takeglob()
        self.regs[(m.kind, m.name)] = self.number() if m.kind == 'count' else self.dimen()

    def x_number(self):
        self.push(other(str(self.number())))

    def x_romannumeral(self):
        self.push(other(roman(self.number())))

    def p_newcounter(self):
        n = self.textarg()
        a = self.optional()
        if ('counter', n) in self.regs:
            raise Bad('counter exists')
        self.regs[('counter', n)] = 0
        self.resets[n] = []
        if a is not None:
            self.resets[self.textarg(a)].append(n)
        self.setm('the' + n, Cmd(0, None, [cs('arabic'), Tok('ch', '{', BG)] + other(n) + [Tok('ch', '}', EG)]), True)

    def ctr(self):
        n = self.textarg()
        if ('counter', n) not in self.regs:
            raise Bad('no counter')
        return n

    def p_setcounter(self):
        n = self.ctr()
        self.regs[('counter', n)] = self.intarg()

    def p_addtocounter(self):
        n = self.ctr()
        self.regs[('counter', n)] += self.intarg()

    def step(self, n):
        self.regs[('counter', n)] += 1
        self.reset(n)

    def reset(self, n):
        for d in self.resets.get(n, ()):
            self.regs[('counter', d)] = 0
            self.reset(d)

    def p_stepcounter(self):
        self.step(self.ctr())

    p_refstepcounter = p_stepcounter

    def p_value(self):
        raise Bad('value outside number')

    def x_arabic(self):
        self.push(other(str(self.regs[('counter', self.ctr())])))

    def rng(self, hi):
        v = self.regs[('counter', self.ctr())]
        if not 1 <= v <= hi:
            raise Bad('counter out of range')
        return v

    def x_roman(self):
        self.push(other(roman(self.rng(3999))))

    def x_Roman(self):
        self.push(other(roman(self.rng(3999)).upper()))

    def x_alph(self):
        self.push(other(' abcdefghijklmnopqrstuvwxyz'[self.rng(26)]))

    def x_Alph(self):
        self.push(other(' ABCDEFGHIJKLMNOPQRSTUVWXYZ'[self.rng(26)]))

    # ------------------------------------------------ conditionals
    def isif(self, t):
        if t.kind != 'cs':
            return False
        m = self.meaning(t)
        return isinstance(m, Switch) or isinstance(m, Prim) and m.name.startswith('if') and m.name not in ('ifthenelse',)

    def primname(self, t):
        if t.kind != 'cs':
            return None
        m = self.meaning(t)
        return m.name if isinstance(m, Prim) else None

    def skip(self, stops):
        """skip to one of stops at nesting 0; returns its name"""
        depth = 0
        while True:
            t = self.need()
            if self.isif(t):
                depth += 1
                continue
            n = self.primname(t)
            if depth == 0 and n in stops:
                return n
            if n == 'fi':
                depth -= 1

    def conditional(self, value):
        if value:
            self.ifstack.append('then')
            return
        if self.skip(('else', 'fi')) == 'else':
            self.ifstack.append('else')

    def x_else_(self):
        if not self.ifstack or self.ifstack[-1] == 'else':
            raise Bad('extra else')
        self.skip(('fi',))
        self.ifstack.pop()

    def x_or_(self):
        if not self.ifstack or self.ifstack[-1] != 'case':
            raise Bad('extra or')
        self.skip(('fi',))
        self.ifstack.pop()

    def x_fi(self):
        if not self.ifstack:
            raise Bad('extra fi')
        self.ifstack.pop()

    def x_iftrue(self):
        self.conditional(True)

    def x_iffalse(self):
        self.conditional(False)

    def rel(self):
        t = self.nextx()
        while t is not None and t.kind == 'ch' and t.cat == SPACE:
            t = self.nextx()
        if t is None or t.kind != 'ch' or t.v not in '<=>':
            raise Bad('relation')
        return t.v

    def x_ifnum(self):
        a = self.number()
        r = self.rel()
        b = self.number()
        self.conditional(a < b if r == '<' else a > b if r == '>' else a == b)

    def x_ifdim(self):
        a = self.dimen()
        r = self.rel()
        b = self.dimen()
        self.conditional(a < b if r == '<' else a > b if r == '>' else a == b)

    def x_ifodd(self):
        self.conditional(self.number() % 2 == 1)

    def x_ifcase(self):
        n = self.number()
        while True:
            if n == 0:
                self.ifstack.append('case')
                return
            e = self.skip(('or', 'else', 'fi'))
            if e == 'fi':
                return
            if e == 'else':
                self.ifstack.append('else')
                return
            n -= 1

    def x_ifx(self):
        a = self.need()
        b = self.need()
        ma, mb = self.meaning(a), self.meaning(b)
        eq = ma is mb or ma == mb and type(ma) is type(mb)
        if isinstance(ma, Cmd) and isinstance(mb, Cmd):
            eq = ma is mb or (ma.nargs == mb.nargs and (ma.opt is None) == (mb.opt is None) and len(ma.body) == len(mb.body) and
                              all(x.same(y) for x, y in zip(ma.body, mb.body)))
            if ma is not mb and (ma.opt is not None):
                raise Bad('ifx of optional-argument macros')
        elif isinstance(ma, (Cmd, Macro)) and isinstance(mb, (Cmd, Macro)) and type(ma) is not type(mb):
            raise Bad('ifx of def and newcommand (long)')
        self.conditional(bool(eq))

    def x_if_(self):
        a, b = self.nextx(), self.nextx()
        self.conditional((a.kind, a.v if a.kind != 'cs' else '') == (b.kind, b.v if b.kind != 'cs' else ''))

    def x_ifdefined(self):
        self.conditional(self.meaning(self.need()) is not None)

    def x_ifcsname(self):
        n = ''
        while True:
            t = self.nextx()
            if t.kind == 'cs':
                if t.v == 'endcsname':
                    break
                raise Bad('ifcsname')
            n += t.v if t.kind == 'ch' else '<%s>' % t.v
        self.conditional(self.meaning(cs(n)) is not None)

    def p_newif(self):
        n = self.readname()
        if not n.startswith('if'):
            raise Bad('newif')
        b = n[2:]
        self.switch[n] = False
        self.setm(n, Switch(n))
        self.setm(b + 'true', Prim(b + 'true', lambda: self.switch.__setitem__(n, True), False))
        self.setm(b + 'false', Prim(b + 'false', lambda: self.switch.__setitem__(n, False), False))


def roman(n):
    out = ''
    for v, s in ((1000, 'm'), (900, 'cm'), (500, 'd'), (400, 'cd'), (100, 'c'), (90, 'xc'), (50, 'l'), (40, 'xl'), (10, 'x'), (9, 'ix'),
                 (5, 'v'), (4, 'iv'), (1, 'i')):
        while n >= v:
            out += s
            n -= v
    return out


def evaluate(src, klass=TeX):
    t = klass()
    return t.run(src)


def squash(s):
    return re.sub(r'\s+', '', s)
