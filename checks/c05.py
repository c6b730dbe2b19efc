"""C05: argument readers, type casts and numeric scanners: abstract transfer of a macro invocation against the declared signature."""
import itertools
import random
from .core import *

TITLE = ('Signatures (star, [], (), <>, mandatory; untyped, str, int, number, float, dimen, list, dict, cs, Tok, nox, Number, Dimen, Glue, MuDimen, MuGlue, Args, any, =) '
         'are compiled by the analysed signature compiler and applied by the analysed argument loop to abstract invocations whose words are unknown; bound values, the text '
         'left after the invocation and the balance of the parameter switch are compared with what the invocation spells. The numeric scanners are interpreted '
         'over a table of constants, radices, signs, registers, macros and units and compared with exact values of TeX.')

DRIVER = r'''
import plasTeX as _p
from plasTeX import ParameterCommand as _PC

def val(v):
    if v is None or v is True or v is False:
        return v
    if isinstance(v, _p.glue):
        return ('g', float(v), None if v.stretch is None else float(v.stretch), None if v.shrink is None else float(v.shrink))
    if isinstance(v, float):
        return ('f', float(v))
    if isinstance(v, int):
        return ('i', int(v))
    if isinstance(v, dict):
        return ('d', [(str(k), val(x)) for k, x in v.items()])
    if isinstance(v, list) and not hasattr(v, 'nodeType'):
        if v and all([isinstance(x, Token) for x in v]):
            return ('s', ''.join([str(x) for x in v]))
        return ('l', [val(x) for x in v])
    if isinstance(v, Token):
        return ('t', str(v))
    if isinstance(v, str):
        return ('s', ''.join([v]))
    return ('s', v.textContent)

def sig(tex, args, src):
    ctx = tex.ownerDocument.context
    cls = type('sigmac', (_p.Command,), {'args': args})
    ctx.addGlobal('sigmac', cls)
    lvl = _PC._enablelevel
    tex.input(src)
    out = []
    found = []
    for t in tex:
        if t.nodeType == t.ELEMENT_NODE and t.nodeName == 'sigmac':
            found.append([(k, val(v)) for k, v in t.attributes.items()])
            out.append('!')
        elif t.nodeType == t.ELEMENT_NODE:
            out.append(t.textContent if t.nodeName != 'relax' else '')
        else:
            out.append(str(t))
    return (found, ''.join(out), _PC._enablelevel - lvl, _PC.enabled)

def build(tex, args, src):
    """in a parsed document, invocation inside other constructs"""
    ctx = tex.ownerDocument.context
    cls = type('sigmac', (_p.Command,), {'args': args})
    ctx.addGlobal('sigmac', cls)
    lvl = _PC._enablelevel
    tex.input(src)
    doc = tex.parse()
    found = []
    seen = []
    def walk(n):
        for c in n.allChildNodes:
            if c.nodeType == c.ELEMENT_NODE:
                if [x for x in seen if x is c]:
                    continue
                seen.append(c)
                if c.nodeName == 'sigmac':
                    found.append([(k, val(v)) for k, v in c.attributes.items()])
                walk(c)
    walk(doc)
    return (found, doc.textContent, _PC._enablelevel - lvl, _PC.enabled)

def compiled(args):
    cls = type('sigmac2', (_p.Command,), {'args': args})
    o = cls()
    return [(a.name, a.index, [(k, a.options[k]) for k in sorted(a.options)]) for a in o.arguments]

def scan(tex, method, src):
    lvl = _PC._enablelevel
    tex.input(src)
    v = getattr(tex, method)()
    rest = []
    for t in tex.itertokens():
        if t.nodeType == t.ELEMENT_NODE:
            rest.append('' if t.nodeName == 'relax' else '\\' + t.nodeName)
        elif t.catcode == 0:
            rest.append('' if t.macroName == 'relax' else t.source)
        else:
            rest.append(str(t))
    return (val(v), ''.join(rest), _PC._enablelevel - lvl, type(v).__name__)

def reg(tex, src, name):
    tex.input(src)
    for t in tex:
        pass
    return val(tex.ownerDocument.context[name].value)
'''
A_ARG = ['plasTeX/__init__.py:Macro.arguments', 'plasTeX/__init__.py:Macro.parse', 'plasTeX/TeX.py:TeX.readArgumentAndSource', 'plasTeX/TeX.py:TeX.readToken', 'plasTeX/TeX.py:TeX.readGrouping',
         'plasTeX/TeX.py:TeX.readCharacter', 'plasTeX/TeX.py:TeX.cast', 'plasTeX/TeX.py:TeX.castList', 'plasTeX/TeX.py:TeX.castDictionary', 'plasTeX/TeX.py:TeX.castString', 'plasTeX/TeX.py:TeX.normalize',
         'plasTeX/__init__.py:ParameterCommand.enable', 'plasTeX/__init__.py:ParameterCommand.disable']
A_NUM = ['plasTeX/TeX.py:TeX.readInteger', 'plasTeX/TeX.py:TeX.readDecimal', 'plasTeX/TeX.py:TeX.readDimen', 'plasTeX/TeX.py:TeX.readUnitOfMeasure', 'plasTeX/TeX.py:TeX.readOptionalSigns',
         'plasTeX/TeX.py:TeX.readKeyword', 'plasTeX/TeX.py:TeX.readGlue', 'plasTeX/TeX.py:TeX.readStretch', 'plasTeX/TeX.py:TeX.readShrink', 'plasTeX/__init__.py:dimen', 'plasTeX/__init__.py:glue',
         'plasTeX/TeX.py:TeX.readInternalType']

SETUP = (r'\newcount\ca \ca=7\relax \newcount\cb \cb=-12\relax \newdimen\da \da=3pt\relax \newdimen\db \db=-2.5cm\relax \newskip\sa \sa=2pt plus 4pt minus 1fil\relax \newskip\sb \sb=-1.5pt minus 3fill\relax '
         r'\newcounter{cn}\setcounter{cn}{11}\def\mn{12}\def\mneg{-34}\def\md{2.5}\def\mu{pt}\def\mx{<mx>}\def\mxc{wmx/q}\def\mxx#1{(#1)}\def\mdim{4.5mm}')

PT = 65536.0
IN = 72.27 * PT
UNITS = {'pt': PT, 'pc': 12 * PT, 'in': IN, 'bp': IN / 72, 'cm': IN / 2.54, 'mm': IN / 25.4, 'dd': 1238 / 1157. * PT, 'cc': 12 * 1238 / 1157. * PT, 'sp': 1.0}
REG = {r'\da ': 3 * PT, r'\db ': -2.5 * IN / 2.54}
SKIP = {r'\sa ': (2 * PT, 4 * PT, 2e9 + 1), r'\sb ': (-1.5 * PT, None, 4e9 + 3)}
INTS = [('0', 0), ('7', 7), ('42', 42), ('007', 7), ('1000000', 1000000), ("'17", 15), ("'777", 511), ('"1F', 31), ('"ABC', 2748), ('"10', 16), ('`a', 97), (r'`\a', 97), (r'`\%', 37), (r'`\{', 123), ('`1', 49), ('`+', 43), ('`~', 126),
        (r'`\\', 92), (r'\mn ', 12), (r'\mneg ', -34), (r'1\mn ', 112), (r'\ca ', 7), (r'\cb ', -12), (r'\value{cn}', 11)]
SIGNS = [('', 1), ('-', -1), ('+', 1), ('--', 1), ('-+-', 1), ('- + -', 1), (' - ', -1), ('-+', -1), ('---', -1), ('+ + ', 1)]
DECS = [('1', 1.0), ('0', 0.0), ('2.5', 2.5), ('.5', .5), ('3.', 3.0), ('1,25', 1.25), (',5', .5), ('12.0625', 12.0625), ('100', 100.0), ("'17", 15.0), ('"1F', 31.0), (r'\mn ', 12.0), (r'\md ', 2.5), (r'\ca ', 7.0), (r'\cb ', -12.0)]
DECLIT = DECS[:9]


def close(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(b, range):
        return b.start <= a <= b.stop
    for lo in (2e9, 4e9, 6e9):
        if lo <= abs(b) < lo + 1e9:
            return abs(abs(a) - abs(b)) < 1e-4 * max(1, abs(b) - lo) and (a < 0) == (b < 0)
    return abs(a - b) <= 2.5 + 2e-6 * abs(b)


def same(g, w):
    if isinstance(w, (tuple, list)):
        if not isinstance(g, (tuple, list)) or len(g) != len(w):
            return False
        if w and w[0] in ('f', 'g'):
            return g[0] == w[0] and all(close(x, y) for x, y in zip(g[1:], w[1:]))
        if w and w[0] == 'F':
            return g[0] in ('f', 'i') and close(g[1], w[1])
        return all(same(x, y) for x, y in zip(g, w))
    if isinstance(w, str):
        return isinstance(g, str) and squash(g) == squash(w)
    return type(g) is type(w) and g == w


def squash(s):
    return re.sub(r'\s+', ' ', s).strip()


def nosp(s):
    return re.sub(r'\s+', '', s)


# ------------------------------------------------------------------------------------------------ generator
class G(object):
    """an invocation together with the values it spells"""

    def __init__(self, r):
        self.r, self.n = r, 0

    def word(self):
        self.n += 1
        return '<w%d>' % self.n

    def piece(self, close_, plain):
        """source and text of a piece of content that may not show close_ outside braces"""
        r = self.r
        k = r.random()
        w = self.word()
        if k < .45 or plain == 2:
            return w, w
        if k < .55:
            return r'\mx ', '<mx>'
        if k < .62:
            return r'\mxx{%s}' % w, '(%s)' % w
        if k < .7 and not plain:
            return '{%s}' % w, w
        if k < .76 and close_ and not plain:
            return '{%s%s}' % (close_, w), close_ + w
        if k < .84 and close_ and not plain:
            o = {')': '(', ']': '[', '>': '<'}[close_]
            if o != '<':
                return o + w + close_, o + w + close_
            return w, w
        if k < .9 and not plain:
            return r'\textbf{%s}' % w, w
        return w + ' ', w + ' '

    def content(self, close_, plain=0):
        s = t = ''
        for _ in range(self.r.choice((1, 1, 2, 3))):
            a, b = self.piece(close_, plain)
            if s.endswith('>') and a.startswith('<'):
                s, t = s + '.', t + '.'
            s, t = s + a, t + b
        return s, t

    def num(self):
        r = self.r
        a, s = r.choice(SIGNS)
        b, v = r.choice(INTS)
        return a + b, s * v

    def flt(self):
        a, s = self.r.choice(SIGNS)
        b, v = self.r.choice(DECS)
        if b in (r'\ca ', r'\cb '):
            b, v = '6.25', 6.25
        return a + b, s * v

    def dim(self):
        r = self.r
        a, s = r.choice(SIGNS)
        k = r.random()
        if k < .2:
            d, v = r.choice(list(REG.items()))
            return a + d, s * v
        if k < .3:
            d, v = r.choice(list(REG.items()))
            f, w = r.choice(DECLIT)
            return a + f + d, s * v * w
        if k < .35:
            return a + r'\sa ', s * 2 * PT
        if k < .4:
            return a + r'\mdim ', s * 4.5 * UNITS['mm']
        f, w = r.choice(DECS)
        u = r.choice(list(UNITS))
        t = r.choice(('', '', ' ', 'true', 'true ', ' true ', 'TRUE'))
        U = r.choice((u, u, u.upper()))
        if f in (',5', '.5') and u == 'sp':
            f, w = '3', 3.0
        if f.startswith('"') and (t + U).lstrip()[:1] in 'ABCDEF':
            f, w = '3', 3.0
        return a + f + t + U, s * w * UNITS[u]

    def value(self, typ, close_):
        r = self.r
        if typ in ('int', 'number', 'count'):
            s, v = self.num()
            return s, ('i', v)
        if typ in ('float', 'double'):
            s, v = self.flt()
            return s, ('F', v)
        if typ in ('dimen', 'length', 'dimension'):
            s, v = self.dim()
            return s, ('F', v)
        if typ == 'str':
            s, t = self.content(close_)
            return s, ('s', t)
        if typ == 'nox':
            s, t = self.content(close_, 2)
            return s, ('s', t)
        if typ.startswith('list'):
            p = typ.split(':')
            d = re.search(r'\((.)\)', typ)
            d = d.group(1) if d else ','
            sub = p[1] if len(p) > 1 else ''
            ss, vv = [], []
            for _ in range(r.choice((1, 2, 3, 4))):
                if sub == 'int':
                    s, v = r.choice(INTS[:10] + INTS[19:])
                    v = ('i', v)
                elif sub == 'float':
                    s, v = r.choice(DECLIT)
                    if d == ',' and ',' in s:
                        s, v = '7.5', 7.5
                    v = ('F', v)
                else:
                    s, t = self.content(None, 1)
                    v = ('s', t.strip())
                    if r.random() < .2 and sub != 'str':
                        w = self.word()
                        s, v = '{%s%s%s}' % (s, d, w), ('s', v[1] + d + w) if not s.endswith(' ') else ('s', t + d + w)
                    s = r.choice(('', ' ')) + s + r.choice(('', ' '))
                ss.append(s)
                vv.append(v)
            return d.join(ss), ('l', vv)
        if typ.startswith('dict'):
            ss, vv = [], []
            for _ in range(r.choice((1, 2, 3))):
                k = self.word()
                if r.random() < .2:
                    ss.append(r.choice(('', ' ')) + k)
                    vv.append((k, True))
                    continue
                s, t = self.content(None, 1)
                if r.random() < .15:
                    s, t = '%s=%s' % (s, k), '%s=%s' % (t, k)
                    if '> =' in s:
                        s, t = k, k
                elif r.random() < .2:
                    w = self.word()
                    s, t = '{%s,%s}' % (s, w), '%s,%s' % (t, w)
                ss.append('%s%s%s=%s%s' % (r.choice(('', ' ')), k, r.choice(('', ' ')), r.choice(('', ' ')), s))
                vv.append((k, ('s', t)))
            return ','.join(ss), ('d', vv)
        s, t = self.content(close_)
        return s, ('s', t)

    def invocation(self):
        r = self.r
        args, src, want = [], '', []
        sp = lambda: r.choice(('', '', ' '))
        if r.random() < .3:
            m = r.choice('**+-')
            args.append(m)
            if r.random() < .5:
                src += sp() + m
                want.append(('*modifier*', ('t', m)))
            else:
                want.append(('*modifier*', None))
        n = r.choice((1, 2, 2, 3, 4))
        names = r.sample(['self', 'opt', 'first', 'second', 'third', 'name', 'x', 'text'], n)
        open_opts = set()
        mods = args[0] if args else ''
        for i, name in enumerate(names):
            delim = r.choice(('[]', '[]', '()', '<>', None, None, None))
            self.own = name == 'self'
            last = i == n - 1
            if delim is not None:
                typ = r.choice(('', '', 'str', 'int', 'number', 'float', 'dimen', 'length', 'list', 'list:str', 'dict', 'list(;)', 'list(;):int', 'nox', 'list:int'))
                if name == 'self':
                    typ = ''
                if r.random() < .6 and delim[0] not in open_opts:
                    s, v = self.value(typ, delim[1])
                    if delim[1] in self.naked(s) and typ not in ('', 'str', 'nox'):
                        s = None
                    src0 = src
                    if s is not None:
                        src += sp() + delim[0] + s + delim[1]
                        want.append((name, v))
                        open_opts = set()
                else:
                    s = None
                if s is None:
                    want.append((name, None))
                    open_opts.add(delim[0])
                args.append('%s %s%s %s' % (delim[0], name, ':' + typ if typ else '', delim[1]))
                continue
            typ = r.choice(('', '', '', 'str', 'int', 'number', 'float', 'dimen', 'length', 'list', 'list:str', 'dict', 'list(;):str', 'nox', 'cs', 'Tok', 'Number', 'Dimen', 'Glue', 'list:float', 'MuDimen'))
            if name == 'self':
                typ = ''
            args.append(name + (':' + typ if typ else ''))
            if typ == 'cs':
                k = r.choice('abc')
                src += sp() + r.choice((r'\zz%s ', r'{\zz%s}')) % k
                v = ('t', 'zz' + k)
            elif typ == 'Tok':
                k = r.choice((r'\zza ', 'Q', '7', '!'))
                if src and k in 'Q7!' and not src.endswith(('}', ']', ')', '>', ' ')) or src == '':
                    k = r.choice((r'\zza ', r'\zzb '))
                src += sp() + k
                v = ('t', k.strip().lstrip('\\'))
            elif typ == 'Number':
                s, w = self.num()
                src += (' ' if src and src[-1] not in '}])> ' or not src else '') + s + (r'\relax ' if last else ' ')
                if not last and s.endswith(' '):
                    return self.invocation()
                v = ('i', w)
            elif typ == 'Dimen':
                s, w = self.dim()
                src += ' ' + s + (r'\relax ' if last else ' ')
                v = ('F', w)
            elif typ == 'MuDimen':
                a, q = r.choice(SIGNS)
                f, w = r.choice(DECLIT)
                src += ' ' + a + f + 'mu' + (r'\relax ' if last else ' ')
                v = ('F', q * w)
            elif typ == 'Glue':
                s, v = self.glue()
                src += ' ' + s + (r'\relax ' if last else r' ')
                v = ('g',) + v
            else:
                s, v = self.value(typ, None)
                if typ in ('', 'str') and r.random() < .3:
                    k = r.choice((r'\mx ', 'Q', '7', '!'))
                    if k in 'Q7!' and (not src or src[-1] not in '}]) '):
                        k = r'\mx '
                    s, v = k, ('s', '<mx>' if k[0] == '\\' else k)
                    if not src.endswith('}') and typ == '' and False:
                        pass
                    src += s
                else:
                    src += sp() + '{' + s + '}'
            open_opts = set()
            want.append((name, v))
        if mods and want[0][1] is None and src.lstrip().startswith(mods):
            return self.invocation()
        return ' '.join(args), src, want

    def naked(self, s):
        d = 0
        out = ''
        for c in re.sub(r'<\w+>', 'w', s):
            if c == '{':
                d += 1
            elif c == '}':
                d -= 1
            elif d == 0:
                out += c
        return out

    def glue(self):
        r = self.r
        if r.random() < .25:
            s, v = r.choice(list(SKIP.items()))
            a, q = r.choice(SIGNS)
            return a + s, tuple(None if x is None else q * x for x in v)
        s, v = self.dim()
        if r'\sa' in s:
            s, v = '3pt', 3 * PT
        if s.strip(' +-') in (r'\da', r'\db'):     # coerced: an internal dimension alone is the whole glue
            s, v = s.replace(r'\da', r'1\da').replace(r'\db', r'1\db'), v
        out, res = s, [v]
        for kw in ('plus', 'minus'):
            if r.random() < .6:
                if r.random() < .5:
                    f, w = r.choice(DECLIT)
                    a, q = r.choice(SIGNS)
                    o = r.choice((1, 2, 3))
                    x = q * w
                    res.append(0.0 if x == 0 else (2e9 * o + abs(x)) * (1 if x > 0 else -1))
                    d = a + f + 'fi' + 'l' * o
                else:
                    d, x = self.dim()
                    res.append(x)
                out += r.choice(('', ' ')) + r.choice((kw, kw, kw.upper())) + r.choice(('', ' ')) + d
            else:
                res.append(None)
        return out, tuple(res)


def conc(x):
    """with concrete words"""
    if isinstance(x, str):
        return re.sub(r'<([a-z]\w*)>', lambda mo: 'w' + ''.join(chr(97 + int(c)) if c.isdigit() else c for c in mo.group(1)) + '/q', x.replace(r'\mx ', r'\mxc '))
    if isinstance(x, (tuple, list)):
        return type(x)(conc(y) for y in x)
    return x


def want_sig(want, text, src):
    def check(out, facts):
        if not isinstance(out, tuple) or len(out) != 4 or not isinstance(out[0], list):
            return 'UNDECIDED'
        found, rest, lvl, en = out
        if len(found) != len(want):
            return '%s\n%d invocations are seen instead of %d (text %r)' % (src, len(found), len(want), rest)
        for f, w in zip(found, want):
            if [k for k, v in f] != [k for k, v in w]:
                return '%s\nbinds %s instead of %s' % (src, [k for k, v in f], [k for k, v in w])
            for (k, v), (_, x) in zip(f, w):
                if not same(v, x):
                    return '%s\nargument %s is bound to %r, the invocation spells %r' % (src, k, v, x)
        if text is not None and nosp(rest) != nosp(text):
            return '%s\nleaves %r instead of %r after the invocation' % (src, rest, text)
        if lvl != 0:
            return '%s\nparameter switch changed by %d' % (src, lvl)
        if en is not True:
            return '%s\nparameters left disabled' % src
        return None
    return check


def want_scan(v, rest, typ, src):
    def check(out, facts):
        if not isinstance(out, tuple) or len(out) != 4:
            return 'UNDECIDED'
        if not same(out[0], v):
            return 'reading %s gives %r, in TeX it denotes %r' % (src, out[0], v)
        if squash(out[1]) != squash(rest) or out[1] != rest and typ is None:
            return 'reading %s leaves %r instead of %r' % (src, out[1], rest)
        if out[2] != 0:
            return 'reading %s changes the parameter switch by %d' % (src, out[2])
        return None
    return check


def main(tier):
    C = Check('C05', TITLE)
    C.boot(DRIVER)
    ready = C.prepare(SETUP)
    C.freeze()
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    seen = set()

    def src_of(s):
        return (ready, s) if not isinstance(ready, Broken) else (C.tex, SETUP + s)

    def sig(rule, args, src, want, text, entry='sig', tag=''):
        if re.search(r'(list|dict)(\(.\))?:str', args):
            src, text, want = conc(src), conc(text), conc(want)
        key = (args, src, entry)
        if key in seen:
            return
        seen.add(key)
        t, s = src_of(src)
        C.expect('%s%s: %s | %s' % (rule.split()[0], tag, args, src), rule, A_ARG, entry, [t, args, T(s)], want_sig(want, text, 'signature "%s", invocation %s' % (args, src)))

    def scan(rule, method, src, v, rest, typ=None, term=''):
        if (method, src) in seen:
            return
        seen.add((method, src))
        t, s = src_of(src)
        C.expect('%s: %s %s' % (rule.split()[0], method, src), rule, A_NUM, 'scan', [t, method, T(s)], want_scan(v, rest, typ, src))
    # ---- signature compiler
    TY = {'str': {}, 'int': {}, 'nox': {}, 'cs': {}}
    for args, want in (
            ('self', [('self', {})]), ('* self', [('*modifier*', {'spec': '*'}), ('self', {})]), ('*self', [('*modifier*', {'spec': '*'}), ('self', {})]), ('[ opt ] self', [('opt', {'spec': '[]'}), ('self', {})]),
            ('[opt:int]self:nox', [('opt', {'spec': '[]', 'type': 'int'}), ('self', {'type': 'nox'})]), ('( pos:dimen ) < x:str > y:list(;):int', [('pos', {'spec': '()', 'type': 'dimen'}), ('x', {'spec': '<>', 'type': 'str'}), ('y', {'type': 'list', 'delim': ';', 'subtype': 'int'})]),
            ('name:Tok = value:Number', [('name', {'type': 'Tok'}), ('*equals*', {'spec': '='}), ('value', {'type': 'Number'})]), ('[ a ] [ b:dict ] { c } d:cs', [('a', {'spec': '[]'}), ('b', {'spec': '[]', 'type': 'dict'}), ('c', {'spec': '{}'}), ('d', {'type': 'cs'})]),
            ('+ x:float', [('*modifier*', {'spec': '+'}), ('x', {'type': 'float'})]), ('-   [ x:list:str ]', [('*modifier*', {'spec': '-'}), ('x', {'spec': '[]', 'type': 'list', 'subtype': 'str'})]), ('', []), (' a  b c:str d ', [('a', {}), ('b', {}), ('c', {'type': 'str'}), ('d', {})]),
            ('x1:nox y_2:str', [('x1', {'type': 'nox'}), ('y_2', {'type': 'str'})])):
        w = []
        for i, (n, o) in enumerate(want):
            w.append((n, o))

        def pred(got, facts, w=w, args=args):
            if not isinstance(got, list):
                return 'UNDECIDED'
            g = []
            for i, a in enumerate(got):
                if a[1] != i:
                    return 'argument %s of "%s" has index %r' % (a[0], args, a[1])
                o = {k: v for k, v in a[2] if k in ('spec', 'type', 'subtype', 'delim') and v is not None}
                ex = dict(a[2]).get('expanded')
                if a[0][0] != '*' and bool(ex) != (o.get('type') not in ('nox', 'cs')):
                    return 'argument %s of "%s" has expanded=%r' % (a[0], args, ex)
                g.append((a[0], o))
            if g != w:
                return 'signature "%s" compiles to %s, it declares %s' % (args, g, w)
        C.expect('signature: "%s"' % args, 'a signature declares these arguments', A_ARG[:1], 'compiled', [args], pred)
    # ---- numbers
    for b, v in INTS:
        for a, s in SIGNS:
            scan('integer constants', 'readInteger', a + b + (r'\relax x' if b[-1] != ' ' else r'\relax x'), ('i', s * v), 'x', 't')
        if b[-1] not in ' }':
            scan('integer ended by one space', 'readInteger', b + ' x', ('i', v), 'x')
            if b[0] not in '`':
                scan('integer ended by two spaces', 'readInteger', b + '  x', ('i', v), 'x', 't')
            if b != r'`\a':
                scan('integer ended by a letter', 'readInteger', b + 'zx', ('i', v), 'zx')
            if b[0] != '"' and b != r'`\a':
                scan('integer ended by a letter', 'readInteger', b + 'Ax', ('i', v), 'Ax')
            if b[0] == '"':
                scan('hexadecimal digits are uppercase', 'readInteger', b + 'ax', ('i', v), 'ax')
                scan('hexadecimal ended by G', 'readInteger', b + 'Gx', ('i', v), 'Gx')
            if b[0] == "'":
                scan('octal ended by 8', 'readInteger', b + '8x', ('i', v), '8x')
    for ch in '!?;.:,()[]/*=<>|@bzAZ09':
        scan('integer from a character', 'readInteger', '`%s x' % ch, ('i', ord(ch)), 'x')
    for f, w in DECS:
        for a, s in SIGNS if thorough else SIGNS[:5]:
            if f not in (r'\ca ', r'\cb '):
                scan('decimal constants', 'readDecimal', a + f + r'\relax x', ('F', s * w), 'x', 't')
    # ---- dimensions
    for u, x in UNITS.items():
        for f, w in DECS:
            for a, s in (SIGNS if thorough else SIGNS[:3]):
                if f[0] == '"' and u[0] in 'cdb':
                    continue
                scan('dimension units', 'readDimen', a + f + u + r'\relax x', ('F', s * w * x), 'x', 't')
        for t in ('true', 'true ', ' true ', ' ', '  ', 'TRUE', 'True'):
            scan('dimension with true', 'readDimen', '2.5' + t + u + r'\relax x', ('F', 2.5 * x), 'x', 't')
        scan('dimension in uppercase', 'readDimen', '2.5' + u.upper() + r'\relax x', ('F', 2.5 * x), 'x', 't')
        scan('dimension ended by one space', 'readDimen', '2' + u + ' x', ('F', 2 * x), 'x')
        scan('dimension ended by a letter', 'readDimen', '2' + u + 'x', ('F', 2 * x), 'x')
        scan('dimension unit from a macro', 'readDimen', r'\mn' + ' ' + u + 'x', ('F', 12 * x), 'x', 't')
    scan('dimension unit from a macro', 'readDimen', r'2\mu x', ('F', 2 * PT), 'x', 't')
    for k in (1, 2, 2.5, 10):
        scan('dimension in em', 'readDimen', '%sem x' % k, ('F', range(int(k * 9 * 65536), int(k * 12 * 65536))), 'x', 't')
        scan('dimension in ex', 'readDimen', '%sex x' % k, ('F', range(int(k * 4 * 65536), int(k * 6 * 65536))), 'x', 't')
    for rg, x in list(REG.items()) + [(r'\sa ', 2 * PT), (r'\sb ', -1.5 * PT)]:
        for a, s in SIGNS:
            scan('dimension registers', 'readDimen', a + rg + r'\relax x', ('F', s * x), 'x', 't')
            for f, w in DECLIT:
                scan('multiples of registers', 'readDimen', a + f + rg + r'\relax x', ('F', s * w * x), 'x', 't')
    for rg, x in REG.items():
        scan('multiples of registers', 'readDimen', r'\ca' + rg + r'\relax x', ('F', 7 * x), 'x', 't')
        scan('multiples of registers', 'readDimen', r'\mn' + rg + r'\relax x', ('F', 12 * x), 'x', 't')
    for f, w in DECLIT:
        for a, s in SIGNS[:3]:
            scan('math dimensions', 'readMuDimen', a + f + 'mu x', ('F', s * w), 'x')
    # ---- glue
    r = random.Random('glue%d' % seed)
    for k in range(600 if thorough else 150):
        s, v = G(r).glue()
        scan('glue specifications', 'readGlue', s + r'\relax x', ('g',) + v, 'x', 't')
    for o in (1, 2, 3):
        for f, w in (('1', 1), ('2', 2), ('3', 3), ('.5', .5), ('10', 10), ('-1', -1), ('-2.5', -2.5), ('0', 0)):
            fil = 'fi' + 'l' * o
            e = 0.0 if w == 0 else (2e9 * o + abs(w)) * (1 if w > 0 else -1)
            scan('glue fil orders', 'readGlue', '0pt plus %s%s minus 1pt x' % (f, fil), ('g', 0.0, e, PT), 'x')
            scan('glue fil orders', 'readGlue', '1pt minus %s%s x' % (f, fil), ('g', PT, None, e), 'x')
            scan('glue fil orders', 'readMuGlue', '3mu plus %s%s x' % (f, fil), ('g', 3.0, e, None), 'x')
    for s, v, x in (('1mu plus 2mu minus 3mu', (1.0, 2.0, 3.0), 'x'), ('-1.5mu minus 3mu', (-1.5, None, 3.0), 'x'), ('2mu', (2.0, None, None), 'p')):
        scan('math glue', 'readMuGlue', s + ' ' + x, ('g',) + v, x, 't')
    for s, v, x in (('1pt p', (PT, None, None), 'p'), ('1pt plusx', None, ''), ('1pt pluck', (PT, None, None), 'pluck'), ('1pt minute', (PT, None, None), 'minute'), ('1ptplus2ptminus3pt m', (PT, 2 * PT, 3 * PT), 'm')):
        if v is not None:
            scan('glue keywords', 'readGlue', s, ('g',) + v, x, 't')
    # ---- registers
    for src, name, v in ((r'\cc=12 ', 'cc', ('i', 12)), (r'\cc 12 ', 'cc', ('i', 12)), (r'\cc = -"F\relax ', 'cc', ('i', -15)), (r'\cc=\ca\relax ', 'cc', ('i', 7)), (r'\cc=-\ca\relax ', 'cc', ('i', -7)), (r'\dc=2\da\relax ', 'dc', ('F', 6 * PT)),
                         (r'\dc=-\da\relax ', 'dc', ('F', -3 * PT)), (r'\dc 1in\relax ', 'dc', ('F', IN)), (r'\sc=\sa\relax ', 'sc', ('g',) + SKIP[r'\sa ']), (r'\sc=-\sa\relax ', 'sc', ('g',) + tuple(-x for x in SKIP[r'\sa '])),
                         (r'\sc=\da\relax ', 'sc', ('g', 3 * PT, None, None)), (r'\sc=1pt plus 1fil\relax ', 'sc', ('g', PT, 2e9 + 1, None)), (r'\sc=2\da plus \da minus 2\da\relax ', 'sc', ('g', 6 * PT, 3 * PT, 6 * PT)), (r'\dc=\sa\relax ', 'dc', ('F', 2 * PT))):
        t, s = src_of(r'\newcount\cc \newdimen\dc \newskip\sc ' + src)

        def rp(got, facts, v=v, src=src):
            return None if same(got, v) else ('UNDECIDED' if not isinstance(got, tuple) else 'after %s the register holds %r, in TeX %r' % (src, got, v))
        C.expect('register: %s' % src, 'register assignments', A_NUM, 'reg', [t, T(s), name], rp)
    # ---- directed invocations
    S = lambda t: ('s', t)
    for args, src, want, text in (
            ('self', '{<a>}', [('self', S('<a>'))], ''), ('self', 'Q', [('self', S('Q'))], ''), ('self', '{}', [('self', S(''))], ''), ('a b', '{<a>}{<b>}', [('a', S('<a>')), ('b', S('<b>'))], ''), ('a b', r'QR', None, ''),
            ('a b', ' Q R', [('a', S('Q')), ('b', S('R'))], ''), ('[ o ] a', '{<a>}[<x>]', [('o', None), ('a', S('<a>'))], '[<x>]'), ('[ o ] a', '[<x>]{<a>}', [('o', S('<x>')), ('a', S('<a>'))], ''), ('[ o ] a', ' [<x>] {<a>}', [('o', S('<x>')), ('a', S('<a>'))], ''),
            ('[ o ] a', '[]{<a>}', [('o', S('')), ('a', S('<a>'))], ''), ('[ o ] a', '[{]}]{<a>}', [('o', S(']')), ('a', S('<a>'))], ''), ('[ o ] a', '[<p>[<q>]<r>]{<a>}', [('o', S('<p>[<q>]<r>')), ('a', S('<a>'))], ''),
            ('[ o ] a', '[[<q>]]{<a>}', [('o', S('[<q>]')), ('a', S('<a>'))], ''), ('[ o ] a', '[{[}]{<a>}', [('o', S('[')), ('a', S('<a>'))], ''), ('( o ) a', '((<q>)<r>){<a>}', [('o', S('(<q>)<r>')), ('a', S('<a>'))], ''), ('( o ) a', '({)}<r>){<a>}', [('o', S(')<r>')), ('a', S('<a>'))], ''),
            ('( o ) a', '[<b>]', [('o', None), ('a', S('['))], '<b>]'), ('< o > a', '<<w>>{<a>}', [('o', S('<w>')), ('a', S('<a>'))], ''), ('* a', '*{<a>}', [('*modifier*', ('t', '*')), ('a', S('<a>'))], ''), ('* a', ' * {<a>}', [('*modifier*', ('t', '*')), ('a', S('<a>'))], ''),
            ('* a', '{<a>}*', [('*modifier*', None), ('a', S('<a>'))], '*'), ('* [ o ] a', '[*]{*}', [('*modifier*', None), ('o', S('*')), ('a', S('*'))], ''), ('* [ o ]', '*', [('*modifier*', ('t', '*')), ('o', None)], ''), ('[ o ]', '', [('o', None)], ''), ('[ o ]', ' <x>', [('o', None)], '<x>'),
            ('[ o ] [ p ] a', '[<x>]{<a>}', [('o', S('<x>')), ('p', None), ('a', S('<a>'))], ''), ('[ o ] ( p ) a', '(<x>){<a>}', [('o', None), ('p', S('<x>')), ('a', S('<a>'))], ''), ('a [ o ]', '{<a>}[<x>]', [('a', S('<a>')), ('o', S('<x>'))], ''), ('a [ o ]', '{<a>} [<x>]', [('a', S('<a>')), ('o', S('<x>'))], ''),
            ('a [ o ]', '{<a>} <x>', [('a', S('<a>')), ('o', None)], '<x>'), ('a:cs b', r'\foo{<b>}', [('a', ('t', 'foo')), ('b', S('<b>'))], ''), ('a:cs b', r'{\foo}{<b>}', [('a', ('t', 'foo')), ('b', S('<b>'))], ''), ('a:Tok b:Tok', r'\foo\bar ', [('a', ('t', 'foo')), ('b', ('t', 'bar'))], ''),
            ('a:Tok = b:Tok', r'\foo=\bar ', [('a', ('t', 'foo')), ('*equals*', ('t', '=')), ('b', ('t', 'bar'))], ''), ('a:Tok = b:Tok', r'\foo\bar ', [('a', ('t', 'foo')), ('*equals*', None), ('b', ('t', 'bar'))], ''), ('a:nox', r'{<x>{<y>}}', [('a', S('<x>{<y>}'))], ''),
            ('a:dict', '{<k>=<v>,<l>={<a>,<b>},<flag>}', [('a', ('d', [('<k>', S('<v>')), ('<l>', S('<a>,<b>')), ('<flag>', True)]))], ''), ('a:dict', '{<k>=<v>=<w>}', [('a', ('d', [('<k>', S('<v>=<w>'))]))], ''), ('a:dict', '{ <k> = <v> , <l> }', [('a', ('d', [('<k>', S('<v>')), ('<l>', True)]))], ''),
            ('a:dict', r'{<k>=\textbf{<v>},<l>=<m>,}', [('a', ('d', [('<k>', S('<v>')), ('<l>', S('<m>'))]))], ''), ('a:dict', r'{<k>=,<l>=<m>}', [('a', ('d', [('<k>', S('')), ('<l>', S('<m>'))]))], ''), ('a:dict', r'{<k>=\mx}', [('a', ('d', [('<k>', S('<mx>'))]))], ''), ('a:dict:str', r'{<k>=<v>,<l>={<w>}}', [('a', ('d', [('<k>', S('<v>')), ('<l>', S('<w>'))]))], ''),
            ('[ a:dict ] b', '[<k>={[<v>]},<l>]{<b>}', [('a', ('d', [('<k>', S('[<v>]')), ('<l>', True)])), ('b', S('<b>'))], ''), ('a:str', r'{<a>{<b>}\textbf{<c>}}', [('a', S('<a><b><c>'))], ''), ('a:str', r'{<a>\mx}', [('a', S('<a><mx>'))], ''), ('a:any b', r'<x> {<b>}', None, ''), ('a:Args b:nox', r'#1<x>#2{<b>}', None, ''),
            ('a:list', '{<x>,{<y>,<z>}, <w>}', [('a', ('l', [S('<x>'), S('<y>,<z>'), S('<w>')]))], ''), ('a:list:int', '{1,-2, 3 ,"F}', [('a', ('l', [('i', 1), ('i', -2), ('i', 3), ('i', 15)]))], ''), ('a:list(;):str', '{<x>;<y>,<z>;<w>}', [('a', ('l', [S('<x>'), S('<y>,<z>'), S('<w>')]))], ''),
            ('a:list(-):int', '{2-5}', [('a', ('l', [('i', 2), ('i', 5)]))], ''), ('a:int b:float c:dimen', '{12}{-1.5}{1.5in}', [('a', ('i', 12)), ('b', ('F', -1.5)), ('c', ('F', 1.5 * IN))], ''), ('a:int', r'{\value{cn}}', [('a', ('i', 11))], ''), ('a:dimen', r'{-2\da}', [('a', ('F', -6 * PT))], ''),
            ('a:Number b', r'12 {<b>}', [('a', ('i', 12)), ('b', S('<b>'))], ''), ('= a:Number', r'=12 ', [('*equals*', ('t', '=')), ('a', ('i', 12))], ''), ('= a:Number', r' = 12 ', [('*equals*', ('t', '=')), ('a', ('i', 12))], ''), ('= a:Dimen', r'12pt ', [('*equals*', None), ('a', ('F', 12 * PT))], '')):
        if want is None:
            continue
        if src[:1].isalpha():
            src = ' ' + src
        sig('directed invocations', args, r'<u>\sigmac%s<z>' % src if not src.endswith((' ', ')')) and not (src == '' or src[-1].isalnum()) else r'<u>\sigmac%s <z>' % src, [want], '<u>!%s<z>' % text)
        if src[:1].isalpha():
            src = ' ' + src
        sig('directed invocations', args, r'\sigmac%s' % src + ('' if src.endswith(' ') else ' ') + r'\textbf{<z>}', [want], '!%s<z>' % text)
    # ---- random invocations
    count = 12000 if thorough else 3500
    for k in range(count):
        r = random.Random('%d/%d' % (seed, k))
        g = G(r)
        args, src, want = g.invocation()
        gap = ''
        if not src or src[-1] not in '}])> ':
            gap = ' '
        if src.endswith('>') and not src.endswith('>>'):
            gap = '.' if src[-2] != ' ' else ''
        tail = '<z>'
        k2 = r.random()
        body = r'\sigmac' + ('' if not src or src[0] in ' {[(*+-\\' or src[:1] == '<' and False else ' ') + src
        if src.startswith('<'):
            body = r'\sigmac ' + src
        if k2 < .4:
            sig('random invocations', args, '<u>' + body + gap + tail, [want], '<u>!' + gap + tail, tag=' %d.%d' % (seed, k))
        elif k2 < .55:
            sig('random invocations', args, '{' + body + gap + '}' + tail, [want], '!' + gap + tail, tag=' %d.%d' % (seed, k))
        elif k2 < .7 and '#' not in body:
            sig('random invocations', args, r'\def\qq{%s}<u>\qq ' % (body + gap) + tail, [want], '<u>!' + gap + tail, tag=' %d.%d' % (seed, k))
        elif k2 < .85:
            sig('random invocations', args, r'\textbf{<u>%s<y>}' % (body + gap) + tail, [want], None, entry='build', tag=' %d.%d' % (seed, k))
        else:
            sig('random invocations', args, '<u>' + body + gap + '.' + body + gap + tail, [want, want], '<u>!' + gap + '.!' + gap + tail, tag=' %d.%d' % (seed, k))
    return C.finish(tier)
