"""C11: abstract interpretation of verbatim material and of the source reconstruction of formulas.

Verbatim bodies over the whole printable alphabet and formulas of a math grammar are parsed by the abstract machine; the text of the
verbatim nodes is compared with the text between the delimiters, the source of the formulas, tokenized again, with the tokens written."""
import random
import re
import string

from .core import Broken, Check, T, short

DRIVER = r'''
from plasTeX.DOM import Node

VERB = ('verb', 'verbatim', 'verbatim*')
FORMULA = ('math', 'displaymath', 'equation', 'equation*', 'eqnarray', 'eqnarray*', 'align', 'align*', 'gather', 'gather*', 'multline', 'multline*')


class Scan(object):
    def __init__(self):
        self.verb = []
        self.math = []
        self.other = []

    def node(self, n):
        if n.nodeType == Node.TEXT_NODE:
            self.other.append(str(n))
            return
        if n.nodeName in VERB:
            self.verb.append((str(n.nodeName), n.attributes.get('*modifier*') is not None, str(n.textContent), str(n.source) if n.nodeName == 'verb' else ''))
            return
        if n.nodeName in FORMULA:
            self.math.append((str(n.nodeName), str(n.source), str(n.mathjax_source)))
            self.other.append(' # ')
            return
        if n.nodeName in ('newcommand', 'renewcommand', 'def', 'newenvironment', 'usepackage', 'documentclass', 'DeclareMathOperator', 'label'):
            return
        if n.nodeName == 'emph':
            self.other.append('/')
        if n.attributes:
            for k in n.attributes:
                v = n.attributes[k]
                if k in ('title', 'caption', 'term', 'toc') and v is not None and v is not n.childNodes and hasattr(v, 'childNodes') and v is not n:
                    self.nodes(v.childNodes)
        self.nodes(n.childNodes)

    def nodes(self, ns):
        for c in ns:
            self.node(c)


def scan(tex, src):
    tex.input(src)
    doc = tex.parse()
    s = Scan()
    s.nodes(doc.childNodes)
    return (s.verb, s.math, ''.join(s.other))
'''
VANCH = ['plasTeX/__init__.py:VerbatimEnvironment.invoke', 'plasTeX/Context.py:Context.setVerbatimCatcodes', 'plasTeX/__init__.py:NoCharSubEnvironment.normalize']
BANCH = ['plasTeX/Base/LaTeX/Verbatim.py:verb.invoke', 'plasTeX/Base/LaTeX/Verbatim.py:verb.digest', 'plasTeX/Base/LaTeX/Verbatim.py:verb.normalize']
MANCH = ['plasTeX/__init__.py:Macro.source', 'plasTeX/__init__.py:sourceChildren', 'plasTeX/__init__.py:sourceArguments', 'plasTeX/__init__.py:Macro.parse',
         'plasTeX/Base/LaTeX/Math.py:math', 'plasTeX/Base/LaTeX/Math.py:displaymath', 'plasTeX/Base/LaTeX/Math.py:mathjax_lt_gt',
         'plasTeX/Base/TeX/Primitives.py:MathShift.invoke', 'plasTeX/Base/LaTeX/Arrays.py:Array.source', 'plasTeX/Tokenizer.py:EscapeSequence.source']

TOK = re.compile(r'\\[A-Za-z]+|\\.|\S', re.S)


def toks(s):
    return [re.sub(r'\s', ' ', t) for t in TOK.findall(s)]


def squeeze(s):
    return re.sub(r'\s+', ' ', s).strip()


# ------------------------------------------------------------------ math grammar
MACROS = r'''\newcommand{\R}{\mathbb{R}}\newcommand{\norm}[1]{\left\|#1\right\|}\newcommand{\der}[2]{\frac{d#1}{d#2}}\newcommand{\opt}[2][n]{x_{#1}^{#2}}
\newcommand{\nest}[1]{\norm{\der{#1}{t}}}\def\dlm#1.{{#1}^2}\DeclareMathOperator{\rank}{rank}\newcommand{\bpm}{\begin{pmatrix}}\newcommand{\epm}{\end{pmatrix}}
\newenvironment{mat}[1]{\left(\begin{array}{#1}}{\end{array}\right)}\newcommand{\tx}[1]{\text{ #1 }}\newcommand{\sq}{^{2}}\newcommand{\E}[1][]{\mathrm{E}_{#1}}\let\al\alpha
\newcommand{\be}{\begin{equation}}\newcommand{\ee}{\end{equation}}\newcommand{\half}{\frac12}\newcommand{\set}[1]{\{\,#1\,\}}\newcommand{\abs}[1]{|#1|}'''
ATOMS = ['a', 'x', 'Y', '1', '27', '3.5', '\\alpha ', '\\beta ', '\\infty ', '\\Gamma', '\\%', '\\$', '\\#', '\\_', '\\&', "x'", "f''", 'n!', '(', ')', '[', ']', '|', '\\|', '/', '\\{', '\\}', '\\ldots ', '\\dots', '\\emptyset ', '\\hbar', '\\langle ',
         '\\rangle', '\\nabla ', '\\partial', '\\forall ', '\\vert ', '"', '`', '@', '\\ell']
OPS = ['+', '-', '=', '<', '>', ' < ', ' > ', ',', ';', ':', '*', '\\leq ', '\\geq', '\\times ', '\\cdot', '\\to ', '\\in ', '\\,', '\\;', '\\!', '\\:', '\\>', '\\ ', '~', '\\quad ', '\\qquad', '\\not= ', '\\neq ', '\\mid', '\\colon ', '\\equiv', '\\ll ', '\\gg ', '--', '.', '?',
       '\n', ' %% comment $ }\n', '\\mapsto ', '\\cup ', '\\setminus', '\\circ ', '\\limits'][:-1]
UN = ['\\sqrt', '\\hat', '\\bar', '\\vec', '\\tilde', '\\dot', '\\ddot', '\\widehat', '\\overline', '\\underline', '\\mathbf', '\\mathrm', '\\mathcal', '\\mathbb', '\\mathsf', '\\mathit', '\\mathtt', '\\operatorname', '\\boldsymbol', '\\phantom', '\\boxed', '\\pmod',
      '\\overbrace', '\\underbrace', '\\overrightarrow', '\\dddot', '\\mathop', '\\mathfrak', '\\widetilde', '\\acute', '\\breve', '\\vphantom']
BIN = ['\\frac', '\\dfrac', '\\tfrac', '\\binom', '\\stackrel', '\\overset', '\\underset', '\\cfrac']
BIG = ['\\sum', '\\int', '\\prod', '\\bigcup', '\\lim', '\\max', '\\iint', '\\sup']
BOXES = ['\\text{%s}', '\\mbox{%s}', '\\textbf{%s}', '\\textrm{%s}', '\\hbox{%s}', '\\fbox{%s}', '\\makebox[2cm]{%s}', '\\textit{%s}', '\\raisebox{2pt}{%s}', '\\parbox{2cm}{%s}', '\\framebox[1cm][l]{%s}', '\\textsf{%s}', '\\texttt{%s}']
DELIM = [('(', ')'), ('[', ']'), ('\\{', '\\}'), ('|', '|'), ('\\langle ', '\\rangle '), ('.', '|'), ('\\lfloor', '\\rfloor'), ('(', ']'), ('\\|', '\\|'), ('\\lbrace ', '.'), ('/', '.')]
MATRICES = ['pmatrix', 'matrix', 'bmatrix', 'Bmatrix', 'vmatrix', 'Vmatrix', 'smallmatrix', 'cases', 'aligned', 'gathered', 'split']
FORMATS = {'$': ('$%s$', '$', '$', '\\(', '\\)', 'math'), '(': ('\\(%s\\)', '$', '$', '\\(', '\\)', 'math'), '[': ('\\[%s\\]', '\\[', '\\]', '\\[', '\\]', 'displaymath'),
           '$$': ('$$%s$$', '\\[', '\\]', '\\[', '\\]', 'displaymath')}
for _e in ('equation', 'equation*', 'eqnarray', 'eqnarray*', 'align', 'align*', 'gather', 'gather*', 'multline', 'multline*'):
    FORMATS[_e] = ('\\begin{%s}%%s\\end{%s}' % (_e, _e), '\\begin{%s}' % _e, '\\end{%s}' % _e, '\\begin{%s}' % _e, '\\end{%s}' % _e, _e)


class M(object):
    """formulas as (source, expansion)"""

    def __init__(self, seed=0):
        self.r = random.Random(seed)
        self.cell = 0

    def br(self, p):
        return '{%s}' % p[0], '{%s}' % p[1]

    def atom(self):
        a = self.r.choice(ATOMS)
        if self.cell and re.search('[`\'"]', a):
            # (see the family celllig)
            a = 'z'
        return a, a

    def small(self):
        a = self.r.choice(['a', '2', 'x', '\\alpha ', '\\beta ', 'n', '\\infty '])
        return a, a

    def f(self, depth):
        """a sequence of terms"""
        n = self.r.randint(1, 3)
        out = ['', '']
        for i in range(n):
            if i and self.r.random() < .7:
                o = self.r.choice(OPS)
                if self.cell and '--' in o:
                    o = '-'
                p = o, re.sub(r'%.*\n', '', o)
                out[0] += p[0]
                out[1] += p[1]
            s, e = self.term(depth)
            if re.search(r'\\[A-Za-z]+$', out[0]) and s[:1].isalpha():
                out[0] += ' '
            if re.search(r'\\[A-Za-z]+$', out[1]) and e[:1].isalpha():
                out[1] += ' '
            out[0] += s
            out[1] += e
        return tuple(out)

    KINDS = ['atom', 'scripts', 'un', 'bin', 'big', 'box', 'delim', 'array', 'matrix', 'group', 'macro', 'over', 'root', 'decl', 'big2', 'sub', 'unb', 'sub1']

    def term(self, depth, kind=None):
        r = self.r
        k = kind or (r.choice(self.KINDS) if depth > 0 else 'atom')
        g = lambda: self.f(depth - 1)
        if k == 'atom':
            return self.atom()
        if k == 'group':
            return self.br(g())
        if k in ('sub', 'sub1'):
            b = r.choice(['x', 'A', '\\alpha', '{}', '\\Gamma ', ')', '\\}', '\\rangle', '2'])
            m = r.choice('^_')
            a = self.br(g()) if k == 'sub' else self.small()
            return b + m + a[0], b + m + a[1]
        if k == 'scripts':
            b = self.term(depth - 1, r.choice(['atom', 'group', 'atom', 'macro0'])) if r.random() < .8 else ('', '')
            if b[0][-1:] == "'" or b[0][-1:] in '`"':
                b = ('x', 'x')
            x, y = (self.br(g()) if r.random() < .6 else self.small()), (self.br(g()) if r.random() < .6 else self.small())
            o = r.choice([('^', '_'), ('_', '^')])
            return b[0] + o[0] + x[0] + o[1] + y[0], b[1] + o[0] + x[1] + o[1] + y[1]
        if k == 'un':
            c, a = r.choice(UN), self.br(g())
            tail = ('', '')
            if 'brace' in c:
                t = self.br(g())
                tail = (('^' if 'over' in c else '_') + t[0], ('^' if 'over' in c else '_') + t[1])
            return c + a[0] + tail[0], c + a[1] + tail[1]
        if k == 'unb':
            c, a = r.choice(['\\sqrt ', '\\hat ', '\\mathbf ', '\\bar', '\\mathcal ', '\\overline ']), r.choice(['1', '\\alpha ', 'x'])
            if c[-1] != ' ' and a[0].isalpha():
                c += ' '
            return c + a, c + a
        if k == 'bin':
            c, a, b = r.choice(BIN), self.br(g()), self.br(g())
            if r.random() < .2:
                a, b = ('1', '1'), r.choice([('2', '2'), b])
            return c + a[0] + b[0], c + a[1] + b[1]
        if k == 'root':
            a, b = g(), self.br(g())
            if re.search(r'[][]', a[0]):
                a = ('3', '3')
            return '\\sqrt[%s]%s' % (a[0], b[0]), '\\sqrt[%s]%s' % (a[1], b[1])
        if k == 'big':
            c, a, b = r.choice(BIG), self.br(g()), self.br(g())
            l = r.choice(['', '\\limits', '\\nolimits'])
            return c + l + '_' + a[0] + '^' + b[0], c + l + '_' + a[1] + '^' + b[1]
        if k == 'big2':
            a = g()
            c = r.choice([('\\big', '\\Big'), ('\\bigl', '\\bigr'), ('\\Biggl', '\\Biggr')])
            d = r.choice([('(', ')'), ('[', ']'), ('|', '|'), ('\\{', '\\}')])
            return c[0] + d[0] + a[0] + c[1] + d[1], c[0] + d[0] + a[1] + c[1] + d[1]
        if k == 'delim':
            d, a = r.choice(DELIM), g()
            l = d[0] + (' ' if d[0][-1:].isalpha() and a[0][:1].isalpha() else '')
            l1 = d[0] + (' ' if d[0][-1:].isalpha() and a[1][:1].isalpha() else '')
            return '\\left%s%s\\right%s' % (l, a[0], d[1]), '\\left%s%s\\right%s' % (l1, a[1], d[1])
        if k == 'over':
            a, b = g(), g()
            c = r.choice(['\\over ', '\\choose ', '\\atop '])
            return '{%s %s%s}' % (a[0], c, b[0]), '{%s %s%s}' % (a[1], c, b[1])
        if k == 'decl':
            a = g()
            c = r.choice(['\\bf ', '\\rm ', '\\displaystyle ', '\\textstyle ', '\\it ', '\\cal ', '\\scriptstyle '])
            return '{%s%s}' % (c, a[0]), '{%s%s}' % (c, a[1])
        if k == 'box':
            c = r.choice(BOXES)
            inner = ['', '']
            for i in range(r.randint(1, 3)):
                if r.random() < .45 and depth > 0:
                    a = self.f(depth - 1)
                    d = r.choice([('$', '$'), ('\\(', '\\)')])
                    inner[0] += ' ' + d[0] + a[0] + d[1]
                    inner[1] += ' $' + a[1] + '$'
                else:
                    w = r.choice([' if', ' for all', ' a-b', ' x, y', '  two', ' \\emph{so}', ' \\textbf{as}', ' {g}', ' p\\_q', ' 50\\%', ' {\\bf b}', ' a < b'])
                    inner[0] += w
                    inner[1] += w
            return c % inner[0], c % inner[1]
        if k in ('array', 'matrix'):
            nr, nc = r.randint(1, 3), r.randint(1, 3)
            if k == 'array':
                spec = '{%s}' % ''.join(r.choice(['c', 'l', 'r', '|c', 'c|', '@{}l']) for _ in range(nc))
                pos = r.choice(['', '', '[t]', '[b]'])
                b, e = '\\begin{array}' + pos + spec, '\\end{array}'
                nl = ['\\\\', '\\\\ ', '\\\\\n', '\\\\[2pt] ', '\\\\\\hline ', '\\\\ \\hline\\hline ', '\\\\ \\cline{1-1} ', '\\\\*']
            else:
                env = r.choice(MATRICES)
                b, e = '\\begin{%s}' % env, '\\end{%s}' % env
                nl = ['\\\\', '\\\\ ', '\\\\\n', '\\\\[2pt] ']
                nc = 2 if env in ('cases', 'split', 'aligned') else 1 if env == 'gathered' else nc
            out = [b, b]
            self.cell += 1
            for i in range(nr):
                if i:
                    s = r.choice(nl)
                    out[0] += s
                    out[1] += s
                for j in range(nc):
                    # (rows of empty cells at the end are dropped)
                    a = g() if r.random() < .9 or j == 0 else ('', '')
                    if a[0][:1] in ('[', '*'):
                        a = ('0', '0')
                    s = r.choice(['&', ' & ']) if j else ' '
                    out[0] += s + a[0]
                    out[1] += s + a[1]
            self.cell -= 1
            return out[0] + e, out[1] + e
        if k == 'macro0':
            return r.choice([('\\R', '\\mathbb{R}'), ('\\rank ', '\\operatorname{rank}'), ('\\al ', '\\alpha '), ('\\half ', '\\frac12'), ('\\E ', '\\mathrm{E}_{}')])[:2] if r.random() < .8 else ('x', 'x')
        if k == 'macro':
            c = r.randint(0, 11)
            a = g()
            if c == 0:
                return '\\norm{%s}' % a[0], '\\left\\|%s\\right\\|' % a[1]
            if c == 1:
                b = g()
                return '\\der{%s}{%s}' % (a[0], b[0]), '\\frac{d%s}{d%s}' % (a[1], b[1])
            if c == 2:
                return '\\opt{%s}' % a[0], 'x_{n}^{%s}' % a[1]
            if c == 3:
                b = g()
                if re.search(r'[][]', b[0]):
                    b = ('k', 'k')
                return '\\opt[%s]{%s}' % (b[0], a[0]), 'x_{%s}^{%s}' % (b[1], a[1])
            if c == 4:
                return '\\nest{%s}' % a[0], '\\left\\|\\frac{d%s}{dt}\\right\\|' % a[1]
            if c == 5:
                if '.' in a[0] or '\\dlm' in a[0]:
                    a = ('y', 'y')
                return '\\dlm 0%s.' % a[0], '{0%s}^2' % a[1]
            if c == 6:
                self.cell += 1
                a, b = g(), g()
                self.cell -= 1
                a = ('0', '0') if a[0][:1] in '[*' else a
                return '\\bpm %s&%s\\epm ' % (a[0], b[0]), '\\begin{pmatrix} %s&%s\\end{pmatrix}' % (a[1], b[1])
            if c == 7:
                self.cell += 1
                a, b = g(), g()
                self.cell -= 1
                return '\\begin{mat}{c|c}%s&%s\\end{mat}' % (a[0], b[0]), '\\LB\\left(\\begin{array}{c|c}%s&%s\\end{array}\\right)\\RB ' % (a[1], b[1])
            if c == 8:
                return '\\tx{if $%s$ then}' % a[0], '\\text{ if $%s$ then }' % a[1]
            if c == 9:
                return 'x\\sq +' + a[0], 'x^{2}+' + a[1]
            if c == 10:
                return '\\set{%s}' % a[0], '\\{\\,%s\\,\\}' % a[1]
            return '\\abs{%s}\\E[%s]' % (a[0], 'X'), '|%s|\\mathrm{E}_{X}' % a[1]
        raise AssertionError(k)

    def rows(self, env, depth):
        """body of a formula environment"""
        out = ['', '']
        n = self.r.randint(1, 3)
        cols = {'eqnarray': 3, 'align': self.r.choice([2, 4])}.get(env.rstrip('*'), 1)
        for i in range(n):
            if i:
                s = self.r.choice(['\\\\', '\\\\ ', '\\\\[2pt] ', '\\nonumber\\\\ ', '\\\\\n'])
                out[0] += s
                out[1] += s
            for j in range(cols):
                a = self.f(depth)
                if a[0][:1] in ('[', '*'):
                    a = ('0', '0')
                if j:
                    out[0] += ' & '
                    out[1] += ' & '
                if re.search(r'\\[A-Za-z]+$', out[0]):
                    out[0] += ' '
                    out[1] += ' '
                out[0] += a[0]
                out[1] += a[1]
        return tuple(out)

    def formula(self, fmt, depth):
        self.cell += is_rows(fmt)
        p = self.rows(fmt, depth) if fmt.rstrip('*') in ('eqnarray', 'align', 'gather', 'multline') else self.f(depth)
        self.cell -= is_rows(fmt)
        return formula(fmt, p)


def is_rows(fmt):
    return fmt.rstrip('*') in ('eqnarray', 'align', 'gather', 'multline') or fmt == 'equation*'


def formula(fmt, p):
    t, b, e, mb, me, name = FORMATS[fmt]
    want = toks(b) + toks(p[1]) + toks(e)
    mj = [{'<': '\\lt', '>': '\\gt'}.get(x, x) for x in toks(mb) + toks(p[1]) + toks(me)]
    return t % p[0], (name, want, mj)


def diff(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return 'computed ...%s, prescribed ...%s' % (' '.join(a[max(0, n - 4):n + 6]), ' '.join(b[max(0, n - 4):n + 6]))


def match(a, b, i=0, j=0):
    """the braces of the group that an environment forms may be written or not"""
    while j < len(b):
        if b[j] in ('\\LB', '\\RB'):
            if i < len(a) and a[i] == ('{' if b[j] == '\\LB' else '}') and match(a, b, i + 1, j + 1):
                return True
            j += 1
            continue
        if i >= len(a) or a[i] != b[j]:
            return False
        i += 1
        j += 1
    return i == len(a)


def want_math(ms, text):
    def pred(out, facts):
        verb, math, other = out
        if len(math) != len(ms):
            return '%d formulas instead of %d: %s' % (len(math), len(ms), short([x[1] for x in math], 400))
        for (name, src, mj), (wn, ws, wm) in zip(math, ms):
            if name != wn:
                return 'formula %s is a %s instead of a %s' % (src, name, wn)
            if not match(toks(src), ws):
                return 'source of the formula %r: %s' % (src, diff(toks(src), ws))
            if not match(toks(mj), wm):
                return 'source for MathJax %r: %s' % (mj, diff(toks(mj), wm))
        if text is not None and re.sub(r'\s', '', other) != re.sub(r'\s', '', text):
            return 'text around the formula: computed %r, prescribed %r' % (squeeze(other), squeeze(text))
    return pred


def want_verb(vs, text):
    def pred(out, facts):
        verb, math, other = out
        if len(verb) != len(vs):
            return '%d verbatim nodes instead of %d: %s' % (len(verb), len(vs), short([x[2] for x in verb], 400))
        for (name, star, body, src), (wn, ws, wb, wsrc) in zip(verb, vs):
            if (name, star) != (wn, ws):
                return 'node %r instead of %r' % ((name, star), (wn, ws))
            if body != wb:
                return 'content %r of %s instead of %r' % (body, name, wb)
            if name == 'verb' and src != wsrc:
                return 'source %r instead of %r' % (src, wsrc)
        if re.sub(r'\s', '', other) != re.sub(r'\s', '', text):
            return 'text around the verbatim material: computed %r, prescribed %r' % (squeeze(other), squeeze(text))
    return pred


RULE = {'char': 'verbatim environments holding every character in every position', 'marker': 'bodies with pieces of an end of the environment', 'body': 'random verbatim bodies',
        'verb': '\\verb with every delimiter', 'verbchar': '\\verb holding every character', 'ctx': 'verbatim material in every construct',
        'atom': 'every symbol and every kind of subformula, in every kind of formula', 'formula': 'random formulas', 'celllig': 'primes, quotes and dashes in the cells of arrays', 'cellarg': 'primes, quotes and dashes in arguments and groups in the cells of arrays', 'mctx': 'formulas inside of text arguments and environments'}
DOC = '\\begin{document}%s\\end{document}'
TAIL = ' A%%c\n\\emph{B}  C``D\'\''
TAILTEXT = ' A/B C\u201cD\u201d'


def main(tier):
    C = Check('C11', 'abstract interpretation of documents with verbatim material and formulas; content and reconstructed source compared with what was written')
    C.boot(DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.amsmath'])
    tex1 = C.prepare('\\documentclass{article}')
    tex2 = C.prepare('\\documentclass{article}\\usepackage{amsmath}' + MACROS)
    if isinstance(tex1, Broken) or isinstance(tex2, Broken):
        # fails in every obligation, then
        tex1 = tex2 = C.tex
    C.freeze()
    thorough = tier == 'thorough'
    chars = string.printable[:95] + '\n\t\u00e9'

    def vdoc(fam, id, parts, anch, tail=True):
        src, vs, text = '', [], ''
        for p in parts:
            if isinstance(p, str):
                src += p
                text += p
            else:
                src += p[0]
                vs.extend(p[1])
                text += p[2] if len(p) > 2 else ' '
        C.expect('%s: %s' % (fam, id), RULE[fam], anch, 'scan', [tex1, DOC % ('w ' + src + TAIL.replace('%%', '%'))], want_verb(vs, 'w ' + text + TAILTEXT),
                 max_steps=100000000, time_limit=120)

    def env(body, star=''):
        return ('\\begin{verbatim%s}%s\\end{verbatim%s}' % (star, body, star), [('verbatim' + star, False, body, '')])

    def vb(body, d, star=''):
        s = '\\verb' + star + d + body + d
        return (s, [('verb', bool(star), body, s)], '')

    rnd = random.Random(3)
    for c in chars:
        name = 'U%04X' % ord(c)
        bodies = [c, '\n' + c + '\n', '\n' + c + c + '\n', '\na' + c + '\nb', '\n' + c + '\n\n' + c, c + ' ' + c + '  ' + c, '\\' + c + 'x', '%' + c, '^^' + c, '^^' + c + c + '1', c + '%', c + '{' + c + '}', '\n  ' + c + c + c + '\n ', '$' + c + '$',
                  c + '\\end', c + '\\end{verbatim', '\\end{verbatim' + c, '\\end{verbatim' + c + '}', '\\end{' + c + 'verbatim}', '\\end' + c + '{verbatim}', '\\' + c + 'end{verbatim}', '\\endverbatim' + c]
        for star in ('', '*'):
            bs = [b for b in bodies if '\\end{verbatim%s}' % star not in b]
            if not star:
                for i in range(0, len(bs), 6):
                    vdoc('char', '%s-%d' % (name, i), [x for b in bs[i:i + 6] for x in (env(b), ' z ')], VANCH)
            else:
                vdoc('char', name + '-star', [x for b in bs[::1 if thorough else 2] for x in (env(b, star), ' z ')], VANCH)
    for i, b in enumerate(['\\end{verbatim', '\\end {verbatim}', '\\end{verbatim }', '\\end{ verbatim}', '\\\\end{verbatim', '\\END{verbatim}', '\\end{verbatim*}', '\\begin{verbatim}', '\\begin{verbatim}\\end{verbatim', '\\endverbatim', '\\end\n{verbatim}', '\\end%\n{verbatim}',
                           '\\end{verb}atim}', 'end{verbatim}', '\\en\\end{verbatim', '\\end{verbatim\\end{verb', '\\end{document}', '\\end{itemize}', '\\verb|\\end{verbati|', '\\end{\nverbatim}', '\\end{verbatim\n}', '{\\end', '\\end{verbatimm}', '\\ end{verbatim}', '\\end(verbatim)', '\\endverbatim*', '', '\n', '\n\n\n', ' ', '\t']):
        vdoc('marker', str(i), [env(b), ' z '], VANCH)
        vdoc('marker', '%d-lines' % i, [env('\n' + b + '\n\n ' + b + '\n'), ' z '], VANCH)
        if '{verbatim*}' not in b:
            vdoc('marker', '%d-star' % i, [env(b, '*'), ' z '], VANCH)
    pieces = list(string.punctuation) * 2 + ['a', 'b ', ' ', '  ', '\n', '\n\n', '--', '---', "''", '``', '^^', '^^M', '^^5c', '\\\\', '\\par ', '\\emph{x}', '%c\n', '\\begin{itemize}', '\\end', '\\end{', '\\verb+', '\\fi', '\\input{x}', '\u00e9', '\u03b1', '?`', '!`', '"a', 'fi', '<<', '>>', '\t', '\\q{a}', '#1', '\\item']
    for i in range(400 if thorough else 60):
        bs = [''.join(rnd.choice(pieces) for _ in range(rnd.randint(1, 25))) for _ in range(2)]
        if any('\\end{verbatim' in b for b in bs):
            continue
        vdoc('body', str(i), [env(bs[0], '*' * (i % 2)), ' y ', env(bs[1], '*' * (i % 3 == 0)), ' z '], VANCH)
    # \verb
    full = ''.join(c for c in string.printable[:95]) + "``''---^^M  ^^"
    for d in string.punctuation + string.digits + '\u00e9':
        if d == '{':
            continue
        b = full.replace(d, '')
        bodies = [b, 'x', '', '\\', '%', ' ', '}', '{', b[::-1]]
        # (TeX itself takes ^^x behind the command for a character)
        bodies = [x for x in bodies if d not in x and (x or d != '^')]
        for star in ('', '*'):
            if d == '*' and not star:
                continue
            vdoc('verb', 'U%04X%s' % (ord(d), star), [x for y in bodies for x in (vb(y, d, star), ' z ')], BANCH)
    for c in string.printable[:95] + '\u00e9':
        for star in ('', '*'):
            d = '|' if c != '|' else '+'
            vdoc('verbchar', 'U%04X%s' % (ord(c), star), [x for y in (c, c + c, c + c + c, 'a' + c, c + 'a', '\\' + c, '%' + c, ' ' + c + ' ', '^^' + c, c + '1') if d not in y for x in (vb(y, d, star), 'z')], BANCH)
    B = '\n  a\\b{c}%d  e\n\n\n f$g&h#i~^^M `` --- \'\' "x"  \n'
    b1 = 'a\\b{c}%d  e f$g&h#i~^^M `` --- \'\' "x" <b>'
    for star in ('', '*'):
        V, W = env(B, star), vb(b1, '|', star)
        for nm, P in (('env', V), ('verb', W)):
            for k, pre, post, text in (('item', '\\begin{itemize}\\item x ', ' y\\item z\\end{itemize}', 'x %s yz'), ('first', '\\begin{enumerate}\\item ', '\\end{enumerate}', '%s'), ('term', '\\begin{description}\\item[x] ', '\\end{description}', 'x%s'), ('quote', '\\begin{quote}', '\\end{quote}', '%s'),
                                       ('section', '\\section{x}', '\\section{y}', 'x%sy'), ('cell', '\\begin{tabular}{ll}p & ', '\\\\ q\\end{tabular}', 'p %s q'), ('par', 'a\n\n', '\n\nb\n\n', 'a %s b '), ('group', '{\\bf q ', '}', 'q %s'), ('center', '\\begin{center}', '\\end{center}', '%s'),
                                       ('figure', '\\begin{figure}', '\\end{figure}', '%s'), ('decl', '\\itshape ', ' n', '%s n'), ('theorem', '\\newtheorem{th}{Th}\\begin{th}', '\\end{th}', 'Th%s'), ('minipage', '\\begin{minipage}{3cm}', '\\end{minipage}', '%s'),
                                       ('newenv', '\\newenvironment{q}{A}{ B}\\begin{q} ', '\\end{q}', 'A %s B'), ('nested', '\\begin{itemize}\\item\\begin{quote}', '\\end{quote}\\end{itemize}', '%s'), ('math', '$x$ ', '$y$', ' # %s # '), ('verb', '\\begin{itemize}\\item x\\end{itemize}', ' c', 'x%s c'),
                                       ('list2', '\\begin{enumerate}\\item a\\begin{itemize}\\item ', '\\end{itemize}\\item b\\end{enumerate}', 'a%sb'), ('cell2', '\\begin{tabular}{|l|}\\hline ', '\\\\ \\hline\\end{tabular}', '%s'), ('catcode', '\\catcode`\\|=12 ', ' d', '%s d'), ('sloppy', '{\\catcode`\\#=12 #', '#}', '#%s#')):
                sep = ' ' if nm == 'env' else ''
                t = text % sep
                vdoc('ctx', '%s-%s%s' % (k, nm, star), [(pre + P[0] + post, P[1], t)], VANCH + BANCH)
            vdoc('ctx', 'twice-%s%s' % (nm, star), [P, 'x', P, 'y'], VANCH + BANCH)
            vdoc('ctx', 'mixed-%s%s' % (nm, star), [V, 'x', W, 'y', V], VANCH + BANCH)
            vdoc('ctx', 'adjacent-%s%s' % (nm, star), [P, P, P], VANCH + BANCH)

    # ------------------------------------------------ formulas
    def mdoc(fam, id, parts, text='auto'):
        src, ms, tx = '', [], ''
        for p in parts:
            if isinstance(p, str):
                src += p
                tx += p
            else:
                src += p[0]
                ms.append(p[1])
                tx += ' # '
        C.expect('%s: %s' % (fam, id), RULE[fam], MANCH, 'scan', [tex2, DOC % ('w ' + src + ' z')], want_math(ms, None if text is None else 'w ' + (tx if text == 'auto' else text) + ' z'), max_steps=100000000, time_limit=120)

    fmts = list(FORMATS)
    kinds = {'atom%d' % i: (lambda m, a=a: (a, a)) for i, a in enumerate(ATOMS)}
    kinds.update({'op%d' % i: (lambda m, o=o: ('x' + o + 'y', 'x' + re.sub(r'%.*\n', '', o) + 'y')) for i, o in enumerate(OPS)})
    kinds.update({'un%d' % i: (lambda m, c=c: ('%s{x<y}z%s a' % (c, c), '%s{x<y}z%s a' % (c, c))) for i, c in enumerate(UN)})
    kinds.update({'bin%d' % i: (lambda m, c=c: ('%s{x}{y}z%s12z%s{%s ab}{c}' % (c, c, c, c),) * 2) for i, c in enumerate(BIN)})
    kinds.update({'big%d' % i: (lambda m, c=c: ('%s_{i=1}^n x_i %s^{x}_y %s\\limits_{x\\to 0}f' % (c, c, c),) * 2) for i, c in enumerate(BIG)})
    kinds.update({'box%d' % i: (lambda m, c=c: ((c % 'if $x<1$ and \\(y\\) or') + '^2_{' + (c % '$a$') + '}', (c % 'if $x<1$ and $y$ or') + '^2_{' + (c % '$a$') + '}')) for i, c in enumerate(BOXES)})
    kinds.update({'delim%d' % i: (lambda m, d=d: ('\\left%s\\frac{a}{b}\\right%s^2 \\left%s c_{i}\\right%s' % (d + d),) * 2) for i, d in enumerate(DELIM)})
    kinds.update({'matrix%d' % i: (lambda m, e=e: ('\\begin{%s} a & b<c \\\\ c_1 & d^2 \\\\ e & \\end{%s}_{2}' % (e, e),) * 2) for i, e in enumerate(MATRICES)})
    m = M(1)
    for i, k in enumerate(kinds):
        p = kinds[k](m)
        sel = fmts if thorough else [fmts[i % len(fmts)], fmts[(i * 5 + 3) % len(fmts)], '$']
        sel = list(dict.fromkeys(sel))
        if k.startswith('atom') and re.search('[`\'"]', p[0]) or '--' in p[0]:
            sel = [f for f in sel if not is_rows(f)]
        if k.startswith('matrix') or 'op' in k:
            sel = [f for f in sel if f.rstrip('*') not in ('eqnarray', 'align', 'gather', 'multline')]
        mdoc('atom', k, [x for f in sel for x in (formula(f, p), ' v ')])
    for k in M.KINDS:
        for f in fmts:
            if f.rstrip('*') in ('gather', 'multline') and not thorough:
                continue
            fs = []
            m.cell += is_rows(f)
            for i in range(3):
                fs += [formula(f, m.term(2, k)), ' v ']
            m.cell -= is_rows(f)
            mdoc('atom', '%s-%s' % (k, f), fs)
    # primes and dashes in the cells of arrays
    for f in [f for f in fmts if is_rows(f)] + ['array'] + MATRICES:
        for x in ("x'", "f''", '`', '--') if thorough or f in ('align', 'array') else ("f'", ):
            for nm, p in (('cell', x), ('delim', '\\left(%s\\right)' % x), ('brace', '{%s}' % x), ('arg', '\\frac{%s}{2}_{%s}\\sqrt{%s}' % (x, x, x))):
                p = 'a & %s \\\\ b & c' % p
                p = p.replace('& ', '') if f.rstrip('*') in ('equation', 'gather', 'multline', 'gathered') else p
                p = p.replace('\\\\', '') if f == 'equation*' else p
                w = formula(f, (p, p)) if f in FORMATS else formula('[', ['\\begin{%s}%s%s\\end{%s}' % (f, '{cc}' * (f == 'array'), p, f)] * 2)
                mdoc('cellarg' if nm == 'arg' else 'celllig', '%s-%s-%s' % (f, nm, x), [w])
    for i in range(1500 if thorough else 160):
        m = M(1000 + i)
        n = m.r.randint(1, 3)
        parts = []
        for _ in range(n):
            parts += [m.formula(m.r.choice(fmts + ['$', '(', '[', 'equation', '$', 'align']), m.r.randint(1, 4) if n < 3 else 2), ' v ']
        mdoc('formula', str(i), parts)
    ctxs = [('textbf', '\\textbf{a %s b}', 'a # b'), ('section', '\\section{a %s b}c', 'a # b c'), ('footnote', 'a\\footnote{b %s c}', 'ab # c'), ('emph', '\\emph{a %s}', '/a #'), ('caption', '\\begin{figure}\\caption{a %s b}\\end{figure}', 'a # b'),
            ('item', '\\begin{itemize}\\item %s a\\item b\\end{itemize}', '# ab'), ('term', '\\begin{description}\\item[%s] a\\end{description}', '#a'), ('cell', '\\begin{tabular}{ll}a & %s\\\\ %s & b\\end{tabular}', 'a # # b'), ('decl', '{\\bf a %s}', 'a #'),
            ('quote', '\\begin{quote}%s\\end{quote}', '#'), ('theorem', '\\newtheorem{th}{Th}\\begin{th}[x]%s a\\end{th}', None), ('parbox', '\\parbox{3cm}{a %s}', 'a #'), ('mbox', '\\mbox{a %s}', 'a #'), ('wrap', '\\newcommand{\\wrap}[1]{(#1)}\\wrap{a %s}', '(a #)'),
            ('wrap2', '\\newcommand{\\wrap}[1]{\\textit{#1}\\emph{#1}}\\wrap{a %s}', None), ('nested', '\\textbf{\\emph{a \\textit{%s} b}}', '/a # b'), ('center', '\\begin{center}a %s\\end{center}', 'a #'), ('par', 'a\n\n%s\n\nb', 'a # b'), ('fbox', '\\fbox{%s}', '#'),
            ('list', '\\begin{enumerate}\\item\\begin{itemize}\\item %s\\end{itemize}\\end{enumerate}', '#'), ('sub', '\\subsection*{%s}\\paragraph{b %s}', '#b #'), ('minipage', '\\begin{minipage}{2cm}%s\\end{minipage}', '#'), ('raisebox', '\\raisebox{2pt}{%s}', '#')]
    for ci, (k, s, text) in enumerate(ctxs):
        inline_only = k in ('textbf', 'section', 'emph', 'caption', 'term', 'cell', 'mbox', 'wrap', 'wrap2', 'nested', 'sub', 'fbox', 'raisebox', 'theorem')
        for i in range(24 if thorough else 5):
            m = M(50000 + ci * 100 + i)
            f = m.r.choice(['$', '(']) if inline_only or i % 2 == 0 else m.r.choice(fmts)
            ms, src = [], s
            while '%s' in src:
                a, w = m.formula(f, m.r.randint(1, 3))
                if k == 'term' and re.search(r'[][]', a):
                    a, w = formula(f, ('x^2', 'x^2'))
                if '%' in a:
                    a = re.sub(r'(?<!\\)%.*\n', '', a)
                src = src.replace('%s', a.replace('%s', '%\0s'), 1)
                ms.append(w)
            src = src.replace('\0', '')
            if k == 'wrap2':
                ms = ms * 2
            C.expect('mctx: %s-%d' % (k, i), RULE['mctx'], MANCH, 'scan', [tex2, DOC % ('w ' + src + ' z')], want_math(ms, None if text is None else 'w ' + text + ' z'), max_steps=100000000, time_limit=120)
    return C.finish(tier)
