"""C02: macro definitions, against an independent evaluator of TeX's expansion rules."""
import itertools
import random
import re
from .core import *
from . import minitex

TITLE = ('Program schemas (definitions x argument forms x nesting; words in the program are unknown letters) are evaluated abstractly by the '
         'interpretation of TeX.parse/Definition.invoke/NewCommand.invoke/expandDef/Context in /repo and by an independent reference evaluator '
         'of TeX expansion; visible text (blanks aside) has to agree for every abstract path. expandDef is also decided on token lists built from '
         'unknown tokens.')

DRIVER = r'''
from plasTeX import expandDef
def xdef(defn, params):
    return list(expandDef(defn, params))
def partok():
    return Parameter('#')
def toks(spec):
    out = []
    for c in spec:
        if c == '#':
            out.append(Parameter('#'))
        elif c in '123456789':
            out.append(Other(c))
        else:
            out.append(Letter(c))
    return out
def run_xdef(spec, n):
    params = [None] + [[Letter('x%d' % i), Other('y%d' % i)] for i in range(1, n+1)]
    return [(t.catcode, str(t)) for t in expandDef(toks(spec), params)]
'''

ANCH = ['plasTeX/__init__.py:expandDef', 'plasTeX/__init__.py:NewCommand.invoke', 'plasTeX/__init__.py:Definition.invoke',
        'plasTeX/Context.py:Context.newcommand', 'plasTeX/Context.py:Context.newdef', 'plasTeX/TeX.py:TeX.__iter__',
        'plasTeX/Base/TeX/Primitives.py:DefCommand.invoke']


def progs():
    """(id, rule, program)"""
    out = []

    def add(rule, src):
        if 'csname' not in src:
            # single-letter names would clash with LaTeX's accents
            src = re.sub(r'\\([a-z])(?![A-Za-z])', r'\\z\1', src)
        out.append((rule, src))

    # ---- undelimited parameters: every argument form in every position
    forms = ['<w>', '{<w>}', '{<w><v>}', '{}', '{{<w>}<v>}', '{ <w> }', r'\q ', r'{\q}', r'{\q <w>}', ' <w>', ' {<w>}', '7', '.', r'{\r{<w>}}', r'{a{b{<w>}c}d}', '\n<w>', '%c\n{<w>}']
    pre = r'\def\q{<q>!}\def\r#1{(#1)}'
    bodies1 = ['[#1]', '#1#1', '<h>#1<t>', r'\r{#1}', r'\r#1', r'{#1}', '', r'\q#1\q', r'#1.#1,{#1}']
    for f in forms:
        for b in bodies1:
            add('undelimited parameter', pre + r'\def\a#1{%s}<s>\a%s<e>' % (b, f if not f.startswith('<') else ' ' + f))
            add('newcommand argument', pre + r'\newcommand{\a}[1]{%s}<s>\a%s<e>' % (b, f if not f.startswith('<') else ' ' + f))
    for n in (2, 3, 4, 9):
        for body in ('', ''.join('[#%d]' % i for i in range(1, n + 1)), ''.join('#%d' % i for i in range(n, 0, -1)), '#%d-#1' % n):
            args = ''.join('{<w%d>%s}' % (i, 'k' * (i % 3)) for i in range(1, n + 1))
            args2 = ' '.join('<w%d>' % i for i in range(1, n + 1))
            ps = ''.join('#%d' % i for i in range(1, n + 1))
            add('several parameters', r'\def\a%s{%s}<s>\a%s<e>' % (ps, body, args))
            add('several parameters', r'\def\a%s{%s}<s>\a %s<e>' % (ps, body, args2))
            add('several parameters', r'\newcommand\a[%d]{%s}<s>\a%s<e>' % (n, body, args))
            add('several parameters', r'\newcommand{\a}[%d]{%s}<s>\a %s<e>' % (n, body, args2))
    # ---- delimited parameters
    pats = [('#1.', ['<w>.', '.', '<w><v>.', '{<w>}.', '{<w>}<v>.', '{.}.', '{<w>.<v>}<u>.', ' <w> .', r'\q.', '{{<w>}}.', '{<w>}{<v>}.']),
            ('#1,#2;', ['<w>,<v>;', ',;', '<w><u>,<v>x;', '{<w>,},{;};', '{<w>},{<v>};', 'x;y,<v>;']),
            ('(#1)', ['(<w>)', '()', '({)})', '(<w>(x)', '({<w>})', '({(<w>)})']),
            ('[#1]#2', ['[<w>]<v>', '[<w>]{<v>x}', '[]{}', '[{]}]<v>']),
            (r'#1\stop', [r'<w>\stop', r'\stop', r'<w>{\stop}\stop', r'\q\stop', r'{<w>}\stop']),
            ('#1ab', ['<w>ab', 'ab', 'aab', 'aaab', '<w>axab', '{ab}ab', 'acab']),
            ('#1#2.', ['<w><v>.', '<w>.', '{<w>x}<v>y.', '{<w>}{<v>}.', '<w><v><u>.']),
            ('#1.#2', ['<w>.<v>', '.{<v>x}', '{.}.<v>']),
            ('.#1', ['.<w>', '.{<w><v>}']),
            ('ab#1', ['ab<w>', 'ab{<w><v>}']),
            ('ab', ['ab']),
            ('.', ['.']),
            ('#1#{', ['<w>{<v>}', '{', ]),
            ('#1#2#{', ['<w><v>{<u>}', '<w>{<u>}']),
            ('<#1>', ['<<w>>']),
            ('#1 ', ['<w> ', '<w><v> <u>', '{<w> } ']),
            ('#1 #2.', ['<w> <v>.', '<w><u> <v> x.']),
            (r'\x#1\y', [r'\x<w>\y'.replace(r'\x', r'\x '), r'\x\y', r'\x{\y}\y']),
            ('#1..#2', ['<w>..<v>', '<w>.x..<v>', '..<v>']),
            ('#1=#2,#3;', ['<w>=<v>,<u>;', '<w>={<v>,},<u>;']),
            ('#1-#2-#3-', ['<w>-<v>-<u>-', '---']),
            ]
    for pat, uses in pats:
        n = pat.count('#') - (1 if '#{' in pat else 0)
        body = ''.join('[#%d]' % i for i in range(1, n + 1)) or '<b>'
        for u in uses:
            if pat == '#1#{':
                src = r'\def\q{<q>}\def\a#1#{[#1]}<s>\a ' + u + ('' if u.endswith('}') else '<z>}') + '<e>'
            elif '#{' in pat:
                src = r'\def\q{<q>}\def\a#1#2#{[#1|#2]}<s>\a ' + u + '<e>'
            else:
                src = r'\def\q{<q>}\def\a%s{%s}<s>\a%s<e>' % (pat, body, u if u[:1] != '<' and not u[:1].isalpha() else ' ' + u)
                if pat[:1] == '<':
                    continue
            add('delimited parameter', src)
            src2 = src.replace(r'<s>\a', r'<s>\def\w{\a').replace('<e>', r'<e>}\w') if '#{' not in pat and u.count('{') == u.count('}') else None
            if src2 and '\n' not in src2:
                add('delimited parameter inside a macro body', src2)
    # ---- literal #
    add('## literal', r'\def\a#1{\def\b##1{[#1:##1]}}\a{<w>}\b{<v>}')
    add('## literal', r'\def\a#1#2{\def\b##1##2{[#1##2:##1#2]}}\a{<w>}{<x>}\b{<v>}{<y>}')
    add('## literal', r'\def\a{\def\b##1{(##1)}}\a\b{<v>}')
    add('## literal', r'\newcommand\a[1]{\newcommand\b[1]{[#1:##1]}}\a{<w>}\b{<v>}')
    add('## literal', r'\newcommand\a[1]{\def\b##1{[#1:##1]}}\a{<w>}\b{<v>}')
    add('## literal', r'\def\a#1{\newcommand\b[1]{[#1:##1]}}\a{<w>}\b{<v>}')
    add('## literal', r'\def\a#1{\def\b##1{\def\c####1{[#1:##1:####1]}}}\a{<w>}\b{<v>}\c{<u>}')
    add('## literal', r'\def\a{\def\b##1{\def\c####1{[##1:####1]}}}\a\b{<v>}\c{<u>}')
    add('## literal', r'\newcommand\a[1]{\newcommand\b[2][<d>]{[#1:##1:##2]}}\a{<w>}\b{<v>}\b[<o>]{<v>}')
    add('## literal', r'\def\a#1{\def\b##1.{[#1:##1]}}\a{<w>}\b<v>x.')
    add('## literal', r'\def\a#1{\gdef\b##1{[#1:##1]}}{\a{<w>}}\b{<v>}')
    # ---- optional arguments
    for opt in ('<d>', '', '<d>x', '{<d>}', r'\q', r'\r{<d>}'):
        for call in ('{<w>}', '[<o>]{<w>}', '[]{<w>}', '[{]}]{<w>}', r'[\q]{<w>}', '[<o>x]<w>', ' [<o>]{<w>}', '[{<o>}]{<w>}', '[a[b]]{<w>}'.replace('a[b]', '{a[b]}')):
            add('optional argument', r'\def\q{<q>}\def\r#1{(#1)}\newcommand{\a}[2][%s]{<%s>#1|#2}<s>\a%s<e>' % (opt, 'k', call))
        add('optional argument', r'\def\q{<q>}\def\r#1{(#1)}\newcommand{\a}[1][%s]{(#1)}<s>\a<e>x\a[<o>]<e>'.replace(r'\a<e>', r'\a{}<e>') % opt)
        add('optional argument', r'\def\q{<q>}\def\r#1{(#1)}\newcommand{\a}[3][%s]{#3#1#2}<s>\a{<u>}<v>\a[<o>]<u>{<v>}<e>' % opt)
        add('optional argument', r'\def\q{<q>}\def\r#1{(#1)}\newcommand{\a}[1][%s]{(#1)}{\a}<s>{\a[<o>]}[x]' % opt)
    add('optional argument', r'\newcommand{\a}[2][<d>]{(#1,#2)}\newcommand{\b}[2][<f>]{\a[#1]{#2}}\b{<w>}\b[<o>]{<w>}')
    add('optional argument', r'\newcommand{\a}[2][<d>]{(#1,#2)}\newcommand{\b}[2][<f>]{\a[{#1}]{#2}}\b{<w>}\b[{[}]{<w>}')
    add('optional argument', r'\newcommand{\a}[2][<d>]{(#1,#2)}\a{\a{<w>}}\a[\a{<o>}]{\a[<p>]{<w>}}')
    # ---- let, scope, redefinition
    add('let alias', r'\def\a{<w>}\let\b\a\def\a{<v>}\b\a')
    add('let alias', r'\def\a#1{(#1)}\let\b=\a\def\a{<v>}\b{<u>}\a')
    add('let alias', r'\def\a#1{(#1)}\let\b = \a\let\c\b\c{<u>}\b<v>')
    add('let alias', r'\newcommand\a[2][<d>]{(#1,#2)}\let\b\a\renewcommand\a{<v>}\b{<u>}\b[<o>]{<u>}\a')
    add('let alias', r'\let\b=x\b<w>\b')
    add('let alias', r'\let\bg={\let\eg=}<w>\bg.<v>\def\a{<u>}\a\eg.<e>')
    add('let alias', r'\def\a{<w>}{\let\b\a\def\a{<v>}\b\a}\a')
    add('let alias', r'\def\a{<w>}\def\b{<x>}{\let\b\a\b}\b')
    add('let alias', r'\def\a{<w>}\def\b{<x>}{\global\let\b\a\b}\b')
    add('let alias', r'\def\a{<w>}\let\olda\a\def\a{(\olda)}\a\let\oldb\a\def\a{[\oldb]}\a')
    add('let alias', r'\newcommand\a{<w>}\let\olda\a\renewcommand\a{(\olda)}\a')
    add('let alias', r'\let\mydef\def\mydef\a#1{(#1)}\a{<w>}')
    add('let alias', r'\let\nc\newcommand\nc\a[1]{(#1)}\a{<w>}\nc{\b}{<v>}\b')
    add('let alias', r'\def\a{<w>}\let\a\a\a')
    add('let alias', r'\let\myrelax\relax\myrelax<w>'.replace(r'\myrelax<', r'\myrelax <'))
    for d in (r'\def', r'\gdef', r'\global\def', r'\long\def', r'\long\gdef', r'\global\long\def'):
        add('scope of a definition', r'\def\a{<w>}{%s\a{<v>}\a}<e>\a' % d)
        add('scope of a definition', r'\def\a{<w>}{{%s\a{<v>}\a}\a}<e>\a' % d)
        add('scope of a definition', r'\def\a{<w>}\begingroup%s\a{<v>}\a\endgroup.<e>\a' % d)
        add('scope of a definition', r'\def\a{<w>}\def\b{%s\a{<v>}}{\b\a}<e>\a\b\a' % d)
        add('scope of a definition', r'\def\a{<w>}\begin{center}%s\a{<v>}\a\end{center}<e>\a' % d)
        add('scope of a definition', r'\def\a{<w>}{\def\a{<u>}%s\a{<v>}\a}<e>\a' % d)
        add('redefinition', r'\def\a{<w>}\a%s\a{<v>}\a%s\a#1{(#1)}\a{<u>}' % (d, d))
    add('redefinition', r'\newcommand\a{<w>}\a\renewcommand\a{<v>}\a\renewcommand{\a}[1]{(#1)}\a{<u>}\renewcommand{\a}[2][<d>]{(#1,#2)}\a{<u>}')
    add('redefinition', r'\newcommand\a[1]{(#1)}\a{<w>}\def\a{<v>}\a\renewcommand\a[1]{[#1]}\a <u>')
    add('redefinition', r'\newcommand\a{<w>}\providecommand\a{<v>}\providecommand\b{<u>}\a\b')
    add('redefinition', r'\newcommand*\a[1]{(#1)}\newcommand*{\b}{<w>}\renewcommand*\b{<v>}\a\b')
    add('redefinition', r'\renewcommand{\emph}[1]{(#1)}\emph{<w>}'.replace(r'\emph', r'\textbf') if False else r'\def\textbf#1{(#1)}\textbf{<w>}')
    add('late binding', r'\def\a{\b}\def\b{<w>}\a\def\b{<v>}\a')
    add('late binding', r'\def\a#1{\b{#1}#1}\def\b#1{(#1)}\a{<w>}\def\b#1{[#1]}\a{<v>}')
    add('late binding', r'\def\b{<x>}\def\a{{\def\b{<w>}\c}\c}\def\c{(\b)}\a')
    # ---- csname / expandafter
    add('csname', r'\def\a{<w>}\csname a\endcsname')
    add('csname', r'\expandafter\def\csname a1\endcsname{<w>}\csname a1\endcsname')
    add('csname', r'\expandafter\def\csname a1\endcsname#1{(#1)}\csname a1\endcsname{<w>}')
    add('csname', r'\def\n{1}\expandafter\def\csname a\n\endcsname{<w>}\csname a1\endcsname\csname a\n\endcsname')
    add('csname', r'\def\setit#1#2{\expandafter\def\csname v-#1\endcsname{#2}}\def\getit#1{\csname v-#1\endcsname}\setit{p}{<w>}\setit{q}{<v>}\getit{p}\getit{q}\setit{p}{<u>}\getit{p}')
    add('csname', r'\def\setit#1#2{\expandafter\gdef\csname v-#1\endcsname{#2}}\def\getit#1{\csname v-#1\endcsname}{\setit{p}{<w>}}\getit{p}')
    add('csname', r'\def\mk#1{\expandafter\newcommand\csname #1\endcsname[1]{(#1:##1)}}\mk{foo}\mk{baz}\foo{<w>}\baz{<v>}')
    add('csname', r'\def\mk#1{\expandafter\newcommand\expandafter{\csname #1\endcsname}{(#1)}}\mk{foo}\foo')
    add('csname', r'\def\a{<w>}\expandafter\let\csname b.c\endcsname\a\csname b.c\endcsname')
    add('csname', r'\def\a{<w>}\expandafter\let\expandafter\b\csname a\endcsname\def\a{<v>}\b')
    add('csname', r'\def\x#1{\csname do#1\endcsname}\def\doone{<w>}\def\dotwo#1{(#1)}\x{one}\x{two}{<v>}')
    add('csname', r'\csname empty\endcsname <w>')
    add('expandafter', r'\def\a#1{[#1]}\def\b{{<w>}<v>}\expandafter\a\b')
    add('expandafter', r'\def\a#1#2{[#1|#2]}\def\b{<w><v>}\expandafter\a\b <u>')
    add('expandafter', r'\def\a#1#2{[#1|#2]}\def\b{<w>}\def\c{\b <v>}\expandafter\a\c')
    add('expandafter', r'\def\a#1{[#1]}\def\b{\c}\def\c{<w><v>}\expandafter\expandafter\expandafter\a\expandafter\b\c')
    add('expandafter', r'\def\a#1{[#1]}\def\b{\c}\def\c{<w><v>}\expandafter\expandafter\expandafter\a\b')
    add('expandafter', r'\def\a#1{[#1]}\def\b#1{#1#1}\expandafter\a\b{<w>}')
    add('expandafter', r'\def\a#1.#2;{[#1|#2]}\def\b{<w>.<v>;}\expandafter\a\b')
    add('expandafter', r'\def\b{<w>}\expandafter\def\expandafter\a\expandafter{\b}\def\b{<v>}\a')
    add('expandafter', r'\def\b{<w>}\expandafter\def\expandafter\b\expandafter{\b <v>}\b')
    add('expandafter', r'\def\addto#1#2{\expandafter\def\expandafter#1\expandafter{#1#2}}\def\l{<w>}\addto\l{<v>}\addto\l{<u>}\l')
    add('expandafter', r'\def\b{<w>}{\expandafter}\b'.replace('{\\expandafter}', '{}'))
    add('expandafter', r'\def\a{<w>}\expandafter <v>\a')
    add('expandafter', r'\newcommand\a[2][<d>]{[#1|#2]}\def\b{[<o>]{<w>}}\expandafter\a\b')
    # ---- arguments in arguments / nesting of calls
    add('nesting', r'\def\a#1{(#1)}\def\b#1#2{\a{#2}\a{#1}}\b{\a{<w>}}{\b{<v>}{<u>}}')
    add('nesting', r'\def\a#1{(#1)}\a{\def\b{<w>}\b}')
    add('nesting', r'\def\twice#1{#1#1}\twice{\twice{<w>.}}\twice{\twice{\twice{<v>}}}')
    add('nesting', r'\def\fst#1#2{#1}\def\snd#1#2{#2}\fst{<w>}{<v>}\snd{<w>}{<v>}\fst{\snd{<a>}{<b>}}{\fst{<c>}{<d>}}\snd\fst\snd{<w>}{<v>}')
    add('nesting', r'\def\ap#1#2{#1{#2}}\def\a#1{(#1)}\ap\a{<w>}\ap\ap\a{<v>}')
    add('nesting', r'\def\ap#1{#1}\def\a#1{(#1)}\ap\a{<w>}\ap{\a}{<v>}\ap{\a{<u>}}')
    add('nesting', r'\newcommand\ap[2]{#1{#2}}\newcommand\a[1]{(#1)}\ap\a{<w>}\ap{\a}{<v>}')
    add('nesting', r'\def\swap#1#2{#2#1}\def\a#1{(#1)}\swap{<w>}\a{<v>}\swap{{<u>}}{\a}')
    add('nesting', r'\def\a{\b}\def\b{\c}\def\c#1{(#1)}\a{<w>}')
    add('nesting', r'\def\a{\b{<x>}}\def\b#1#2{(#1|#2)}\a{<w>}\a <v>')
    add('nesting', r'\def\body#1{\ifnum#1>0 <w>#1\else <v>\fi}\body{3}\body{0}')
    add('recursion', r'\newcount\n\n=3 \def\l{\ifnum\n>0 <w>\advance\n by -1 \expandafter\l\fi}\l.<e>')
    add('recursion', r'\def\each#1{\ifx#1\stop\else(#1)\expandafter\each\fi}\def\stop{\stop}\each<a><b><c>\stop.<e>'.replace(r'\each<', r'\each <'))
    add('recursion', r'\def\stop{\stop}\def\map#1,{\ifx.#1\else(#1)\expandafter\map\fi}\map <a>,<b>,<c>,.,<e>')
    add('recursion', r'\def\rev#1#2.{#2#1}\rev <a><b><c>.\rev <x>.')
    # ---- environments
    for b, e in (('(', ')'), ('<b>#1', '<f>'), ('[#1|', ']'), (r'\def\x{#1}', r'(\x)')):
        n = 1 if '#1' in b else 0
        for opt in (None, '<d>'):
            if not n and opt:
                continue
            decl = r'\newenvironment{envx}%s%s{%s}{%s}' % ('[1]' if n else '', '[%s]' % opt if opt else '', b, e)
            call = ('{<w>}' if opt is None else '[<w>]') if n else ''
            add('newenvironment', decl + r'<s>\begin{envx}%s<i>\end{envx}<t>' % call)
            add('newenvironment', decl + r'<s>\begin{envx}%s<i>\begin{envx}%s<j>\end{envx}<k>\end{envx}<t>' % (call, call))
            add('newenvironment', decl + r'<s>\begin{envx}%s\def\z{<i>}\z\end{envx}\def\z{<t>}\begin{envx}%s\z\end{envx}' % (call, call))
            if opt:
                add('newenvironment', decl + r'<s>\begin{envx}<i>\end{envx}<t>')
    add('newenvironment', r'\newenvironment{envx}[2][<d>]{(#1,#2:}{)}\begin{envx}{<w>}<i>\end{envx}\begin{envx}[<o>]{<w>}<i>\end{envx}')
    add('newenvironment', r'\newenvironment{envx}{(}{)}\renewenvironment{envx}[1]{[#1:}{]}\begin{envx}{<w>}<i>\end{envx}')
    add('newenvironment', r'\newenvironment{inner}{(}{)}\newenvironment{outer}{\begin{inner}}{\end{inner}}\begin{outer}<i>\end{outer}<t>')
    add('newenvironment', r'\newenvironment{inner}[1]{(#1:}{)}\newenvironment{outer}[1]{[\begin{inner}{#1}}{\end{inner}]}\begin{outer}{<w>}<i>\end{outer}<t>')
    add('newenvironment', r'\def\x{<v>}\newenvironment{envx}{\def\x{<w>}}{\x}\begin{envx}\x\end{envx}\x')
    return out


class Gen(object):
    """random well-formed programs"""

    def __init__(self, r):
        self.r = r
        self.n = 0
        self.macros = {}

    def w(self):
        self.n += 1
        return '<w%d>' % self.n

    def text(self, depth, params, env):
        r = self.r
        out = ''
        for _ in range(r.choice((1, 1, 2, 2, 3))):
            k = r.random()
            if k < .35 or depth <= 0:
                out += r.choice((self.w(), self.w() + '.', '(' + self.w() + ')', 'x'))
            elif k < .55 and params:
                out += r.choice(params)
            elif k < .62:
                out += '{' + self.text(depth - 1, params, env) + '}'
            elif env:
                out += self.call(r.choice(sorted(env)), depth - 1, params, env)
            else:
                out += self.w()
        return out

    def arg(self, depth, params, env):
        return '{' + self.text(depth, params, env) + '}'

    def call(self, name, depth, params, env):
        kind = env[name]
        s = '\\' + name
        if kind[0] == 'und':
            if not kind[1]:
                return s + '{}'
            return s + ''.join(self.arg(depth, params, env) if self.r.random() < .75 else (' ' if i == 0 else '') + self.w() for i in range(kind[1]))
        if kind[0] == 'opt':
            o = '[' + self.text(0, params, env).replace(']', '') + ']' if self.r.random() < .5 else ''
            return s + o + ''.join(self.arg(depth, params, env) for i in range(kind[1] - 1)) + ('{}' if kind[1] == 1 else '')
        if kind[0] == 'del':
            out = s + kind[1][0]
            if out == s:
                out += ' '
            for d in kind[1][1:]:
                out += self.text(0, [], {}).replace('.', '').replace('(', '').replace(')', '') + d
            return out
        return s + ' '

    def define(self, name, env, depth, pfx):
        r = self.r
        k = r.random()
        hp = pfx
        if k < .35:
            n = r.choice((0, 1, 1, 2, 3))
            ps = [hp + str(i) for i in range(1, n + 1)]
            body = self.text(2, ps, env)
            d = r.choice((r'\def', r'\def', r'\gdef'))
            return '%s\\%s%s{%s}' % (d, name, ''.join(ps), body), ('und', n)
        if k < .6:
            n = r.choice((0, 1, 2, 3))
            ps = [hp + str(i) for i in range(1, n + 1)]
            body = self.text(2, ps, env)
            cmd = r'\newcommand' if name not in self.macros else r'\renewcommand'
            return '%s{\\%s}%s{%s}' % (cmd, name, '[%d]' % n if n else '', body), ('und', n)
        if k < .8:
            n = r.choice((1, 2, 3))
            ps = [hp + str(i) for i in range(1, n + 1)]
            body = self.text(2, ps, env)
            cmd = r'\newcommand' if name not in self.macros else r'\renewcommand'
            return '%s{\\%s}[%d][%s]{%s}' % (cmd, name, n, self.text(0, [], {}), body), ('opt', n)
        n = r.choice((1, 2))
        ps = [hp + str(i) for i in range(1, n + 1)]
        ds = [r.choice(('', '', '(', '!'))] + [r.choice((';', ',', '/', ')')) for _ in range(n)]
        body = self.text(2, ps, env)
        return r'\def\%s%s{%s}' % (name, ds[0] + ''.join(p + d for p, d in zip(ps, ds[1:])), body), ('del', ds)

    def program(self):
        r = self.r
        env = {}
        names = ['ma', 'mb', 'mc', 'md']
        out = ''
        for _ in range(r.choice((2, 3, 4, 5))):
            k = r.random()
            if k < .6 or not env:
                nm = r.choice(names)
                s, kind = self.define(nm, {a: b for a, b in env.items() if a != nm}, 2, '#')
                self.macros[nm] = 1
                out += s
                env[nm] = kind
            elif k < .7:
                a, b = r.choice(sorted(env)), 'al' + r.choice('xyz')
                out += r'\let\%s%s\%s ' % (b, r.choice(('', '=', ' = ')), a)
                env[b] = env[a]
                self.macros[b] = 1
            elif k < .85:
                nm = r.choice(names)
                s, kind = self.define(nm, {a: b for a, b in env.items() if a != nm}, 2, '#')
                self.macros.setdefault(nm, 1)
                out += '{' + s + self.call(nm, 1, [], dict(env, **{nm: kind})) + '}'
                if s.startswith(r'\gdef'):
                    env[nm] = kind
            else:
                out += self.text(1, [], env)
        for nm in sorted(env):
            out += self.w() + self.call(nm, 2, [], env)
        return out


def main(tier):
    C = Check('C02', TITLE)
    C.boot(DRIVER)
    C.freeze()
    seen = {}
    n = 0
    for rule, src in progs():
        if src in seen:
            continue
        seen[src] = 1
        try:
            want = minitex.squash(minitex.evaluate(src))
        except minitex.Bad as e:
            if os.environ.get('VERIF_VERBOSE'):
                print('   not a schema (%s): %s' % (e, src))
            continue
        n += 1
        C.expect('%s: %s' % (rule.split()[0], src.replace('\n', '~n')), 'visible text under TeX expansion: ' + rule, ANCH, 'ptext', [C.tex, T(src)], text_is(want, src))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    count = 12000 if tier == 'thorough' else 1200
    k = made = 0
    while made < count and k < count * 4:
        k += 1
        r = random.Random('%d/%d' % (seed, k))
        src = Gen(r).program()
        try:
            want = minitex.squash(minitex.evaluate(src))
        except (minitex.Bad, RecursionError):
            continue
        if len(want) > 4000:
            continue
        made += 1
        C.expect('program %d.%d: %s' % (seed, k, src), 'visible text under TeX expansion: composed programs', ANCH, 'ptext', [C.tex, T(src)], text_is(want, src))
    # expandDef on its own
    for spec in ('', 'a', '#1', '#1#2', '##', '##1', 'a#2b#1', '####1', '###1', '#1##2', '#1#1#1', '#3'):
        for np in (1, 2, 3):
            out, i, bad = [], 0, False
            while i < len(spec):
                c = spec[i]
                if c == '#':
                    d = spec[i + 1]
                    if d == '#':
                        out.append((6, '#'))
                    elif int(d) <= np:
                        out += [(11, 'x' + d), (12, 'y' + d)]
                    else:
                        bad = True
                    i += 2
                else:
                    out.append((12 if c.isdigit() else 11, c))
                    i += 1
            if not bad:
                C.expect('expandDef %r with %d arguments' % (spec, np), 'substitution into a token list', ANCH[:1], 'run_xdef', [spec, np], out)
    return C.finish(tier)


def text_is(want, src):
    def check(out, facts):
        if not isinstance(out, str):
            return 'UNDECIDED' if isinstance(out, Abs) else 'result is %s' % short(out)
        got = minitex.squash(out)
        if got == want:
            return None
        return 'program    %s\nprescribed %s\ncomputed   %s' % (src, want, got)
    return check
