"""C19: abstract interpretation of \\ifthenelse and \\whiledo over boolean expression trees against a truth-value model.

Expression trees over all atoms, operators, placements of \\not and redundant parentheses, inside documents whose texts are
unknown words, are processed by the analysed evaluator; the branches processed (text and side effects), the number of loop
iterations and the balance of the math switch are compared with the model."""
import random
from fractions import Fraction

from .core import Broken, Check, T, short
from . import latexdoc

DRIVER = r'''
from plasTeX.Base.LaTeX.Math import BeginMath as _BM, EndMath as _EM


def scan(tex, src):
    tex.input(src)
    doc = tex.parse()
    return (doc.textContent, _BM.disableMath, _EM.disableMath, len(doc.context.contexts))


def depth(tex):
    return len(tex.ownerDocument.context.contexts)
'''

ANCH = ['plasTeX/Packages/ifthen.py:ifthenelse.evaluate', 'plasTeX/Packages/ifthen.py:ifthenelse.invoke', 'plasTeX/Packages/ifthen.py:ifthenelse.prec']
WANCH = ['plasTeX/Packages/ifthen.py:whiledo.invoke'] + ANCH[:1]
AANCH = ['plasTeX/Packages/ifthen.py:boolean.invoke', 'plasTeX/Packages/ifthen.py:isodd.invoke', 'plasTeX/Packages/ifthen.py:equal.invoke',
         'plasTeX/Packages/ifthen.py:isundefined.invoke', 'plasTeX/Packages/ifthen.py:lengthtest.invoke']
RULE = {
    'atom': 'each atom has the truth value of the relation it spells',
    'not': r'\not negates the operand that follows it, wherever an operand may appear',
    'assoc': r'\and and \or have equal precedence and associate to the left',
    'expr': 'the test has the value of the boolean expression it denotes; exactly the branch it selects is processed',
    'upper': r'\NOT \AND \OR are \not \and \or',
    'branch': 'the unselected branch has no effect, the selected one is processed once in its context',
    'loop': r'\whiledo processes its body exactly as many times as the test stays true',
}

PRE = (r'\usepackage{ifthen}\newcounter{ca}\newcounter{cb}\newcounter{cm}\setcounter{ca}{3}\setcounter{cb}{8}\setcounter{cm}{-3}\newcommand{\two}{2}\newcommand{\minusfour}{-4}'
       r'\newcommand{\pick}[2]{#2}\newcommand{\num}[1]{1#1}\newboolean{bt}\newboolean{bf}\setboolean{bt}{true}\setboolean{bf}{false}\newif\ifnt\newif\ifnf\nttrue\nffalse'
       r'\newlength{\la}\newlength{\lb}\la=1cm\relax\lb=20pt\relax\newcommand{\wa}{alpha}\newcommand{\wb}{beta}\newcommand{\dimcm}{2cm}\newcounter{probe}')
VARS = {'ca': 3, 'cb': 8, 'cm': -3}
PT = {'pt': Fraction(1), 'in': Fraction(7227, 100), 'cm': Fraction(7227, 254), 'mm': Fraction(7227, 2540), 'pc': Fraction(12), 'bp': Fraction(7227, 7200), 'sp': Fraction(1, 65536)}


class X(object):
    """expression generator; value computed alongside"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def integer(self):
        r = self.r
        k = r.randint(0, 9)
        n = r.choice([0, 1, 2, 3, 5, 7, 12, 100])
        if k < 4:
            return str(n), n
        if k == 4:
            return str(-n - 1), -n - 1
        if k == 5:
            c = r.choice(sorted(VARS))
            return r.choice([r'\value{%s}', r'\arabic{%s}', r'\the%s']) % c + ('{}' if False else ' ' if r.random() < 0 else ''), VARS[c]
        if k == 6:
            return r.choice([(r'\two ', 2), (r'\minusfour ', -4), (r'\num{%d}' % n, int('1%d' % n)), (r'\pick{7}{%d}' % n, n), (r'\pick{-7}{-%d}' % (n + 1), -n - 1), (r'\num\two ', 12)])
        if k == 7:
            return '%d\\two ' % n, int('%d2' % n)
        if k == 8:
            c = r.choice(sorted(VARS))
            return r'\value{%s}' % c, VARS[c]
        return str(n), n

    def dimen(self):
        r = self.r
        k = r.randint(0, 7)
        if k < 5:
            u = r.choice(sorted(PT))
            n = {'sp': r.randint(1, 9) * 65536, 'pt': r.randint(1, 60), 'in': r.randint(1, 2), 'cm': r.randint(1, 5), 'mm': r.randint(1, 30), 'pc': r.randint(1, 5), 'bp': r.randint(1, 60)}[u]
            s = str(n)
            v = Fraction(n)
            if r.random() < .3 and u != 'sp':
                s += '.5'
                v += Fraction(1, 2)
            if r.random() < .15:
                s, v = '-' + s, -v
            return s + u, v * PT[u]
        return r.choice([(r'\la', PT['cm']), (r'\lb', Fraction(20)), (r'\dimcm ', 2 * PT['cm']), (r'2\lb', Fraction(40)), (r'-\lb', Fraction(-20))])

    def cmp(self):
        r = self.r
        a, x = self.integer()
        b, y = self.integer() if r.random() < .7 else (a, x)
        op = r.choice('<>=')
        sp = lambda: ' ' if r.random() < .2 else ''
        return a.rstrip(' ') + (' ' if a.endswith(' ') and r.random() < .5 and False else sp() if not a.endswith(' ') else ' ') + op + sp() + b, x < y if op == '<' else x > y if op == '>' else x == y

    def atom(self):
        r = self.r
        k = r.randint(0, 11)
        if k < 4:
            return self.cmp()
        if k == 4:
            a, x = self.integer()
            return r'\isodd{%s}' % a, x % 2 == 1
        if k == 5:
            words = [('alpha', 'alpha'), ('beta', 'beta'), (r'\wa', 'alpha'), (r'\wb', 'beta'), ('<w1>', '<w1>'), ('<w2>', '<w2>'), (r'\pick{<w1>}{<w2>}', '<w2>'), ('', ''), ('<w1> <w2>', '<w1> <w2>')]
            a, x = r.choice(words)
            b, y = r.choice(words) if r.random() < .6 else (a, x)
            return r'\equal{%s}{%s}' % (a, b), x == y
        if k == 6:
            return r.choice([(r'\isundefined{\nosuchthing}', True), (r'\isundefined{\wa}', False), (r'\isundefined{\textbf}', False), (r'\isundefined\nosuchthing ', True), (r'\isundefined\two ', False)])
        if k in (7, 8):
            return r.choice([(r'\boolean{bt}', True), (r'\boolean{bf}', False), (r'\boolean{nt}', True), (r'\boolean{nf}', False)])
        if k < 11:
            while True:
                a, x = self.dimen()
                b, y = self.dimen()
                if x == y or abs(x - y) > Fraction(1, 1000):
                    break
            if r.random() < .2:
                a, x, b, y = r.choice([('1in', 1, '2.54cm', 1), ('10mm', 1, '1cm', 1), (r'\la', 1, '10mm', 1), ('12pt', 1, '1pc', 1), ('65536sp', 1, '1pt', 1), ('72bp', 1, '1in', 1)])
            op = r.choice('<>=')
            return r'\lengthtest{%s%s%s}' % (a.rstrip(' ') + (' ' if a.endswith(' ') else r.choice(['', '', ' '])), op, r.choice(['', '', ' ']) + b), x < y if op == '<' else x > y if op == '>' else x == y
        return r.choice([(r'1=1', True), ('1=2', False)])

    def operand(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .35:
            s, v = self.atom()
        elif k < .62:
            s, v = self.operand(d - 1)
            s, v = self.op('not') + s, not v
        else:
            s, v = self.expr(d - 1)
            sp = lambda: ' ' if r.random() < .3 else ''
            s = r'\(' + sp() + s + sp() + r'\)'
        return s, v

    def op(self, n):
        r = self.r
        if self.upper and r.random() < .5:
            n = n.upper()
        return '\\' + n + ' '

    upper = False

    def expr(self, d, n=None):
        r = self.r
        s, v = self.operand(d)
        for _ in range(r.choice([0, 0, 1, 1, 1, 2, 3]) if n is None else n):
            t, w = self.operand(d)
            o = r.choice(['and', 'or'])
            s += r.choice(['', ' ', ' ']) + self.op(o) + t
            v = (v and w) if o == 'and' else (v or w)
        return s, v


def want(text, depth):
    def ok(o, facts):
        t = ' '.join(o[0].split())
        if t != ' '.join(text.split()):
            return 'computed text %r\nprescribed    %r' % (short(t), text)
        if o[1] or o[2]:
            return r'\( and \) are still disabled for math afterwards'
        if o[3] != depth:
            return 'context depth changed from %r to %r' % (depth, o[3])
    return ok


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C19', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    C.boot(DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.ifthen'])
    tex = C.prepare(r'\documentclass{article}' + PRE)
    depth = None if isinstance(tex, Broken) else C.m.eval(C.g['depth'], [tex])
    C.freeze()

    def doc(fam, key, src, text, anchor=ANCH):
        C.expect('%s: %s' % (fam, key), RULE[fam], anchor, 'scan', [tex, T(src)], want(text, depth), max_steps=20000000, time_limit=60)

    def test(fam, key, e, v, anchor=ANCH):
        doc(fam, key, r'q \ifthenelse{%s}{<t1> yes}{<t2> no} z' % e, 'q <t1> yes z' if v else 'q <t2> no z', anchor)

    # --- atoms
    for i, (a, x) in enumerate([('0', 0), ('5', 5), ('-3', -3), ('12', 12), (r'\value{ca}', 3), (r'\value{cm}', -3), (r'\two ', 2), (r'\num{2}', 12), (r'\minusfour ', -4), (r'\arabic{cb}', 8), (r'\thecb ', 8)]):
        for j, (b, y) in enumerate([('0', 0), ('5', 5), ('-3', -3), (r'\value{ca}', 3), (r'\two ', 2), (r'\value{cb}', 8), ('12', 12)]):
            for op in '<>=':
                test('atom', 'int-%d-%d%s' % (i, j, op), a + op + b, x < y if op == '<' else x > y if op == '>' else x == y)
        test('atom', 'isodd-%d' % i, r'\isodd{%s}' % a, x % 2 == 1, AANCH)
    for i, (e, v) in enumerate([(r'\equal{<w1>}{<w1>}', True), (r'\equal{<w1>}{<w2>}', False), (r'\equal{}{}', True), (r'\equal{<w1>}{}', False), (r'\equal{\wa}{alpha}', True), (r'\equal{\wa}{\wb}', False),
                                (r'\equal{\pick{<w1>}{<w2>}}{<w2>}', True), (r'\equal{a b}{a b}', True), (r'\equal{a b}{ab}', False), (r'\equal{A}{a}', False), (r'\equal{\two}{2}', True), (r'\equal{1}{01}', False),
                                (r'\isundefined{\qqq}', True), (r'\isundefined{\two}', False), (r'\isundefined{\textbf}', False), (r'\isundefined\qqq', True), (r'\isundefined{\ca}', True),
                                (r'\boolean{bt}', True), (r'\boolean{bf}', False), (r'\boolean{nt}', True), (r'\boolean{nf}', False)]):
        test('atom', 'misc-%d' % i, e, v, AANCH)
    for i, s in enumerate([r'\newboolean{xx}', r'\provideboolean{xx}']):
        for j, (a, v) in enumerate([('', False), (r'\setboolean{xx}{true}', True), (r'\setboolean{xx}{TRUE}', True), (r'\setboolean{xx}{true}\setboolean{xx}{false}', False), (r'\xxtrue', True), (r'\xxtrue\xxfalse', False), (r'\xxtrue\provideboolean{xx}', True)]):
            doc('atom', 'setbool-%d-%d' % (i, j), r'%s%s\ifthenelse{\boolean{xx}}{<t1>}{<t2>} \ifxx <t3>\else <t4>\fi' % (s, a), '<t1> <t3>' if v else '<t2> <t4>', AANCH)
    for i, n in enumerate(['emph', 'draft', "title", "item", 'section', 'a']):
        doc('atom', 'boolname-%d' % i, r'\newboolean{%s}\ifthenelse{\boolean{%s}}{<t1>}{<t2>}\setboolean{%s}{true} \ifthenelse{\boolean{%s}}{<t3>}{<t4>}\emph{<t5>}' % (n, n, n, n), '<t2> <t3><t5>', AANCH)
    dims = [('1cm', PT['cm']), ('10mm', PT['cm']), ('1in', PT['in']), ('2.54cm', PT['in']), ('20pt', Fraction(20)), (r'\la', PT['cm']), (r'\lb', Fraction(20)), (r'\dimcm', 2 * PT['cm']), ('-1pt', Fraction(-1)), ('2pc', Fraction(24)),
            ('0pt', Fraction(0)), (r'2\lb', Fraction(40)), ('.5in', PT['in'] / 2)]
    for i, (a, x) in enumerate(dims):
        for j, (b, y) in enumerate(dims):
            if (i + j) % 2 and not thorough:
                continue
            for op in '<>=':
                test('atom', 'dim-%d-%d%s' % (i, j, op), r'\lengthtest{%s%s%s}' % (a, op, b), x < y if op == '<' else x > y if op == '>' else x == y, AANCH)

    # --- placement of \not, associativity: exhaustive over truth values
    A = {True: ['1=1', r'\boolean{bt}', r'\equal{<w1>}{<w1>}', '2<3'], False: ['1=2', r'\boolean{bf}', r'\isodd{4}', '5<3']}
    n = 0
    for a in (True, False):
        for na in (0, 1, 2, 3):
            va = a ^ (na % 2 == 1)
            test('not', 'one-%d%d' % (a, na), r'\not ' * na + A[a][n % 4], va)
            test('not', 'paren-%d%d' % (a, na), r'\not ' * na + r'\(' + A[a][(n + 1) % 4] + r'\)', va)
            n += 1
            for b in (True, False):
                for nb in (0, 1, 2):
                    vb = b ^ (nb % 2 == 1)
                    for o in ('and', 'or'):
                        n += 1
                        s = r'\not ' * na + A[a][n % 4] + ' \\' + o + ' ' + r'\not ' * nb + A[b][(n // 4) % 4]
                        v = (va and vb) if o == 'and' else (va or vb)
                        test('not', 'two-%d%d%s%d%d' % (a, na, o, b, nb), s, v)
                        test('not', 'notparen-%d%d%s%d%d' % (a, na, o, b, nb), r'\not \(' + s + r'\)', not v)
    n = 0
    for bits in range(16):
        vs = [bool(bits >> k & 1) for k in range(4)]
        for ops in range(8):
            for nots in ((0, 5, 10) if not thorough else range(16)):
                n += 1
                s, v = '', None
                for k in range(4):
                    w = vs[k] ^ bool(nots >> k & 1)
                    t = (r'\not ' if nots >> k & 1 else '') + A[vs[k]][(n + k) % 4]
                    if k == 0:
                        s, v = t, w
                    else:
                        o = 'and' if ops >> (k - 1) & 1 else 'or'
                        s += ' \\' + o + ' ' + t
                        v = (v and w) if o == 'and' else (v or w)
                test('assoc', '%d-%d-%d' % (bits, ops, nots), s, v)

    # --- random trees
    for i in range(6000 if thorough else 700):
        x = X(i)
        if i % 4 == 3:
            x.upper = True
        s, v = x.expr(x.r.choice([1, 2, 2, 3]))
        if x.r.random() < .15:
            s = ' ' + s + ' '
        test('upper' if i % 4 == 3 else 'expr', str(i), s, v)

    # --- branches
    for v in (True, False):
        t = r'\boolean{%s}' % ('bt' if v else 'bf')
        p = lambda a, b: a if v else b
        B = [
            (r'a\ifthenelse{%s}{\stepcounter{probe}x}{\addtocounter{probe}{5}y}\arabic{probe}', 'a%s' % p('x1', 'y5')),
            (r'a\ifthenelse{%s}{\def\two{T}x}{\def\two{F}y}\two', 'a%s' % p('xT', 'yF')),
            (r'a\ifthenelse{%s}{\textbf{<u1>}}{\emph{<u2>}} b', 'a%s b' % p('<u1>', '<u2>')),
            (r'a\ifthenelse{%s}{}{}b', 'ab'),
            (r'a\ifthenelse{%s}{<u1>}{}b', 'a%sb' % p('<u1>', '')),
            (r'a\ifthenelse{%s}{}{<u1>}b', 'a%sb' % p('', '<u1>')),
            (r'\textbf{a\ifthenelse{%s}{<u1>}{<u2>}b}c', 'a%sbc' % p('<u1>', '<u2>')),
            (r'\begin{center}\ifthenelse{%s}{<u1>}{<u2>}\end{center}', p('<u1>', '<u2>')),
            (r'\newcommand{\mm}[2]{\ifthenelse{%s}{#1}{#2}}\mm{<u1>}{<u2>}\mm{x}{y}', p('<u1>x', '<u2>y')),
            (r'\ifthenelse{%s}{\ifthenelse{1=1}{<u1>}{<u2>}}{\ifthenelse{1=1}{<u3>}{<u4>}}', p('<u1>', '<u3>')),
            (r'\ifthenelse{%s}{\ifthenelse{\not 1=1}{<u1>}{<u2>}x}{\ifthenelse{\(1=2\)}{<u3>}{<u4>}x}', p('<u2>x', '<u4>x')),
            (r'\ifthenelse{%s}{\(x\)}{\(y\)}\(z\)', p('xz', 'yz')),
            (r'\ifthenelse{%s}{\begin{itemize}\item <u1>\end{itemize}}{\begin{quote}<u2>\end{quote}}', p('<u1>', '<u2>')),
            (r'\parbox{2cm}{\ifthenelse{%s}{<u1>}{<u2>}}b', p('<u1>', '<u2>') + 'b'),
            (r'a\footnote{\ifthenelse{%s}{<u1>}{<u2>}}', 'a' + p('<u1>', '<u2>')),
            (r'\begin{tabular}{l}\ifthenelse{%s}{<u1>}{<u2>}\end{tabular}', p('<u1>', '<u2>')),
            (r'\ifthenelse{%s}{\setboolean{bt}{false}}{\setboolean{bf}{true}}\ifthenelse{\boolean{bt}}{T}{F}\ifthenelse{\boolean{bf}}{T}{F}', p('FF', 'TT')),
            (r'\ifthenelse{%s}{\newcommand{\fresh}{<u1>}}{\newcommand{\fresh}{<u2>}}\fresh', p('<u1>', '<u2>')),
            (r'\ifthenelse{%s}{\iftrue a\else b\fi}{\iffalse a\else b\fi}', p('a', 'b')),
            (r'\ifthenelse{%s}{%s}{%s}' % ('%s', 'a\n\nb', 'c\n\nd'), p('ab', 'cd')),
        ]
        for i, (s, w) in enumerate(B):
            if i == 19:
                continue
            doc('branch', '%d-%s' % (i, v), s.replace('%s', t, 1), w)

    # --- loops
    for k in range(0, 7):
        L = [
            (r'\setcounter{probe}{0}\whiledo{\value{probe}<%d}{<u1>\stepcounter{probe}}z\arabic{probe}' % k, '<u1>' * k + 'z%d' % k),
            (r'\setcounter{probe}{%d}\whiledo{\value{probe}>0}{\arabic{probe}.\addtocounter{probe}{-1}}z' % k, ''.join('%d.' % j for j in range(k, 0, -1)) + 'z'),
            (r'\setcounter{probe}{0}\whiledo{\not \value{probe}=%d}{x\stepcounter{probe}}z' % k, 'x' * k + 'z'),
            (r'\setcounter{probe}{0}\whiledo{\(\value{probe}<%d\)}{x\stepcounter{probe}}z' % k, 'x' * k + 'z'),
            (r'\setcounter{probe}{0}\whiledo{\not \(\value{probe}>%d \or \value{probe}=%d\) \and 1=1}{x\stepcounter{probe}}z\(y\)' % (k, k), 'x' * k + 'zy'),
            (r'\setcounter{probe}{0}\whiledo{\boolean{bt} \and \value{probe}<%d}{\stepcounter{probe}\ifthenelse{\isodd{\value{probe}}}{o}{e}}z' % k, ''.join('o' if j % 2 == 0 else 'e' for j in range(k)) + 'z'),
            (r'\setcounter{probe}{0}\whiledo{\value{probe}<%d}{\textbf{<u1>}\stepcounter{probe}\emph{<u2>} }z' % k, '<u1><u2> ' * k + 'z'),
            (r'\setcounter{probe}{0}\newcommand{\rep}[1]{\whiledo{\value{probe}<%d}{#1\stepcounter{probe}}}\rep{<u1>}z' % k, '<u1>' * k + 'z'),
            (r'\setcounter{probe}{0}\setcounter{ca}{0}\whiledo{\value{probe}<%d}{\setcounter{ca}{0}\whiledo{\value{ca}<\value{probe}}{y\stepcounter{ca}}\stepcounter{probe},}z' % k, ''.join('y' * j + ',' for j in range(k)) + 'z'),
            (r'\la=0pt\relax\setcounter{probe}{0}\whiledo{\lengthtest{\la<%dpt}}{x\stepcounter{probe}\la=\value{probe}pt\relax}z' % k, 'x' * k + 'z'),
            (r'\setcounter{probe}{0}\textit{\whiledo{\value{probe}<%d}{x\stepcounter{probe}}}z' % k, 'x' * k + 'z'),
            (r'\setcounter{probe}{0}\begin{itemize}\item a\whiledo{\value{probe}<%d}{\item <u1>\stepcounter{probe}}\end{itemize}z' % k, 'a' + '<u1>' * k + 'z'),
            (r'\setcounter{probe}{0}\setboolean{bt}{true}\whiledo{\boolean{bt}}{x\stepcounter{probe}\ifthenelse{\value{probe}>%d}{\setboolean{bt}{false}}{}}z' % k, 'x' * (k + 1) + 'z'),
            (r'\setcounter{probe}{0}\whiledo{\value{probe}<%d}{\(x\)\stepcounter{probe}}z' % k, 'x' * k + 'z'),
            (r'\gdef\acc{p}\setcounter{probe}{0}\whiledo{\value{probe}<%d}{\gdef\acc{q}\stepcounter{probe}}z\acc' % k, 'z' + ('q' if k else 'p')),
            (r'\def\acc{p}\setcounter{probe}{0}\whiledo{\value{probe}<%d}{\def\acc{q}\stepcounter{probe}}z\acc' % k, 'z' + ('q' if k else 'p')),
        ]
        for i, (s, w) in enumerate(L):
            doc('loop', '%d-%d' % (i, k), s, w, WANCH)
    return C.finish(tier)
