"""C03: conditionals, against TeX's branch selection rules."""
import random
import re
from .core import *
from . import minitex
from .c02 import text_is, Gen as MacroGen

TITLE = ('Program schemas with conditionals (every test primitive x operand forms x branch structure x nesting x placement in macro bodies and '
         'arguments) are interpreted abstractly through TeX.processIfContent, the if-primitives and NewIf and compared with the branch TeX selects '
         '(text and counter/switch side effects). processIfContent is also decided on token streams built from unknown letters with every '
         'arrangement of \\or, \\else and nested conditionals up to a bound, for every selector.')

DRIVER = r'''
def run(tex, src, names):
    tex.input(src)
    t = tex.parse().textContent
    c = tex.ownerDocument.context
    return (t, [c.counters[n].value for n in names if n in c.counters])

def branch(tex, src, which):
    """what is left in the stream after processIfContent"""
    tex.input(src)
    tex.processIfContent(which)
    return [(t.catcode, str(t)) for t in tex.itertokens()]
'''
ANCH = ['plasTeX/TeX.py:TeX.processIfContent', 'plasTeX/Base/TeX/Primitives.py:ifnum.invoke', 'plasTeX/Base/TeX/Primitives.py:ifcase.invoke',
        'plasTeX/__init__.py:NewIf.invoke', 'plasTeX/Context.py:Context.newif', 'plasTeX/TeX.py:TeX.readInteger']

SETUP = (r'\newif\ifqa\newif\ifqb\newcounter{ca}\newcounter{cb}\newcount\na\newcount\nb\newdimen\da\newlength{\db}'
         r'\def\mone{1}\def\mtwo{2}\def\mneg{-3}\def\sone{<s>}\def\stwo{<s>}\def\sthree{<t>}\def\empty{}\newcommand\nca{<s>}\newcommand\ncb{<s>}'
         r'\def\pa#1{(#1)}\def\pb#1{(#1)}\def\pc#1{[#1]}\def\pd#1#2{(#1)}')


def end(b, i):
    """numbers are terminated by \\relax, or by a space where TeX takes it as the terminator"""
    return r'\relax ' if i % 3 == 0 or not b[-1].isalnum() or '\\' in b else ' '


def tests(r=None):
    """(test text, needs) -- everything up to the true branch"""
    out = []
    for v in ('true', 'false'):
        out.append(r'\if%s ' % v)
    for pre in (r'\qatrue', r'\qafalse', r'', r'\qatrue\qafalse', r'\qafalse\qatrue\qatrue', r'{\qatrue}', r'\begingroup\qatrue\endgroup', r'\qbtrue'):
        out.append((pre, r'\ifqa '))
    nums = ['0', '1', '2', '-1', '+3', '--2', '- 2', '007', '1 0'[:1], "'17", '"1F', '`a', r'`\b', r'\mone', r'\mtwo\mone', '1\\mone', r'\mneg', r'\na', r'-\na', r'\value{ca}', r'-\value{ca}', '32767', '-0']
    for rel in '<=>':
        for i, a in enumerate(nums):
            for b in (nums[(i * 7 + 3) % len(nums)], a, nums[(i * 5 + 1) % len(nums)]):
                out.append((r'\na=2 \setcounter{ca}{3}', r'\ifnum%s%s%s' % (a + (' ' if i % 2 and not a.startswith('\\') else ''), rel, b) + end(b, i)))
    out.append((r'\na=2\relax\nb=\na', r'\ifnum\na=\nb\relax '))
    out.append((r'\na=2 \nb=\na\relax', r'\ifnum\na=\nb\relax '))
    out.append((r'\na=-2 ', r'\ifnum\na<0 '))
    out.append((r'\na-5 ', r'\ifnum\na=-5 '))
    out.append((r'\na = 12 ', r'\ifnum \na = 12 '))
    out.append((r'\setcounter{ca}{4}\addtocounter{ca}{-6}', r'\ifnum\value{ca}=-2\relax '))
    out.append((r'\stepcounter{ca}\stepcounter{ca}', r'\ifnum\value{ca}>1 '))
    for n in nums:
        out.append((r'\na=2 \setcounter{ca}{3}', r'\ifodd%s%s' % ('' if n.startswith('\\') else ' ', n) + end(n, len(n))))
    dims = ['0pt', '1pt', '12pt', '1in', '72.27pt', '1cm', '10mm', '-2.5pt', '1.5 pt', '+3pc', '36 pt', '1bp', '1dd', '1cc', '65536sp', '1sp', '1truein', '1 true cm', '.5in', '0.5in', r'\da', r'2\da', r'-\da', r'\db', r'.5\db', '1,5pt', '12PT']
    for rel in '<=>':
        for i, a in enumerate(dims):
            for b in (dims[(i * 7 + 2) % len(dims)], a):
                out.append((r'\da=3pt \db=2cm ', r'\ifdim%s%s%s%s' % (a, ' ' if i % 2 and not a.startswith('\\') else '', rel, b + end(b, i))))
    cs = [r'\sone', r'\stwo', r'\sthree', r'\empty', r'\pa', r'\pb', r'\pc', r'\pd', 'a', 'b', r'\relax', r'\sone']
    for i, a in enumerate(cs):
        for b in cs:
            if a.startswith('\\p') != b.startswith('\\p') and not (a == r'\relax' or b == r'\relax'):
                pass
            out.append(r'\ifx%s%s ' % (a + (' ' if a.startswith('\\') and len(b) == 1 else ''), b))
    out.append((r'\let\sx\sone ', r'\ifx\sx\sone '))
    out.append((r'\let\sx\relax ', r'\ifx\sx\relax '))
    out.append((r'\let\sx\nca ', r'\ifx\sx\nca '))
    out.append(r'\ifx\nca\ncb ')
    for pre, t in ((r'\def\sa{a}', r'\ifx\sa a'), (r'\def\sa{\sone}', r'\ifx\sa\sone '), (r'\def\sa{\sone}\def\sb{\sone}', r'\ifx\sa\sb '),
                   (r'\def\sa{}', r'\ifx\sa\empty '), (r'\def\sa{<u>}', r'\ifx\sa\empty '), (r'\def\sa#1.{#1}\def\sb#1,{#1}', r'\ifx\sa\sb '),
                   (r'\def\sa#1{\ifx#1\empty <y>\else <n>\fi}', r'\sa\empty\sa\sone\ifx ab'), (r'\def\sa#1#2{\ifx#1#2<y>\else <n>\fi}', r'\sa\sone\stwo\sa xy\sa xx\sa\sone\sthree\ifx ab'),
                   (r'\newcommand\sa[1]{(#1)}\newcommand\sb[1]{(#1)}', r'\ifx\sa\sb '), (r'\newcommand\sa[1]{(#1)}\newcommand\sb[2]{(#1)}', r'\ifx\sa\sb '),
                   (r'\let\sa\undefinedthing', r'\ifx\nothere\undefinedthing '), ('', r'\ifx\nothere\sone '), ('', r'\ifx\relax\nothere '), ('', r'\ifx\na\nb '), ('', r'\ifx\na\na '),
                   ('', r'\ifx\ifqa\ifqb '), ('', r'\ifx\setcounter\stepcounter '), ('', r'\ifx\iftrue\iffalse '), ('', r'\ifx\ifqa\ifqa ')):
        out.append((pre, t))
    out.append((r'\let\sx=a', r'\ifx\sx a'))
    out.append((r'\let\sx=a', r'\ifx\sx b'))
    out.append((r'\let\sx=a\let\sy=a', r'\ifx\sx\sy '))
    for n in ('sone', 'undefinedthing', 'relax', 'pa', 'nca', 'ca', 'theca', 'qatrue', 'ifqa'):
        out.append(r'\ifdefined\%s ' % n)
    out.append((r'{\def\tmp{x}}', r'\ifdefined\tmp '))
    out.append((r'{\gdef\tmp{x}}', r'\ifdefined\tmp '))
    out.append((r'\def\tmp{x}', r'{\ifdefined\tmp <i>\else <j>\fi}\ifdefined\tmp '))
    return [t if isinstance(t, tuple) else ('', t) for t in out]


def structures():
    """branch structures around a test T; % = the test"""
    return [r'<a>%s<b>\else <c>\fi <d>',
            r'<a>%s<b>\fi <d>',
            r'<a>%s\else <c>\fi <d>',
            r'<a>%s\fi <d>']


def bodies(t):
    return [r'<a>%s<b>\else <c>\fi <d>' % t,
            r'<a>%s<b>\fi <d>' % t,
            r'\def\w{<a>%s<b>\else <c>\fi <d>}\w.\w' % t,
            r'\def\id#1{(#1)}\id{<a>%s<b>\else <c>\fi <d>}' % t,
            r'\newcommand\idd[2][<o>]{#1|#2}\idd[%s<b>\else <c>\fi]{%s<d>\else <e>\fi}' % (t, t) if ']' not in t else r'<x>',
            r'<a>%s\stepcounter{cb}<b>\else\addtocounter{cb}{5}<c>\fi <d>' % t,
            r'<a>%s{<b>}\else{<c>}\fi{<d>}' % t,
            r'{<a>%s<b>\else <c>\fi}<d>' % t,
            r'<a>%s\def\vv{<b>}\else\def\vv{<c>}\fi\vv' % t,
            r'<a>\iftrue %s<b>\else <c>\fi <d>\else <e>\fi <f>' % t,
            r'<a>\iffalse %s<b>\else <c>\fi <d>\else <e>\fi <f>' % t,
            r'<a>\iffalse <d>\else %s<b>\else <c>\fi <e>\fi <f>' % t,
            r'<a>\iftrue <d>\else %s<b>\else <c>\fi <e>\fi <f>' % t,
            r'<a>%s\ifnum1<2 <b>\else <g>\fi\else\ifcase1 <h>\or <i>\else <j>\fi\fi <d>' % t,
            r'<a>\ifcase1 %s<b>\else <c>\fi\or %s<d>\else <e>\fi\else %s<f>\fi\fi <g>' % (t, t, t),
            r'\def\sw#1#2{#1<b>\else <c>\fi(#2)}\sw{%s}{<z>}' % t,
            ]


class Gen(object):
    def __init__(self, r):
        self.r, self.n = r, 0

    def w(self):
        self.n += 1
        return '<w%d>' % self.n

    def num(self, params):
        r = self.r
        c = [str(r.randint(-3, 6)), r'\na', r'\value{ca}', r'\mone', r'-\nb', '"1A', '`a']
        if params:
            c += ['#1', '#1']
        return r.choice(c)

    def test(self, params):
        r = self.r
        k = r.randint(0, 9)
        if k == 0:
            return r'\if%s ' % r.choice(('true', 'false'))
        if k <= 2:
            return r'\ifq%s ' % r.choice('ab')
        if k <= 5:
            return r'\ifnum%s%s%s' % (self.num(params), r.choice('<=>'), self.num(params)) + r'\relax '
        if k == 6:
            return r'\ifodd%s\relax ' % self.num(params)
        if k == 7:
            return r'\ifx%s%s ' % (r.choice((r'\sone', r'\stwo', r'\sthree')), r.choice((r'\sone', r'\stwo', r'\empty')))
        if k == 8:
            return r'\ifdefined%s ' % r.choice((r'\sone', r'\nothere', r'\dyn'))
        return r'\ifdim%s%s%s\relax ' % (r.choice((r'\da', '1pt', '3pt ', '.1in')), r.choice('<=>'), r.choice((r'\db', '7.227pt', '2pt', '-1cm')))

    def item(self, depth, params):
        r = self.r
        k = r.random()
        if depth > 0 and k < .45:
            if r.random() < .3:
                n = r.choice((1, 2, 3, 4))
                s = r'\ifcase%s\relax ' % self.num(params)
                s += r'\or '.join(self.seq(depth - 1, params) for _ in range(n))
                if r.random() < .6:
                    s += r'\else ' + self.seq(depth - 1, params)
                return s + r'\fi '
            s = self.test(params) + self.seq(depth - 1, params)
            if r.random() < .7:
                s += r'\else ' + self.seq(depth - 1, params)
            return s + r'\fi '
        if k < .6:
            return r.choice((r'\q%s%s ' % (r.choice('ab'), r.choice(('true', 'false'))), r'\stepcounter{ca}', r'\addtocounter{ca}{%d}' % r.randint(-3, 3), r'\setcounter{cb}{%d}' % r.randint(0, 9),
                             r'\na=%d ' % r.randint(-2, 5), r'\nb=\na\relax ', r'\def\dyn{%s}' % self.w(), r'\let\sone\sthree ', r'\da=%dpt ' % r.randint(0, 9)))
        if k < .66 and depth > 0:
            return '{' + self.seq(depth - 1, params) + '}'
        if k < .72 and params:
            return '#1'
        if k < .78 and not params:
            return r.choice((r'\umac{%d}' % r.randint(-2, 5), r'\umac{\mtwo}', r'\vmac{%d}{%s}' % (r.randint(0, 4), self.seq(0, None))))
        return self.w() + r.choice(('', '.', '{}'))

    def seq(self, depth, params):
        return ''.join(self.item(depth, params) for _ in range(self.r.choice((1, 1, 2, 3))))

    def program(self):
        s = SETUP + r'\na=%d \nb=%d \setcounter{ca}{%d}\da=3pt \db=2cm ' % (self.r.randint(-2, 4), self.r.randint(-1, 3), self.r.randint(0, 4))
        s += r'\def\umac#1{%s}\newcommand\vmac[2]{%s#2}' % (self.seq(3, 1).replace(r'\def\dyn', r'\gdef\dyn'), self.seq(2, 1).replace(r'\def\dyn', r'\gdef\dyn'))
        for _ in range(self.r.choice((2, 3, 4))):
            s += self.item(3, None)
        return s + r'(\arabic{ca}\arabic{cb})'


def arrangements(maxlen):
    """token streams after an if, split by the branch rule: lists of items"""
    import itertools
    base = ['x', r'\or ', r'\else ', r'\ifnum ', r'\fi ', r'\ifx ', '{', '}']
    out = []
    for n in range(0, maxlen + 1):
        for seq in itertools.product(base[:6], repeat=n):
            depth = 0
            ok = True
            st = []
            stack = ['case']
            for t in seq:
                if t.startswith(r'\if'):
                    stack.append('if')
                elif t == r'\fi ':
                    if len(stack) == 1:
                        ok = False
                        break
                    stack.pop()
                elif t == r'\else ':
                    if stack[-1] == 'else':
                        ok = False
                        break
                    stack[-1] = 'else'
                elif t == r'\or ':
                    if stack[-1] != 'case':
                        ok = False
                        break
            if ok and len(stack) == 1:
                out.append(seq)
    return out


def select(seq, which):
    """branch of TeX's rule: list of items"""
    cases, els, depth = [[]], None, 0
    cur = cases[0]
    for t in seq:
        if t.startswith(r'\if'):
            depth += 1
        elif t == r'\fi ':
            depth -= 1
        elif depth == 0 and t == r'\or ':
            cur = []
            cases.append(cur)
            continue
        elif depth == 0 and t == r'\else ':
            cur = els = []
            continue
        cur.append(t)
    if which is True:
        return cases[0]
    if which is False:
        return els or []
    if 0 <= which < len(cases):
        return cases[which]
    return els or []


def main(tier):
    C = Check('C03', TITLE)
    C.boot(DRIVER)
    # a TeX object in the state after the common definitions; without one every program carries them itself
    ready = C.prepare(SETUP)
    C.freeze()
    V = os.environ.get('VERIF_VERBOSE')
    seen = set()

    def prog(rule, src, tag=''):
        if src in seen:
            return False
        seen.add(src)
        try:
            want = minitex.squash(minitex.evaluate(src))
        except (minitex.Bad, RecursionError) as e:
            if V and rule != 'r':
                print('   not a schema (%s): %s' % (e, src.replace(SETUP, '')))
            return False
        C.expect('%s%s: %s' % (rule.split()[0], tag, src.replace(SETUP, '')), rule, ANCH, 'ptext',
                 [ready, T(src[len(SETUP):])] if not isinstance(ready, Broken) and src.startswith(SETUP) else [C.tex, T(src)], text_is(want, src))
        return True

    tt = tests()
    for i, (pre, t) in enumerate(tt):
        bs = bodies(t)
        pick = bs if tier == 'thorough' else [bs[0], bs[(1 + i) % len(bs)], bs[(6 + 3 * i) % len(bs)], bs[5]]
        for b in pick:
            prog('branch selected by each test', SETUP + pre + ' ' + b + r'(\arabic{ca}\arabic{cb})')
    # ifcase
    for n in range(1, 5):
        for els in (False, True):
            for sel in ['-2', '-1', '0', '1', '2', '3', '4', '5', '7', r'\value{ca}', r'\na', r'\mtwo', r'\mneg']:
                body = r'\or '.join('<c%d>' % i for i in range(n)) + (r'\else <e>' if els else '')
                src = SETUP + r'\na=1 \setcounter{ca}{2}<a>\ifcase%s\relax %s\fi <d>' % (('' if sel.startswith('\\') else ' ') + sel, body)
                prog('ifcase selects the listed case, else \\else, else nothing', src)
                body2 = r'\or '.join(r'\stepcounter{cb}\addtocounter{ca}{%d}<c%d>' % (i, i) for i in range(n)) + (r'\else\addtocounter{cb}{7}<e>' if els else '')
                prog('ifcase side effects', SETUP + r'\na=1 \setcounter{ca}{2}\def\w{\ifcase%s\relax %s\fi}\w\w(\arabic{ca}.\arabic{cb})' % (('' if sel.startswith('\\') else ' ') + sel, body2))
                body3 = r'\or '.join(r'\ifcase%d <x%d>\or <y%d>\else <z%d>\fi<c%d>' % (i % 3, i, i, i, i) for i in range(n)) + (r'\else\ifcase 9 <u>\or <v>\else <w>\fi<e>' if els else '')
                prog('nested ifcase', SETUP + r'\na=1 \setcounter{ca}{2}<a>\ifcase%s\relax %s\fi <d>' % (('' if sel.startswith('\\') else ' ') + sel, body3.replace(r'\fi<', r'\fi <')))
    # things skipped branches must not disturb or run
    junk = [r'\setcounter{ca}{9}', r'\def\sone{<k>}', r'\newcommand\sfoo{<k>}', r'\qatrue', r'\newcounter{cq}', r'\newif\ifqz', r'{', '}', r'\undefinedhere', r'\ifnum 1>2 <k>\else <l>\fi ', r'\ifcase 3 <k>\or <l>\else\ifx ab\fi\fi ',
            r'\begin{center}<k>\end{center}', r'\gdef\sone{<k>}', r'\stepcounter{ca}\addtocounter{cb}{3}', r'\iftrue\else\fi\iffalse\fi\ifqa\ifqb\else\fi\fi ', r'\na=7 ', r'#', '$', r'\csname sone\endcsname', r'\let\sone\relax ', r'\let\ifqc\iftrue ', r'\def\ifx{<k>}\fi'.replace(r'\def\ifx{<k>}\fi', r'\expandafter\sone\sone '), '%\\fi\n']
    end = r'(\arabic{ca}.\arabic{cb}.\ifqa <p>\else <q>\fi.\sone.\ifdefined\sfoo <r>\fi.\ifnum\na=7 <na>\fi)'
    for j in junk:
        prog('untaken branches have no effect', SETUP + r'<a>\iffalse <b>' + j + r'\fi <c>' + end)
        prog('untaken branches have no effect', SETUP + r'<a>\iffalse <b>' + j + r'\else <d>\fi <c>' + end)
        prog('untaken branches have no effect', SETUP + r'<a>\iftrue <d>\else <b>' + j + r'\fi <c>' + end)
        prog('untaken branches have no effect', SETUP + r'<a>\ifcase 1 <b>' + j + r'\or <d>\or <e>' + j + r'\else ' + j + r'\fi <c>' + end)
        prog('untaken branches have no effect', SETUP + r'<a>\ifcase 5 <b>' + j + r'\or <e>' + j + r'\fi <c>' + end)
        if '#' not in j and j not in '{}' and '%' not in j:
            prog('untaken branches have no effect', SETUP + r'\def\w{\ifqb <b>' + j + r'\else <e>\fi}<a>\w{}<c>' + end)
            prog('untaken branches have no effect', SETUP + r'\def\w#1{\ifqb #1\else <e>\fi}<a>\w{<b>' + j + r'}<c>' + end)
            prog('untaken branches have no effect', SETUP + r'\def\w#1#2{\ifnum#1>3 #2\else <e>\fi}<a>\w{1}{<b>' + j + r'}<c>' + end)
    # other macros whose name begins with "if"
    prog('macros that are not conditionals do not nest', SETUP + r'\def\iffy{<f>}<a>\iffalse\iffy <b>\fi <c>\iftrue\iffy <d>\else\iffy <e>\fi <g>')
    prog('macros that are not conditionals do not nest', SETUP + r'\newcommand\ifempty[1]{(#1)}<a>\iffalse\ifempty{<b>}\else <c>\fi <d>\iftrue\ifempty{<e>}\else <f>\fi <g>')
    prog('aliases of conditionals nest', SETUP + r'\let\ifmine\iftrue <a>\iffalse\ifmine <b>\else <c>\fi <d>\else <e>\fi <f>\ifmine <g>\else <h>\fi')
    prog('switches', r'\newif\ifqx <a>\ifqx <b>\else <c>\fi\qxtrue\ifqx <d>\else <e>\fi{\qxfalse\ifqx <f>\else <g>\fi}')
    prog('switches', r'\newif\ifqx\newif\ifqy \qxtrue\ifqx\ifqy <a>\else <b>\fi\else <c>\fi\qytrue\ifqx\ifqy <d>\else <e>\fi\else <f>\fi')
    prog('switches', r'\newif\ifqx\def\set#1{\csname qx#1\endcsname}\set{true}\ifqx <a>\else <b>\fi\set{false}\ifqx <c>\else <d>\fi')
    prog('switches', r'\newif\ifqx\let\ifqy\ifqx\qxtrue\ifqx <a>\fi')
    # processIfContent as a transducer
    for seq in arrangements(6 if tier == 'thorough' else 4):
        haor = any(True for t in seq if t == r'\or ')
        i = [0]

        def word(t):
            if t == 'x':
                i[0] += 1
                return '<x%d>' % i[0]
            return t
        items = [word(t) for t in seq]
        src = ''.join(items) + r'\fi <z>'
        lab = {}
        for which in ([True, False] if r'\or ' not in seq or True else []) + [0, 1, 2, 3, -1, -2, 100]:
            if isinstance(which, bool) and top_or(seq):
                continue
            # select on the labelled items
            want = [tk(t) for t in select(items, which)] + [(11, '<z>')]
            C.expect('processIfContent(%r): %s' % (which, src), 'branch scanner splits at \\or/\\else of nesting 0 and stops at the matching \\fi', ANCH[0], 'branch', [C.tex, T(src), which], want)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    count = 9000 if tier == 'thorough' else 500
    k = made = 0
    while made < count and k < 5 * count:
        k += 1
        if prog('r', Gen(random.Random('%d/%d' % (seed, k))).program(), ' %d.%d' % (seed, k)):
            made += 1
    return C.finish(tier)


def top_or(seq):
    d = 0
    for t in seq:
        if t.startswith(r'\if'):
            d += 1
        elif t == r'\fi ':
            d -= 1
        elif t == r'\or ' and d == 0:
            return True
    return False


def tk(t):
    return (0, t.strip()[1:]) if t[0] == '\\' else (11, t)
