"""C10: abstract interpretation of lists and tables against the structure their source prescribes.

Generated lists and tables (texts are unknown words) are parsed and digested abstractly; items, rows, cells, spans, ruled edges and
the content of every cell and item are compared with the ones the source prescribes."""
import random
import re

from .core import Check, T, short, ListV

DRIVER = r'''
from plasTeX.DOM import Node

LISTS = ('itemize', 'enumerate', 'description', 'trivlist', 'list')
TABLES = ('tabular', 'array', 'tabular*', 'tabularx')
RULES = ('hline', 'cline', 'vline', 'toprule', 'midrule', 'bottomrule', 'cmidrule')


class Obs(object):
    def content(self, nodes):
        out = []
        for c in nodes:
            if c.nodeType == Node.TEXT_NODE:
                out.append(str(c))
            elif c.level == Node.PAR_LEVEL:
                out.append(' ')
                out.extend(self.content(c.childNodes))
                out.append(' ')
            elif c.nodeName in RULES or c.nodeName in ('def', 'newcommand', 'newenvironment'):
                pass
            elif c.nodeName in LISTS:
                out.append(self.list(c))
            elif c.nodeName in TABLES:
                out.append(self.table(c))
            elif c.nodeName == 'multicolumn':
                out.extend(self.content(c.childNodes))
            elif isinstance(getattr(c, 'str', None), str):
                out.append(c.str)
            else:
                out.append((str(c.nodeName), self.content(c.childNodes)))
        return out

    def list(self, n):
        items = []
        stray = []
        for c in n.childNodes:
            if c.nodeName == 'item':
                t = c.attributes.get('term')
                items.append((self.content(t.childNodes) if t is not None else None, self.content(c.childNodes)))
            elif c.nodeType == Node.TEXT_NODE:
                stray.append(str(c))
            elif c.level == Node.PAR_LEVEL:
                stray.append(self.content(c.childNodes))
            else:
                stray.append(str(c.nodeName))
        return (str(n.nodeName), items, stray)

    def table(self, n):
        rows = []
        for r in n.childNodes:
            cells = []
            for c in r.childNodes:
                st = c.style
                sides = []
                for s in ('top', 'bottom', 'left', 'right'):
                    if 'border-' + s in st or 'border-%s-style' % s in st:
                        sides.append(s)
                cells.append((c.attributes.get('colspan', 1), sides, self.content(c.childNodes)))
            rows.append((str(r.nodeName), cells))
        return (str(n.nodeName), len(n.colspec) if n.colspec else None, n.numCols, rows)


def shape(src):
    tex = TeX()
    tex.input(src)
    doc = tex.parse()
    o = Obs()
    return o.content(doc.childNodes)


def colspec(spec):
    tex = TeX()
    tex.input(spec)
    toks = [t for t in tex]
    return toks
'''
ANCH = ['plasTeX/Base/LaTeX/Arrays.py:Array.invoke', 'plasTeX/Base/LaTeX/Arrays.py:Array.ArrayRow.digest', 'plasTeX/Base/LaTeX/Arrays.py:Array.ArrayCell.digest',
        'plasTeX/Base/LaTeX/Arrays.py:Array.applyBorders', 'plasTeX/Base/LaTeX/Arrays.py:Array.BorderCommand.applyBorders', 'plasTeX/Base/LaTeX/Arrays.py:Array.compileColspec',
        'plasTeX/__init__.py:Macro.digestUntil']
LANCH = ['plasTeX/Base/LaTeX/Lists.py:List.item.digest', 'plasTeX/Base/LaTeX/Lists.py:List.digest', 'plasTeX/Base/LaTeX/Lists.py:List.invoke', 'plasTeX/__init__.py:Macro.digestUntil',
         'plasTeX/__init__.py:Environment.digest']


# ---------------------------------------------------------------- model side
def norm(seq):
    """join strings, squeeze blanks, drop blanks at the ends"""
    out = []
    for x in seq:
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            x = node(x)
            if x[0] == 'bgroup' and any(not isinstance(y, str) and y[0] == 'LIST' for y in x[1]):
                # the group of a user environment
                out.extend(x[1])
            else:
                out.append(x)
    res = []
    for x in out:
        if isinstance(x, str):
            x = re.sub(r'\s+', ' ', x).strip()
            if not x:
                continue
        res.append(x)
    return res


def node(x):
    x = list(x)
    if x[0] in ('LIST', 'TABLE'):
        return tuple(x)
    if len(x) == 2:
        return (x[0], norm(x[1]))
    if len(x) == 3:
        return ('LIST', x[0], [(None if t is None else norm(t), norm(c)) for t, c in x[1]], norm(x[2]))
    name, ncols, numcols, rows = x
    return ('TABLE', name, ncols, numcols, rows)


def edges(rows):
    """ruled edges: vertical (row, boundary), horizontal (boundary, column)"""
    v, h = set(), set()
    for r, row in enumerate(rows):
        c = 0
        for span, sides, _ in row:
            if 'left' in sides:
                v.add((r, c))
            if 'right' in sides:
                v.add((r, c + span))
            for k in range(span):
                if 'top' in sides:
                    h.add((r, c + k))
                if 'bottom' in sides:
                    h.add((r + 1, c + k))
            c += span
    return v, h


class Table(object):
    """a table as written: rows of (span, own spec or None, content source, content expected); rules[r] = rule sources before row r"""

    def __init__(self, specsrc, bars, rows, rules, env='tabular', sep=None, nl=None):
        self.specsrc, self.bars, self.rows, self.rules, self.env = specsrc, bars, rows, rules, env
        self.n = len(bars) - 1
        self.sep, self.nl = sep or (lambda: ' & '), nl or (lambda: ' \\\\ ')

    def src(self):
        pre = {'tabular*': '{10cm}', 'tabularx': '{10cm}'}.get(self.env, '')
        s = '\\begin{%s}%s{%s}' % (self.env, pre, self.specsrc)
        for r, row in enumerate(self.rows):
            s += ''.join(x[0] for x in self.rules.get(r, []))
            cells = []
            for span, spec, csrc, _ in row:
                cells.append('\\multicolumn{%d}{%s}{%s}' % (span, spec[0], csrc) if spec else csrc)
            s += self.sep().join(cells)
            if r < len(self.rows) - 1 or self.rules.get(len(self.rows)):
                s += self.nl()
        s += ''.join(x[0] for x in self.rules.get(len(self.rows), []))
        return s + '\\end{%s}' % self.env

    def expect(self):
        v, h = set(), set()
        for r, row in enumerate(self.rows):
            c = 0
            for span, spec, _, _ in row:
                if spec:
                    if spec[1]:
                        v.add((r, c))
                    if spec[2]:
                        v.add((r, c + span))
                else:
                    if c == 0 and self.bars[0]:
                        v.add((r, 0))
                    if self.bars[c + 1]:
                        v.add((r, c + 1))
                c += span
        for r, rules in self.rules.items():
            for _, a, b in rules:
                for c in range(a, b):
                    h.add((r, c))
        return ('TABLE', self.env, self.n, [[(span, norm_want(exp)) for span, _, _, exp in row] for row in self.rows], v, h)


def diff(got, want, where=''):
    """None or the difference between observed and prescribed content"""
    got, want = norm(got), norm_want(want)
    for i in range(max(len(got), len(want))):
        g = got[i] if i < len(got) else None
        w = want[i] if i < len(want) else None
        if isinstance(g, str) or isinstance(w, str) or g is None or w is None:
            if g != w:
                return '%s holds %s, prescribed %s' % (where or 'the document', short(g, 200), short(w, 200))
            continue
        if w[0] == 'LIST':
            if g[0] != 'LIST' or g[1] != w[1]:
                return '%s holds %s, prescribed a list %s' % (where or 'the document', short(g, 200), w[1])
            if len(g[2]) != len(w[2]):
                return 'the %s in %s has %d items, %d are written' % (w[1], where or 'the document', len(g[2]), len(w[2]))
            if g[3]:
                return 'the %s in %s holds %s outside its items' % (w[1], where or 'the document', short(g[3], 200))
            for k, ((gt, gc), (wt, wc)) in enumerate(zip(g[2], w[2])):
                at = '%s item %d' % (w[1], k + 1)
                if (gt is None) != (wt is None) or wt is not None and diff(gt, wt, at):
                    return '%s has the term %s, prescribed %s' % (at, short(gt), short(wt))
                e = diff(gc, wc, at)
                if e:
                    return e
            continue
        if w[0] == 'TABLE':
            if g[0] != 'TABLE' or g[1] != w[1]:
                return '%s holds %s, prescribed a table %s' % (where or 'the document', short(g, 200), w[1])
            if g[2] != w[2]:
                return 'the column specification has %s columns, %d are declared' % (g[2], w[2])
            rows = [list(r[1]) for r in g[4]]
            if len(rows) != len(w[3]):
                return 'the %s in %s has %d rows, %d are written' % (w[1], where or 'the document', len(rows), len(w[3]))
            for r, (gr, wr) in enumerate(zip(rows, w[3])):
                at = 'row %d' % (r + 1)
                if len(gr) != len(wr):
                    return '%s has %d cells, %d are written' % (at, len(gr), len(wr))
                for c, (gc, wc) in enumerate(zip(gr, wr)):
                    if gc[0] != wc[0]:
                        return '%s cell %d spans %s columns, %d are written' % (at, c + 1, gc[0], wc[0])
                    e = diff(gc[2], wc[1], '%s cell %d' % (at, c + 1))
                    if e:
                        return e
            mc = max(sum(c[0] for c in r) for r in w[3]) if w[3] else 0
            if g[3] != mc:
                return 'the table has %s columns, its widest row has %d' % (g[3], mc)
            gv, gh = edges(rows)
            for what, a, b in (('vertical rule left of column', gv, w[4]), ('horizontal rule above row', gh, w[5])):
                for x in sorted(a ^ b):
                    if what.startswith('v'):
                        d = 'row %d: %s rule before column %d' % (x[0] + 1, 'unwanted' if x in a else 'missing', x[1] + 1)
                    else:
                        d = '%s rule above row %d, column %d' % ('unwanted' if x in a else 'missing', x[0] + 1, x[1] + 1)
                    return d
            continue
        if g[0] in ('LIST', 'TABLE') or g[0] != w[0]:
            return '%s holds %s, prescribed %s' % (where or 'the document', short(g, 200), short(w, 200))
        e = diff(g[1], w[1], '%s of %s' % (g[0], where))
        if e:
            return e
    return None


def norm_want(seq):
    out = []
    for x in seq:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif not isinstance(x, str) and len(x) == 2:
            out.append((x[0], norm_want(x[1])))
        else:
            out.append(x)
    res = []
    for x in out:
        if isinstance(x, str):
            x = re.sub(r'\s+', ' ', x).strip()
            if not x:
                continue
        res.append(x)
    return res


def bad(x):
    """an inexact observation"""
    if isinstance(x, (list, tuple)):
        return any(bad(y) for y in x)
    return not (x is None or isinstance(x, (str, int)))


def want_is(w):
    def p(o, facts):
        if bad(o):
            return 'UNDECIDED'
        return diff(list(o), w)
    return p


# ---------------------------------------------------------------- generation
class G(object):
    def __init__(self, seed=0):
        self.r = random.Random(seed)
        self.w = 0

    def word(self):
        self.w += 1
        return '<w%d>' % (self.w % 30 + 1)

    # -- inline content: (source, expected)
    def c_word(self):
        w = self.word()
        return w, [w]

    def c_two(self):
        a, b = self.word(), self.word()
        return '%s %s' % (a, b), ['%s %s' % (a, b)]

    def c_empty(self):
        return '', []

    def c_group(self):
        a, b = self.word(), self.word()
        return '{%s} %s' % (a, b), [('bgroup', [a]), ' ' + b]

    def c_emph(self):
        a, b = self.word(), self.word()
        return '%s \\emph{%s}' % (a, b), [a, ('emph', [b])]

    def c_decl(self):
        n = self.r.choice(['bfseries', 'itshape', 'em', 'large', 'ttfamily', 'bf'])
        a, b = self.word(), self.word()
        return '%s \\%s %s' % (a, n, b), [a, (n, [b])]

    def c_decl0(self):
        n = self.r.choice(['bfseries', 'small', 'it'])
        a = self.word()
        return '\\%s %s' % (n, a), [(n, [a])]

    def c_gdecl(self):
        a, b = self.word(), self.word()
        return '{\\bfseries %s} %s' % (a, b), [('bgroup', [('bfseries', [a])]), b]

    def c_amp(self):
        a, b = self.word(), self.word()
        return '%s\\& %s' % (a, b), [a, '& ' + b]

    def c_math(self):
        a, b = self.word(), self.word()
        return '%s $x$ %s' % (a, b), [a, ('math', ['x']), b]

    def c_def(self):
        a = self.word()
        return '\\def\\q{%s}\\q' % a, [a]

    def c_undef(self):
        return '\\q', ['QQ']

    def c_verb(self):
        a = self.word()
        return '\\verb|a&b| %s' % a, [('verb', ['a&b']), a]

    def c_brack(self):
        a = self.word()
        return '%s [%s]' % (a, a), ['%s [%s]' % (a, a)]

    CELLS = ['word', 'two', 'empty', 'group', 'emph', 'decl', 'decl0', 'gdecl', 'amp', 'math', 'def', 'undef', 'brack']

    def cell(self, kinds=None, depth=0):
        k = self.r.choice(kinds or self.CELLS + ['nested'] * (depth == 0))
        if k == 'nested':
            t = self.table(self.r.randint(1, 3), self.r.randint(1, 2), depth=1)
            a = self.word()
            return a + ' ' + t.src(), [a, t.expect()]
        if k == 'list':
            s, e = self.lst(self.r.choice(['itemize', 'enumerate', 'description']), 1)
            return s, e
        return getattr(self, 'c_' + k)()

    # -- tables
    def spec(self, n, bars=None, plain=False):
        """n columns -> (source, bars)"""
        r = self.r
        bars = bars or [r.random() < .4 for _ in range(n + 1)]
        s = '|' if bars[0] else ''
        i = 0
        while i < n:
            k = r.random()
            if not plain and k < .12 and i + 2 <= n and bars[i + 1] == bars[i + 2]:
                m = 2
                while i + m < n and bars[i + m + 1] == bars[i + 1] and r.random() < .5:
                    m += 1
                s += '*{%d}{%s%s}' % (m, r.choice('lcr'), '|' if bars[i + 1] else '')
                i += m
                continue
            if not plain and k < .25:
                s += '@{%s}' % r.choice(['', '.', '\\quad', ' : ', '$\\vert$'])
            if not plain and .25 < k < .3:
                s += '>{\\bfseries}'
            s += r.choice(['l', 'c', 'r', 'p{2cm}', 'l ', 'p{.3\\textwidth}'] if not plain else ['l', 'c', 'r'])
            if not plain and .3 < k < .35:
                s += '<{\\quad}'
            if bars[i + 1]:
                s += '|' if plain or k < .8 else '||'
            i += 1
        if not plain and r.random() < .2:
            s += '@{}'
        return s, bars

    def mspec(self, right=None, left=None):
        left = self.r.random() < .3 if left is None else left
        right = self.r.random() < .5 if right is None else right
        return ('|' if left else '') + self.r.choice(['c', 'l', 'r', 'p{3cm}', '@{}c@{}']) + ('|' if right else ''), left, right

    def table(self, ncols, nrows, depth=0, short_rows=False, kinds=None, env='tabular', rule=.35, multi=.2, plain=False):
        r = self.r
        specsrc, bars = self.spec(ncols, plain=plain)
        rows = []
        for i in range(nrows):
            while True:
                row, c = [], 0
                while c < ncols:
                    span, sp = 1, None
                    if r.random() < multi:
                        span = r.randint(1, ncols - c)
                        sp = self.mspec()
                    row.append((span, sp) + self.cell(kinds, depth))
                    c += span
                if short_rows and len(row) > 1 and r.random() < .4:
                    row = row[:r.randint(1, len(row) - 1)]
                if any(x[3] for x in row) and row[0][2] != '':
                    break
            rows.append(row)
        rules = {}
        for b in range(nrows + 1):
            if short_rows:
                continue
            if r.random() < rule:
                rules[b] = [(r.choice(['\\hline ', '\\hline\n', '\\hline\\hline ', '\\toprule ', '\\midrule ']), 0, ncols)]
            elif r.random() < rule / 2:
                row = rows[min(b, nrows - 1)]
                cuts = [0]
                for x in row:
                    cuts.append(cuts[-1] + x[0])
                i = r.randrange(len(cuts) - 1)
                j = r.randint(i + 1, len(cuts) - 1)
                a = [(r.choice(['\\cline{%d-%d}', '\\cline{%d-%d} ', '\\cmidrule(lr){%d-%d} ']) % (cuts[i] + 1, cuts[j]), cuts[i], cuts[j])]
                if j < len(cuts) - 1 and r.random() < .5:
                    k = r.randrange(j, len(cuts) - 1)
                    a.append(('\\cline{%d-%d}' % (cuts[k] + 1, cuts[-1]), cuts[k], cuts[-1]))
                rules[b] = a
        return Table(specsrc, bars, rows, rules, env, sep=lambda: r.choice([' & ', '&', '\n&']), nl=lambda: r.choice([' \\\\ ', '\\\\\n', '\\\\*', '\\\\[2pt] ', ' \\tabularnewline ']))

    # -- lists
    def lst(self, kind, depth, kinds=None, nitems=None):
        r = self.r
        pre = {'list': '{}{}'}.get(kind, '')
        s = '\\begin{%s}%s%s' % (kind, pre, r.choice(['', '\n', ' ', '\n\n']))
        items = []
        for _ in range(nitems or r.randint(1, 4)):
            term = None
            if kind == 'description' or r.random() < .2:
                ts, te = self.cell(['word', 'two', 'emph', 'math', 'group', 'gdecl', 'amp'])
                term = te
                s += '\\item[%s] ' % ts
            else:
                s += '\\item '
            exp = []
            for j in range(r.randint(1, 3)):
                k = r.random()
                if depth > 1 and k < .45:
                    a, e = self.lst(r.choice(['itemize', 'enumerate', 'description']), depth - 1, kinds)
                elif k < .55:
                    t = self.table(r.randint(1, 3), r.randint(1, 3), depth=1)
                    a, e = t.src(), [t.expect()]
                elif k < .62:
                    x, e = self.cell(['word', 'emph', 'two'])
                    a, e = '\\begin{quote}%s\\end{quote}' % x, [('quote', e)]
                else:
                    a, e = self.cell(kinds or ['word', 'two', 'group', 'emph', 'gdecl', 'amp', 'math'])
                if j == 0 and a.startswith('['):
                    a = '{}' + a
                sep = r.choice([' ', '\n\n', '\n'])
                s += a + sep
                exp += e + [' ']
            items.append((term, exp))
        s += '\\end{%s}' % kind
        return s, [('LIST', kind, items, [])]


RULE = {'cell': 'every kind of cell content before, between and after other cells', 'spec': 'column specifications: declared columns and vertical bars',
        'multi': 'spans of \\multicolumn at every position', 'rule': 'rules above and below every row, full and partial, mark exactly the adjacent cells',
        'rows': 'row and cell separators, short rows', 'leak': 'formatting of a cell ends with the cell', 'table': 'random tables', 'list': 'lists of every kind and depth',
        'item': 'every kind of item content', 'lists': 'random nested lists', 'env': 'array environments', 'wrap': 'lists and tables inside other constructs, or written through macros'}


def main(tier):
    C = Check('C10', 'abstract interpretation of generated lists and tables compared with the items, rows, cells, spans and ruled edges their source prescribes')
    C.boot(DRIVER, ['plasTeX.Packages.article'])
    C.freeze()
    thorough = tier == 'thorough'

    def emit(fam, id, src, want, anch=ANCH):
        g = G()
        text = '\\documentclass{article}\\newcommand{\\q}{QQ}\\begin{document}<w40> %s <w41>\\end{document}' % src
        C.expect('%s: %s' % (fam, id), RULE[fam], anch, 'shape', [T(text)], want_is([('documentclass', []), ('document', ['<w40> '] + want + [' <w41>'])]),
                 max_steps=100000000, time_limit=120)

    def tab(fam, id, t):
        emit(fam, id, t.src(), [t.expect()])

    def simple(n, rows, g):
        return [[(1, None) + g.c_word() for _ in range(n)] for _ in range(rows)]

    # cell contents
    g = G(1)
    for k in G.CELLS + ['nested', 'list']:
        for pos in range(3):
            for env in ('tabular', 'array') if k not in ('list', 'nested', 'math', 'verb', 'undef', 'def') and thorough else ('tabular',):
                rows = simple(3, 3, g)
                for r in range(3):
                    rows[r][pos] = (1, None) + g.cell([k])
                if k == 'empty' and pos == 0:
                    rows = [[(1, None) + g.c_word()] + r for r in rows]
                t = Table('|l' * len(rows[0]) + '|', [True] * (len(rows[0]) + 1), rows, {})
                tab('cell', '%s-%d-%s' % (k, pos, env), t)
    for k in ('decl', 'decl0', 'def', 'gdecl'):
        for j in ('word', 'undef', 'emph', 'math', 'two'):
            rows = [[(1, None) + g.cell([k]), (1, None) + g.cell([j])], [(1, None) + g.cell([j]), (1, None) + g.cell([k])], [(1, None) + g.cell([j])]]
            tab('leak', '%s-%s' % (k, j), Table('ll', [False] * 3, rows, {}))
            rows = [[(2, ('|c|', True, True)) + g.cell([k])], [(1, None) + g.cell([j]), (1, ('c', False, False)) + g.cell([k])], [(1, None) + g.cell([j]), (1, None) + g.cell([j])]]
            tab('leak', '%s-%s-multi' % (k, j), Table('ll', [False] * 3, rows, {0: [('\\hline ', 0, 2)], 1: [('\\cline{1-2}', 0, 2)]}))
    # column specifications
    specs = [('l', 1, []), ('|l|', 1, [0, 1]), ('l|l', 2, [1]), ('||l||', 1, [0, 1]), ('@{}l', 1, []), ('@{}ll@{}', 2, []), ('l@{}l', 2, []), ('|@{}l@{}|', 1, [0, 1]), ('l@{.}r', 2, []), ('*{3}{l}', 3, []),
             ('*{2}{l|}', 2, [1, 2]), ('|*{2}{l|}', 2, [0, 1, 2]), ('*{2}{|l}', 2, [0, 1]), ('l*{2}{|c}|r', 4, [1, 2, 3]), ('p{2cm}', 1, []), ('p{2cm}|p{3cm}', 2, [1]), ('|p{.5\\textwidth}|', 1, [0, 1]),
             ('l | l', 2, [1]), (' l l ', 2, []), ('l@{ : }|r', 2, [1]), ('l|@{ : }r', 2, [1]), ('*{2}{l@{}}', 2, []), ('*{2}{p{1cm}|}l', 3, [1, 2]), ('*{1}{c}', 1, []), ('*{2}{*{2}{l}|}', 4, [2, 4]), ('@{}p{2cm}@{}', 1, []),
             ('|@{}c|@{}c|', 2, [0, 1, 2]), ('>{\\bfseries}l|l<{x}', 2, [1]), ('@{\\quad}l@{\\quad}', 1, []), ('@{a}l@{b}l@{c}', 2, []), ('*{5}c', 5, []), ('|*5{c|}', 5, [0, 1, 2, 3, 4, 5]), ('l@{$=$}r', 2, []), ('@{}*{2}{l}@{}', 2, []),
             ('|l|l|', 2, [0, 1, 2]), ('rcl', 3, []), ('r|cl', 3, [1]), ('|r|c|l|', 3, [0, 1, 2, 3]), ('l@{l|l}l', 2, []), ('l@{\\hspace{2cm}}l', 2, []), ('*{2}{r@{.}l}', 4, [])]
    for i, (s, n, bars) in enumerate(specs):
        for env in ('tabular', 'tabular*', 'tabularx', 'array'):
            if env != 'tabular' and not thorough and i % 4:
                continue
            rows = simple(n, 2, g)
            t = Table(s, [b in bars for b in range(n + 1)], rows, {}, 'tabular' if env == 'array' else env)
            if env == 'array':
                t.env = 'array'
                emit('env', 'array-%s' % s.replace(' ', '_'), '$' + t.src() + '$', [('math', [t.expect()])])
            else:
                tab('spec', '%s-%s' % (s.replace(' ', '_'), env), t)
    # spans
    for n in range(1, 6 if thorough else 5):
        for a in range(n):
            for span in range(1, n - a + 1):
                for left, right in ((False, False), (True, True), (False, True), (True, False)):
                    if not thorough and (a + span + n + left) % 2:
                        continue
                    for bars in ([True] * (n + 1), [False] * (n + 1)):
                        rows = simple(n, 2, g)
                        rows[0] = rows[0][:a] + [(span, ('|' * left + 'c' + '|' * right, left, right)) + g.c_word()] + rows[0][a + span:]
                        s = ('|' if bars[0] else '') + ''.join('l' + ('|' if b else '') for b in bars[1:])
                        tab('multi', '%d-%d-%d-%d%d%d' % (n, a, span, left, right, bars[0]), Table(s, bars, rows, {}))
    # rules
    n = 4
    layouts = {'plain': [1, 1, 1, 1], 'm12': [2, 1, 1], 'm23': [1, 2, 1], 'm34': [1, 1, 2], 'm123': [3, 1], 'm1234': [4], 'm12m34': [2, 2]}
    for name, lay in layouts.items():
        cuts = [0]
        for x in lay:
            cuts.append(cuts[-1] + x)
        for i in range(len(cuts)):
            for j in range(i + 1, len(cuts)):
                for b in range(4):
                    if not thorough and (i + j + b) % 2:
                        continue
                    rows = [[(x, ('c', False, False) if x > 1 else None) + g.c_word() for x in lay] for _ in range(3)]
                    rules = {b: [('\\cline{%d-%d}' % (cuts[i] + 1, cuts[j]), cuts[i], cuts[j])]}
                    tab('rule', '%s-%d-%d-%d' % (name, i, j, b), Table('llll', [False] * 5, rows, rules))
        rows = [[(x, ('c', False, False) if x > 1 else None) + g.c_word() for x in lay] for _ in range(3)]
        for cmd in ('\\hline', '\\hline\\hline', '\\toprule', '\\midrule', '\\bottomrule', '\\hline \n'):
            for bs in ((0,), (1,), (3,), (0, 1, 2, 3), (2, 3)):
                tab('rule', '%s-%s-%s' % (name, cmd.replace('\\', '').strip(), ''.join(map(str, bs))), Table('llll', [False] * 5, rows, {b: [(cmd + ' ', 0, 4)] for b in bs}))
        if len(cuts) > 3:
            for b in range(4):
                tab('rule', '%s-two-%d' % (name, b), Table('llll', [False] * 5, rows, {b: [('\\cline{%d-%d}' % (cuts[0] + 1, cuts[1]), cuts[0], cuts[1]), ('\\cline{%d-%d}' % (cuts[2] + 1, cuts[3]), cuts[2], cuts[3])]}))
                tab('rule', '%s-both-%d' % (name, b), Table('llll', [False] * 5, rows, {b: [('\\cline{%d-%d} ' % (cuts[-2] + 1, cuts[-1]), cuts[-2], cuts[-1]), ('\\cline{%d-%d} ' % (1, cuts[1]), 0, cuts[1])]}))
    # rows
    for nl in (' \\\\ ', '\\\\', '\\\\*', '\\\\[1cm]', ' \\\\ [2pt]', '\\\\* [2pt]\n', ' \\tabularnewline ', '\\cr '):
        rows = simple(2, 3, g)
        tab('rows', nl.strip().replace(' ', '_'), Table('ll', [False] * 3, rows, {3: [('', 0, 0)]}, nl=lambda: nl))
        tab('rows', nl.strip().replace(' ', '_') + '-hline', Table('ll', [False] * 3, rows, {0: [('\\hline ', 0, 2)], 2: [('\\hline ', 0, 2)], 3: [('\\hline', 0, 2)]}, nl=lambda: nl))
    for lens in ([1, 3, 2], [3, 1], [2, 2], [1], [1, 1, 3]):
        rows = [[(1, None) + g.c_word() for _ in range(k)] for k in lens]
        tab('rows', 'short-%s' % ''.join(map(str, lens)), Table('|lll', [True, False, False, False], rows, {}))
    for pos in range(3):
        for r in range(3):
            rows = simple(3, 3, g)
            rows[r][pos] = (1, None, '', [])
            tab('rows', 'empty-%d-%d' % (r, pos), Table('|l|l|l|', [True] * 4, rows, {0: [('\\hline ', 0, 3)], 3: [('\\hline ', 0, 3)]}))
            if pos:
                rows[r][pos - 1] = (1, None, '', [])
                tab('rows', 'empty2-%d-%d' % (r, pos), Table('|l|l|l|', [True] * 4, rows, {1: [('\\hline ', 0, 3)], 2: [('\\cline{2-3}', 1, 3)]}))
    for i in range(600 if thorough else 110):
        g = G(100 + i)
        env = g.r.choice(['tabular'] * 5 + ['tabular*', 'tabularx'])
        t = g.table(g.r.randint(1, 5), g.r.randint(1, 6), env=env, short_rows=i % 6 == 5)
        tab('table', str(i), t)
    for i in range(120 if thorough else 25):
        g = G(5000 + i)
        t = g.table(g.r.randint(1, 4), g.r.randint(1, 4), env='array', kinds=['word', 'empty', 'group', 'two', 'amp'], plain=True)
        emit('env', 'array-r%d' % i, '$' + t.src() + '$', [('math', [t.expect()])])
    # tables and lists written through macros and inside other environments
    for i in range(24 if thorough else 10):
        g = G(7000 + i)
        t = g.table(g.r.randint(1, 4), g.r.randint(1, 4), multi=.4)
        e = [t.expect()]
        src = t.src()
        emit('wrap', 'float-%d' % i, '\\begin{table}[h]%s\\end{table}' % src, [('table', e)])
        emit('wrap', 'center-%d' % i, '\\begin{center}%s\\end{center}' % src, [('center', e)])
        emit('wrap', 'group-%d' % i, '{\\small %s}' % src, [('bgroup', [('small', e)])])
        emit('wrap', 'item-%d' % i, '\\begin{itemize}\\item %s\\item <w1>\\end{itemize}' % src, [('LIST', 'itemize', [(None, e), (None, ['<w1>'])], [])])
        mac = src.replace('\\multicolumn', '\\mc').replace('\\hline', '\\hl').replace('\\&', '\x00').replace(' & ', ' \\am ').replace('\x00', '\\&').replace('\\cline', '\\cl')
        emit('wrap', 'macro-%d' % i, '\\newcommand{\\mc}[3]{\\multicolumn{#1}{#2}{#3}}\\newcommand{\\hl}{\\hline}\\newcommand{\\am}{&}\\newcommand{\\cl}[1]{\\cline{#1}}' + mac, e)
        s1, e1 = g.lst('itemize', 2, ['word', 'emph', 'two'])
        emit('wrap', 'env-%d' % i, '\\newenvironment{ml}{\\begin{itemize}}{\\end{itemize}}\\newcommand{\\itm}{\\item}\\newcommand{\\itmt}[1]{\\item[#1]}' + s1.replace('\\begin{itemize}', '\\begin{ml}').replace('\\end{itemize}', '\\end{ml}'), e1, LANCH)
        emit('wrap', 'cellitems-%d' % i, '\\begin{tabular}{p{3cm}|l} %s & <w1> \\\\ <w2> & %s \\end{tabular}' % (s1, s1), [('TABLE', 'tabular', 2, [[(1, norm_want(e1)), (1, ['<w1>'])], [(1, ['<w2>']), (1, norm_want(e1))]], {(0, 1), (1, 1)}, set())])
    # lists
    for kind in ('itemize', 'enumerate', 'description', 'trivlist', 'list'):
        for k in ('word', 'two', 'group', 'emph', 'decl', 'decl0', 'gdecl', 'amp', 'math', 'brack', 'verb', 'nested', 'list', 'empty'):
            s, items = '\\begin{%s}%s\n' % (kind, '{}{}' if kind == 'list' else ''), []
            for j in range(3):
                a, e = g.cell([k if j == 1 else 'word'])
                term = None
                if kind == 'description' or j == 2:
                    ts, term = g.cell(['word', 'emph', 'math', 'gdecl'])
                    s += '\\item[%s]%s%s\n' % (ts, ' ' if a[:1].isalpha() else '', a)
                else:
                    s += '\\item %s\n' % a
                items.append((term, e))
            if k in ('decl', 'decl0'):
                # a declaration lasts to the end of the list
                continue
            s += '\\end{%s}' % kind
            emit('item', '%s-%s' % (kind, k), s, [('LIST', kind, items, [])], LANCH)
        for outer in ('itemize', 'enumerate', 'description'):
            for place in ('only', 'first', 'mid', 'last', 'par'):
                a, e = g.lst(kind, 1)
                w1, w2 = g.word(), g.word()
                body = {'only': a, 'first': a + ' ' + w1, 'mid': w1 + ' ' + a + ' ' + w2, 'last': w1 + a, 'par': w1 + '\n\n' + a + '\n\n' + w2}[place]
                ex = {'only': e, 'first': e + [w1], 'mid': [w1] + e + [w2], 'last': [w1] + e, 'par': [w1] + e + [w2]}[place]
                s = '\\begin{%s}\\item[%s] %s\n\\item[%s] %s\\end{%s}' % (outer, w1, body, w2, w2, outer)
                emit('list', '%s-%s-%s' % (kind, outer, place), s, [('LIST', outer, [([w1], ex), ([w2], [w2])], [])], LANCH)
    for i in range(400 if thorough else 70):
        g = G(9000 + i)
        s, e = g.lst(g.r.choice(['itemize', 'enumerate', 'description']), g.r.randint(2, 4))
        emit('lists', str(i), s, e, LANCH)
    return C.finish(tier)
