"""Rendered pages: documents with marked text, and what the files of a rendering contain."""
import random
import re
from html.parser import HTMLParser

VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr'}
LEVEL = {'document': -1000, 'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}


def plain(s):
    """unknown words written as words"""
    return re.sub(r'<(mk\w*)>', r' \1 ', s)


class Node(object):
    __slots__ = ('tag', 'attrs', 'kids', 'parent')

    def __init__(self, tag, attrs, parent):
        self.tag, self.attrs, self.kids, self.parent = tag, attrs, [], parent

    def text(self):
        return ''.join(k if isinstance(k, str) else k.text() for k in self.kids)

    def walk(self):
        yield self
        for k in self.kids:
            if not isinstance(k, str):
                for x in k.walk():
                    yield x

    def find(self, tag=None, cls=None, id=None):
        for n in self.walk():
            if (tag is None or n.tag == tag) and (cls is None or cls in (n.attrs.get('class') or '').split()) and (id is None or n.attrs.get('id') == id):
                return n


class Page(HTMLParser):
    def __init__(self, text):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.root = self.cur = Node('#root', {}, None)
        self.problems = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        d = {}
        for k, v in attrs:
            d.setdefault(k, v)
        n = Node(tag, d, self.cur)
        self.cur.kids.append(n)
        if tag not in VOID:
            self.cur = n

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.cur = self.cur.parent

    def handle_endtag(self, tag):
        if tag in VOID:
            return
        n = self.cur
        while n is not None and n.tag != tag:
            n = n.parent
        if n is None:
            self.problems.append('</%s> closes nothing' % tag)
        else:
            self.cur = n.parent

    def handle_data(self, data):
        self.cur.kids.append(data)


class Unit(object):
    def __init__(self, kind, title, star=False):
        self.kind, self.title, self.star = kind, title, star
        self.level = LEVEL.get(kind, 1)
        self.items = []         # ('m', marker) | ('f', marker) | Unit, in document order
        self.label = None
        self.num = None


class Doc(object):
    """a document as source, and its units with their marked text"""

    def __init__(self, seed, cls=None, n=6, deep=3, refs=True, rich=True, titles='T <%s> of'):
        self.r = r = random.Random(seed)
        self.k = 0
        self.cls = cls or r.choice(['article', 'book', 'report'])
        self.labels = []
        self.nlab = 0
        self.rich = rich
        self.titles = titles
        self.root = Unit('document', None)
        names = ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
        if self.cls != 'article':
            names = ['chapter'] + names
        if r.random() < .3:
            names = ['part'] + names
        self.names = names
        self.want = []
        body = self.fill(self.root, 0, n, deep)
        self.src = body

    def mark(self):
        self.k += 1
        return 'mk%d' % self.k

    def fill(self, unit, depth, n, deep):
        r = self.r
        out = []
        if depth == 0:
            for _ in range(r.randint(0, 2)):
                out.append(self.block(unit))
        else:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                out.append(self.block(unit))
        if depth < deep and depth < len(self.names):
            d = depth
            if r.random() < .12 and depth + 1 < len(self.names):
                d += 1          # a level is left out
            for _ in range(r.randint(1 if depth == 0 else 0, max(1, n // 2) if depth == 0 else 3)):
                u = Unit(self.names[d], self.mark(), star=r.random() < .15)
                lab = ''
                if r.random() < .5:
                    self.nlab += 1
                    u.label = 'l%d' % self.nlab
                    self.labels.append(u)
                    lab = '\\label{%s}' % u.label
                unit.items.append(u)
                out.append('\\%s%s{%s}%s\n' % (u.kind, '*' if u.star else '', self.titles % u.title, lab))
                out.append(self.fill(u, d + 1, n, deep))
        return ''.join(out)

    def word(self, unit):
        m = self.mark()
        unit.items.append(('m', m))
        return '<%s>' % m

    def foot(self, unit):
        m = self.mark()
        unit.items.append(('f', m))
        return '\\footnote{n <%s>}' % m

    def block(self, unit):
        r = self.r
        w = lambda: self.word(unit)
        k = r.random()
        if k < .35 or not self.rich:
            s = 'a %s b' % w()
            if r.random() < .4:
                s += self.foot(unit)
                if r.random() < .5:
                    s += ' %s.' % w()
            return s + '\n\n'
        if k < .45:
            return '\\begin{%s}\\item %s\\item x %s%s\\end{%s}\n' % (lambda e: (e, w(), w(), '\n\n' + w() if r.random() < .4 else '', e))(r.choice(['itemize', 'enumerate']))
        if k < .5:
            return '\\begin{description}\\item[%s] %s\\item[q] %s\\end{description}\n' % (w(), w(), w())
        if k < .58:
            return '\\begin{tabular}{l|c}%s&%s\\\\ %s&\\multicolumn{1}{c}{%s}\\end{tabular}\n\n' % (w(), w(), w(), w())
        if k < .64:
            e = r.choice(['quote', 'center', 'quotation', 'flushright', 'verse'])
            return '\\begin{%s}%s\\end{%s}\n' % (e, w(), e)
        if k < .72:
            return 'c \\emph{%s \\textbf{%s}} {\\itshape %s} \\texttt{%s} d\n\n' % (w(), w(), w(), w())
        if k < .79:
            e = r.choice(['figure', 'table'])
            return '\\begin{%s}%s\\caption{%s}\\end{%s}\n' % (e, w(), w(), e)
        if k < .84:
            return '\\begin{verbatim}\nv %s\n\\end{verbatim}\n' % w()
        if k < .9:
            return 'p \\mbox{%s} \\fbox{%s} \\parbox{3cm}{%s} {%s} ``%s\'\' %s---%s\n\n' % (w(), w(), w(), w(), w(), w(), w())
        if k < .95:
            return '\\begin{minipage}{4cm}%s\n\n%s\\end{minipage}\n\n' % (w(), w())
        return 'h %s %s %s\n\n' % (w(), self.foot(unit), self.foot(unit))

    def units(self):
        out = []

        def go(u):
            out.append(u)
            for i in u.items:
                if isinstance(i, Unit):
                    go(i)
        go(self.root)
        return out

    def split(self, level):
        """[(unit, body markers, footnote markers)] of the files, in the order of the document"""
        out = []

        def go(u, own):
            if own is None or u.level <= level:
                own = (u, [], [])
                out.append(own)
            for i in u.items:
                if isinstance(i, Unit):
                    go(i, own)
                else:
                    own[1 if i[0] == 'm' else 2].append(i[1])
        go(self.root, None)
        return out

    def source(self, preamble='', end=''):
        return '\\documentclass{%s}%s\\begin{document}\n%s%s\\end{document}' % (self.cls, preamble, self.src, end)


def marks(text):
    return re.findall(r'mk\d+', text)
