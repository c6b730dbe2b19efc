"""generator of well-formed LaTeX documents together with what they must parse to (text in order, outline, structure)"""
import random

SUBS = [('``', '\u201c'), ("''", '\u201d'), ('`', '\u2018'), ("'", '\u2019'), ('---', '\u2014'), ('--', '\u2013')]


class Gen(object):
    def __init__(self, rnd, cls='article'):
        self.r = rnd
        self.n = 0
        self.labels = []
        self.cls = cls
        self.concrete = 0

    def w(self):
        self.n += 1
        return '<w%d>' % self.n

    def c(self):
        """concrete word (for verbatim material, which is scanned character by character)"""
        self.concrete += 1
        s = ''
        k = self.concrete
        while k:
            k, d = divmod(k, 20)
            s += 'bcdfghjklmnpqrstvwxz'[d]
        return 'q' + s + 'q'

    # inline material: returns (source, text); text uses | as block boundary
    INLINE = ['word', 'textbf', 'bf', 'emph', 'group', 'quote', 'squote', 'dash', 'ndash', 'nbsp', 'special', 'math', 'pmath', 'footnote', 'verb', 'mbox',
              'label', 'ref', 'frac', 'script', 'fbox', 'makebox', 'raisebox', 'sqrt', 'linebreak', 'accent', 'marginpar', 'textsc', 'em', 'comment', 'mathtext',
              'index', 'parbox', 'underline']

    def inline(self, kind, depth=0):
        w = self.w
        if kind == 'word':
            a = w()
            return a, a
        if kind in ('textbf', 'emph', 'textsc', 'textit'):
            s, t = self.inner(depth)
            return '\\%s{%s}' % (kind, s), t
        if kind == 'underline':
            s, t = self.inner(depth)
            return '\\underline{%s}' % s, t
        if kind == 'bf':
            s, t = self.inner(depth)
            return '{\\bf %s}' % s, t
        if kind == 'em':
            s, t = self.inner(depth)
            return '{\\em %s}' % s, t
        if kind == 'group':
            s, t = self.inner(depth)
            return '{%s}' % s, t
        if kind == 'quote':
            a, b = w(), w()
            return "``%s %s''" % (a, b), '\u201c%s %s\u201d' % (a, b)
        if kind == 'squote':
            a, b = w(), w()
            return "`%s' %s's" % (a, b), '\u2018%s\u2019 %s\u2019s' % (a, b)
        if kind == 'dash':
            a, b = w(), w()
            return '%s---%s' % (a, b), '%s\u2014%s' % (a, b)
        if kind == 'ndash':
            a, b = w(), w()
            return '%s--%s-x' % (a, b), '%s\u2013%s-x' % (a, b)
        if kind == 'nbsp':
            a, b = w(), w()
            return '%s~%s' % (a, b), '%s\u00a0%s' % (a, b)
        if kind == 'special':
            a = w()
            return '\\%%%s\\& \\$\\#\\_\\{\\}' % a, '%%%s& $#_{}' % a
        if kind == 'math':
            a, b = w(), w()
            return "$%s--%s'$" % (a, b), "%s--%s'" % (a, b)
        if kind == 'pmath':
            a = w()
            return '\\(%s-1\\)' % a, '%s-1' % a
        if kind == 'frac':
            a, b, c = w(), w(), w()
            return "$\\frac{%s--'}{%s}%s$" % (a, b, c), "|%s--'|%s|%s" % (a, b, c)
        if kind == 'script':
            a, b, c = w(), w(), w()
            return '$%s_{%s}^{%s--}$' % (a, b, c), '%s%s%s--' % (a, b, c)
        if kind == 'sqrt':
            a, b = w(), w()
            return '$\\sqrt[3]{%s}%s$' % (a, b), '|3|%s%s' % (a, b)
        if kind == 'mathtext':
            a, b = w(), w()
            return '$%s \\mbox{%s--and}$' % (a, b), '%s %s\u2013and' % (a, b)
        if kind == 'footnote':
            s, t = self.inner(depth)
            return '\\footnote{%s}' % s, '|%s|' % t
        if kind == 'verb':
            c = self.c()
            return "\\verb|%s--`x'\\%%|" % c, "%s--`x'\\%%" % c
        if kind in ('mbox', 'fbox'):
            s, t = self.inner(depth)
            return '\\%s{%s}' % (kind, s), t
        if kind == 'makebox':
            s, t = self.inner(depth)
            return '\\makebox[2cm][l]{%s}' % s, t
        if kind == 'raisebox':
            s, t = self.inner(depth)
            return '\\raisebox{3pt}[2pt]{%s}' % s, t
        if kind == 'parbox':
            s, t = self.inner(depth)
            return '\\parbox[t]{3cm}{%s}' % s, t
        if kind == 'marginpar':
            a, b = w(), w()
            return '\\marginpar[%s]{%s}' % (a, b), '|%s|%s|' % (a, b)
        if kind == 'index':
            a, b = w(), w()
            return '%s\\hspace{2cm}%s' % (a, b), '%s%s' % (a, b)
        if kind == 'label':
            a = w()
            self.labels.append('l%d' % self.n)
            return '%s\\label{%s}' % (a, self.labels[-1]), a
        if kind == 'ref':
            a, b = w(), w()
            return '%s\\ref{%s}%s' % (a, self.labels[-1] if self.labels else 'zz', b), '%s%s' % (a, b)
        if kind == 'linebreak':
            a, b = w(), w()
            return '%s\\\\ %s' % (a, b), '%s|%s' % (a, b)
        if kind == 'accent':
            a = w()
            return "\\'e%s" % a, '\u00e9%s' % a
        if kind == 'comment':
            a, b = w(), w()
            return '%s%% no $ { \\footnote\n  %s' % (a, b), '%s%s' % (a, b)
        raise KeyError(kind)

    def inner(self, depth):
        if depth >= 3:
            return (self.w(),) * 2
        n = self.r.randint(1, 2)
        return self.run([self.r.choice(['word', 'word', 'textbf', 'emph', 'quote', 'dash', 'math', 'group', 'special', 'nbsp', 'bf']) for _ in range(n)], depth + 1)

    def run(self, kinds, depth=0):
        parts = [self.inline(k, depth) for k in kinds]
        return ' '.join(p[0] for p in parts), ' '.join(p[1] for p in parts)

    def words(self):
        a, b = self.w(), self.w()
        return '%s %s' % (a, b), '%s %s' % (a, b)

    # block material: (source, text)
    BLOCKS = ['para', 'paras', 'parcmd', 'itemize', 'enumerate', 'description', 'tabular', 'tabularrule', 'quote', 'center', 'quotation', 'displaymath',
              'bracketmath', 'dollarmath', 'equation', 'eqnarray', 'verbatim', 'verbatimstar', 'figure', 'table', 'minipage', 'abstract', 'theorem', 'verse',
              'flushleft', 'multicol', 'centering', 'array', 'biblio', 'bfdecl', 'emptyitems', 'nestedtab', 'trivial']

    def blocks(self, kinds, depth, plain=False):
        parts = [self.block(k, depth) for k in kinds]
        return self.glue([p[0] for p in parts], kinds), '|'.join(p[1] for p in parts)

    PARAS = ('para', 'paras', 'parcmd', 'centering', 'bfdecl', 'abstract', 'biblio', None)

    def glue(self, srcs, kinds):
        """a blank line between paragraphs, possibly a single newline elsewhere"""
        tight = self.r.random() < .5
        out = ''
        for i, s in enumerate(srcs):
            if i:
                out += '\n' if tight and (kinds[i] not in self.PARAS or kinds[i - 1] not in self.PARAS) else '\n\n'
            out += s
        return out

    def arg(self, n):
        """inline material that may be an argument (no verbatim)"""
        return self.run([self.r.choice([k for k in self.INLINE if k not in ('verb', 'comment', 'linebreak')]) for _ in range(n)], 2)

    def body(self, depth):
        """content of an item, quote, minipage..."""
        if depth >= 3:
            return self.words()
        n = self.r.choice([1, 1, 2])
        return self.blocks([self.r.choice(['para', 'para', 'paras', 'itemize', 'enumerate', 'description', 'tabular', 'quote', 'displaymath', 'verbatim',
                                           'center', 'minipage']) for _ in range(n)], depth + 1)

    def rnd_inline(self, depth, n=None):
        return self.run([self.r.choice(self.INLINE if depth < 3 else ['word', 'textbf', 'quote', 'math']) for _ in range(n or self.r.randint(1, 3))], depth)

    def block(self, kind, depth=0, content=None):
        r = self.r
        body = (lambda: content) if content is not None else (lambda: self.body(depth))
        if kind == 'para':
            return self.rnd_inline(depth)
        if kind == 'paras':
            a, b, c = self.words(), self.rnd_inline(depth), self.words()
            return a[0] + '\n\n' + b[0] + '\n  \n\n' + c[0], a[1] + '|' + b[1] + '|' + c[1]
        if kind == 'parcmd':
            a, b = self.words(), self.words()
            return a[0] + '\\par ' + b[0] + '\\par\n', a[1] + '|' + b[1]
        if kind in ('itemize', 'enumerate'):
            s, t = [], []
            for i in range(r.randint(1, 3)):
                x = body() if i == 0 or content is None else self.words()
                if r.random() < .25:
                    l = self.run([self.r.choice(['word', 'textbf', 'quote', 'math'])], 3)
                    s.append('\\item[%s] %s' % (l[0].replace('[', '').replace(']', ''), x[0]))
                    t.append(l[1] + '|' + x[1])
                else:
                    s.append('\\item %s' % x[0])
                    t.append(x[1])
            return '\\begin{%s}\n%s\n\\end{%s}' % (kind, '\n'.join(s), kind), '|' + '|'.join(t) + '|'
        if kind == 'description':
            s, t = [], []
            for i in range(r.randint(1, 2)):
                l, x = self.inner(2), body() if i == 0 or content is None else self.words()
                s.append('\\item[%s] %s' % (l[0], x[0]))
                t.append(l[1] + '|' + x[1])
            return '\\begin{description}%s\\end{description}' % ''.join(s), '|' + '|'.join(t) + '|'
        if kind == 'emptyitems':
            a = self.words()
            return '\\begin{itemize}\\item\\item %s\\item \\end{itemize}' % a[0], '|' + a[1] + '|'
        if kind in ('tabular', 'tabularrule', 'table'):
            rows, cols = r.randint(1, 3), r.randint(1, 3)
            s, t = [], []
            first = True
            for i in range(rows):
                cs = []
                for j in range(cols):
                    if content is not None and first:
                        cs.append(content)
                    else:
                        cs.append(self.rnd_inline(2, 1) if r.random() < .8 else ('', ''))
                    first = False
                s.append(' & '.join(c[0] for c in cs))
                t.append('|'.join(c[1] for c in cs))
            sep = '\\\\ \\hline\n' if kind == 'tabularrule' else '\\\\\n'
            src = '\\begin{tabular}{%s}\n%s%s%s\\end{tabular}' % ('|' + 'l|' * cols if kind == 'tabularrule' else 'l' * cols,
                                                                 '\\hline ' if kind == 'tabularrule' else '', sep.join(s), sep if r.random() < .6 else '\n')
            txt = '|' + '|'.join(t) + '|'
            if kind == 'table':
                cap = self.arg(1)
                return '\\begin{table}[ht]\\centering %s \\caption{%s}\\end{table}' % (src, cap[0]), txt + cap[1] + '|'
            return src, txt
        if kind == 'nestedtab':
            a, b, c = self.words(), self.words(), self.words()
            return ('\\begin{tabular}{ll} %s & \\begin{tabular}{l} %s \\\\ x \\end{tabular} \\\\ %s & y \\\\ \\end{tabular}' % (a[0], b[0], c[0]),
                    '|%s|%s|x|%s|y|' % (a[1], b[1], c[1]))
        if kind == 'multicol':
            a, b, c = self.words(), self.words(), self.words()
            return ('\\begin{tabular}{lcr} \\multicolumn{2}{c}{%s} & %s \\\\ %s & & z \\end{tabular}' % (a[0], b[0], c[0]), '|%s|%s|%s|z|' % (a[1], b[1], c[1]))
        if kind in ('quote', 'center', 'quotation', 'verse', 'flushleft'):
            x = body()
            return '\\begin{%s}\n%s\n\\end{%s}' % (kind, x[0], kind), '|' + x[1] + '|'
        if kind == 'minipage':
            x = body()
            return '\\begin{minipage}[t]{5cm}%s\\end{minipage}' % x[0], '|' + x[1] + '|'
        if kind == 'abstract':
            if self.cls != 'article' or depth:
                return self.words()
            x = self.words()
            return '\\begin{abstract}%s\\end{abstract}' % x[0], '|' + x[1] + '|'
        if kind == 'theorem':
            x = self.rnd_inline(depth)
            l = self.w()
            return '\\begin{thm}[%s] %s \\end{thm}' % (l, x[0]), '|' + l + '|' + x[1] + '|'
        if kind == 'trivial':
            x = body()
            return '\\begin{trivlist}\\item %s\\end{trivlist}' % x[0], '|' + x[1] + '|'
        if kind == 'displaymath':
            a, b = self.w(), self.w()
            return "\\begin{displaymath} %s--%s' \\end{displaymath}" % (a, b), "|%s--%s'|" % (a, b)
        if kind == 'bracketmath':
            a, b = self.w(), self.w()
            return '\\[ %s = %s- \\]' % (a, b), '|%s = %s-|' % (a, b)
        if kind == 'dollarmath':
            a, b = self.w(), self.w()
            return "$$ %s `%s $$" % (a, b), '|%s `%s|' % (a, b)
        if kind == 'equation':
            a, b = self.w(), self.w()
            self.labels.append('l%d' % self.n)
            return "\\begin{equation}\\label{%s} %s'+%s \\end{equation}" % (self.labels[-1], a, b), "|%s'+%s|" % (a, b)
        if kind == 'eqnarray':
            a, b, c, d = self.w(), self.w(), self.w(), self.w()
            return "\\begin{eqnarray} %s &=& %s \\\\ %s &<& %s- \\end{eqnarray}" % (a, b, c, d), '|%s|=|%s|%s|<|%s-|' % (a, b, c, d)
        if kind == 'array':
            a, b, c, d = self.w(), self.w(), self.w(), self.w()
            return "\\[\\begin{array}{cc} %s & %s \\\\ %s & %s \\end{array}\\]" % (a, b, c, d), "|%s|%s|%s|%s|" % (a, b, c, d)
        if kind in ('verbatim', 'verbatimstar'):
            a, b = self.c(), self.c()
            k = 'verbatim' + ('*' if kind != 'verbatim' else '')
            return "\\begin{%s}\n%s -- `%s' \\item & {$%% \n\n\\begin{x}\n\\end{%s}" % (k, a, b, k), "|%s -- `%s' \\item & {$%% \\begin{x}|" % (a, b)
        if kind == 'figure':
            a, cap = self.words(), self.arg(1)
            return '\\begin{figure}[h] %s \\caption{%s}\\label{f%d} \\end{figure}' % (a[0], cap[0], self.n), '|' + a[1] + '|' + cap[1] + '|'
        if kind == 'centering':
            x = self.words()
            return '{\\centering %s\\par}' % x[0], x[1]
        if kind == 'bfdecl':
            x, y = self.words(), self.words()
            return '{\\bf %s\n\n%s}' % (x[0], y[0]), x[1] + '|' + y[1]
        if kind == 'biblio':
            if depth:
                return self.words()
            x, y = self.words(), self.words()
            return '\\begin{thebibliography}{9}\\bibitem{ka} %s \\bibitem{kb} %s\\end{thebibliography}' % (x[0], y[0]), '|' + x[1] + '|' + y[1] + '|'
        raise KeyError(kind)

    SECTIONS = {'article': ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph'],
                'book': ['part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph']}
    LEVEL = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}

    def section(self, name):
        r = self.r
        t = self.arg(r.randint(1, 2))
        k = r.randrange(3)
        if k == 0:
            return '\\%s*{%s}' % (name, t[0]), '|' + t[1] + '|'
        if k == 1:
            a = self.w()
            return '\\%s[%s]{%s}' % (name, a, t[0]), '|' + a + '|' + t[1] + '|'
        return '\\%s{%s}\n' % (name, t[0]), '|' + t[1] + '|'

    def document(self, parts):
        """parts: list of ('s', name) or ('b', kind) -> (source, text, outline)"""
        src, txt, out = [], [], []
        stack = []
        for p, x in parts:
            if p == 's':
                s, t = self.section(x)
                lv = self.LEVEL[x]
                while stack and stack[-1][0] >= lv:
                    stack.pop()
                out.append((x, stack[-1][1] if stack else -1))
                stack.append((lv, len(out) - 1))
            else:
                s, t = x if type(x) is tuple else self.block(x)
            src.append(s)
            txt.append('|' + t + '|')
        kinds = ['section' if p == 's' else None if type(x) is tuple else x for p, x in parts]
        return self.glue(src, kinds), ''.join(txt), out


def squeeze(t):
    """normal form of text with block boundaries"""
    import re
    t = re.sub(r'[ \n\t]+', ' ', t)
    t = re.sub(r' ?(\| ?)+', '|', t)
    return t.strip('| ').strip()
