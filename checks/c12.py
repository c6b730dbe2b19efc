"""C12: abstract interpretation of the renderer and its templates; text of the document against markup of the produced pages.

Every text-bearing position of a document is filled with text that looks like markup; the produced pages (the renderer and the
templates, translated to code by the template compiler, are interpreted from source) must have exactly the elements, attributes
and texts of the pages produced for harmless words in the same positions, with the text in the place of the words."""
import html as _html
import random
import re

from .core import Check, T, short, ListV
from . import rendr, web

DRIVER = r'''
def pages(tex, src, opts, theme):
    return html(src, opts, 'doc', theme)


def both(tex, a, b, opts, theme):
    return [html(a, opts, 'doc', theme), html(b, opts, 'doc', theme)]


def encoded(tex, a, opts, theme, enc):
    return [html(a, opts, 'doc', theme), html(a, opts + [['files', 'escape-high-chars', True], ['files', 'output-encoding', enc]], 'doc', theme)]


def highs(tex, a, opts, theme):
    return [html(a, opts, 'doc', theme), html(a, opts + [['files', 'escape-high-chars', True]], 'doc', theme)]
'''
PT = 'plasTeX/Renderers/PageTemplate/__init__.py:'
ANCH = [PT + 'PageTemplate.textDefault', 'plasTeX/Renderers/__init__.py:Renderable.__str__', PT + 'PageTemplate.processFileContent', 'plasTeX/Renderers/HTML5/__init__.py:HTML5.processFileContent']
RULE = {
    'text': 'text that looks like markup is shown as text: the page has the elements, attributes and texts of the page for a harmless word, with that text in its place',
    'verbatim': 'the same for verbatim material',
    'doc': 'the same for whole documents with such text in all their positions, over themes and splits',
    'high': 'escaping of high characters gives ASCII pages that decode to the same texts and markup',
    'plain': 'characters between unknown words reach the page as these characters',
}
# source of the text, the characters it stands for
TEXTS = {
    'tag': ('a <b>c</b> d', None), 'end': ('a </p></div> b', None), 'script': ('<script>alert(1)</script>', None), 'img': ('<img src=x onerror=y>', None), 'amp': ('a\\&b', 'a&b'),
    'entity': ('\\&lt;i\\&gt;', '&lt;i&gt;'), 'doubled': ('\\&amp;lt;', '&amp;lt;'), 'number': ('\\&\\#60;', '&#60;'), 'hex': ('\\&\\#x3C;b', '&#x3C;b'), 'nosemi': ('\\&lt b \\&copy', '&lt b &copy'), 'quote': ('a" onclick="b', None),
    'comment': ('<!- c ->', None), 'cdata': ('<![CDATA[x]]>', None), 'template': ('\\{\\{ obj \\}\\}', '{{ obj }}'), 'block': ('\\{\\% raw \\%\\}', '{% raw %}'), 'dollar': ('\\$\\{x\\}', '${x}'), 'image': ('\\&x-width;', '&x-width;'), 'unit': ('a \\&x.png-height;\\&ex; b', 'a &x.png-height;&ex; b'),
    'less': ('1 < 2', None), 'more': ('2 > 1', None), 'nonascii': ('\u00e9\u2200 <\u00e8>', None), 'pi': ('<?php x ?>', '<?php x ?>'), 'back': ('\\textbackslash 1', '\\1'), 'nul': ('\\&nbsp;\\&shy;', '&nbsp;&shy;'),
}
RAW = {
    'tag': 'a <b>c</b> d', 'end': '</pre></code>', 'script': '<script>alert(1)</script>', 'amp': 'a&b', 'entity': '&lt;i&gt;', 'doubled': '&amp;lt;', 'number': '&#60;', 'quote': 'a" onclick="b', 'comment': '<!-- c -->',
    'cdata': '<![CDATA[x]]>', 'template': '{{ obj }}', 'block': '{% raw %}', 'image': '&x-width;', 'command': '\\emph{x} $a$ %c', 'single': "a 'b' `c` --- d", 'emptyp': '<p></p>', 'td': '<td></td>', 'nonascii': '\u00e9\u2200',
}
POS = {
    'text': 'x @ y', 'start': '@ y', 'two paragraphs': 'x @\n\n@ y', 'title': '\\section{T @}x', 'toc': '\\tableofcontents\\section{T @}x\\subsection{U @}', 'optional title': '\\tableofcontents\\section[S @]{T}x\\section{B}', 'deep': '\\section{A}\\subsection{B}\\subsubsection{T @}x\\paragraph{P @}z\\subparagraph{Q @}',
    'caption': '\\begin{figure}x\\caption{C @}\\end{figure}', 'table caption': '\\begin{table}x\\caption{C @}\\end{table}', 'footnote': 'x\\footnote{F @} y', 'footnotetext': 'x\\footnotemark y\\footnotetext{F @}', 'item': '\\begin{itemize}\\item I @\\item @\\end{itemize}', 'enum': '\\begin{enumerate}\\item I @\\item @\\end{enumerate}', 'enum label': '\\begin{enumerate}\\item[L @] I\\end{enumerate}',
    'term': '\\begin{description}\\item[T @] D @\\end{description}', 'cell': '\\begin{tabular}{ll}@ & b \\\\ c & @\\end{tabular}', 'multicolumn': '\\begin{tabular}{ll}\\multicolumn{2}{c}{M @}\\\\a&@\\end{tabular}', 'parbox cell': '\\begin{tabular}{p{2cm}}@\n\n@\\end{tabular}', 'quote': '\\begin{quote}@\\end{quote}\\begin{quotation}@\\end{quotation}\\begin{verse}@\\end{verse}', 'center': '\\begin{center}@\\end{center}\\begin{flushright}@\\end{flushright}\\begin{flushleft}@\\end{flushleft}',
    'emph': '\\emph{@} \\textbf{@} \\texttt{@} \\textit{@} \\textsc{@} {\\em @} {\\bfseries @} {\\itshape @}', 'sizes': '{\\Large @} {\\tiny @} {\\small x @}', 'boxes': '\\mbox{@} \\fbox{@} \\parbox{3cm}{@} \\makebox{@} \\framebox{@}', 'minipage': '\\begin{minipage}{3cm}@\\end{minipage}', 'abstract': '\\begin{abstract}@\\end{abstract}',
    'maketitle': '\\title{T @}\\author{A @}\\date{D @}\\maketitle', 'bibitem': '\\cite{k}\\begin{thebibliography}{9}\\bibitem{k} B @\\end{thebibliography}', 'bibitem label': '\\cite{k}\\begin{thebibliography}{9}\\bibitem[L @]{k} B\\end{thebibliography}', 'cite note': '\\cite[N @]{k}\\begin{thebibliography}{9}\\bibitem{k} B\\end{thebibliography}',
    'theorem': '\\newtheorem{thm}{Thm}\\begin{thm}[N @] x @\\end{thm}', 'theorem name': '\\newtheorem{thm}{Thm @}\\begin{thm}x\\end{thm}', 'marginpar': 'x\\marginpar{M @}', 'macro': '\\newcommand{\\foo}[1]{[#1]}\\foo{@}', 'environment': '\\newenvironment{foo}[1]{b #1}{e}\\begin{foo}{@}@\\end{foo}', 'title navigation': '\\section{A @}x\\section{B @}y\\subsection{C @}z\\section{D}',
    'appendix': '\\appendix\\section{A @}x', 'star': '\\section*{A @}x', 'paragraphs': '\\section{A}\n\n@\n\nb @ c\n\n@', 'sub': '\\section{A}\\begin{enumerate}\\item a\\begin{itemize}\\item @\\end{itemize}\\end{enumerate}', 'item footnote': '\\begin{itemize}\\item a\\footnote{@}\\end{itemize}', 'caption title': '\\begin{figure}x\\caption[S @]{C @}\\end{figure}\\listoffigures',
    'underline': '\\underline{@}', 'href': '\\href{http://h/}{t @}', 'hyperref': '\\section{A}\\label{k}x \\hyperref[k]{t @}', 'index': '\\section{A}x\\index{a @}\\printindex', 'index title': '\\section{A @}x\\index{a}\\section{B}\\printindex', 'ref': '\\section{A @}\\label{k}x\\section{B}\\ref{k} \\pageref{k} \\nameref{k}', 'thanks': '\\title{T\\thanks{@}}\\maketitle', 'raggedright': '{\\raggedright @}',
    'list': '\\begin{list}{L @}{}\\item @\\end{list}', 'trivlist': '\\begin{trivlist}\\item @\\end{trivlist}', 'part': '\\part{P @}x', 'raisebox': '\\raisebox{2pt}{@}', 'color': '\\textcolor{red}{@}', 'date': '\\date{@}\\title{x}\\maketitle x', 'textsuper': 'x\\textsuperscript{@}\\textsubscript{@}', 'proof': '\\begin{proof}@\\end{proof}\\begin{proof}[P @]x\\end{proof}', 'longtable': '\\begin{longtable}{l}@\\\\b\\end{longtable}',
    'wrapfig': '\\begin{wrapfigure}{r}{3cm}@\\caption{C @}\\end{wrapfigure}', 'subfig': '\\begin{figure}\\subfloat[C @]{@}\\end{figure}', 'hbox': '\\hbox{@}', 'centerline': '\\centerline{@}', 'fancybox': '\\shadowbox{@}\\doublebox{@}\\ovalbox{@}', 'alltt': '\\begin{alltt}@\\end{alltt}', 'autoref': '\\section{A @}\\label{k}\\autoref{k}',
}
RAWPOS = {
    'verbatim': '\\begin{verbatim}\n@\n\\end{verbatim}', 'verb': 'x \\verb|@| y', 'star': '\\begin{verbatim*}\n@\n\\end{verbatim*}', 'verb star': '\\verb*|@|', 'in item': '\\begin{itemize}\\item \\verb+@+\\end{itemize}', 'in cell': '\\begin{tabular}{l}\\verb|@|\\end{tabular}', 'lines': '\\begin{verbatim}\na\n  @\n\nb\n\\end{verbatim}', 'in quote': '\\begin{quote}\n\\begin{verbatim}\n@\n\\end{verbatim}\n\\end{quote}',
}
PACK = 'hyperref,makeidx,amsthm,longtable,wrapfig,subfig,color,fancybox,alltt'
WORD = 'Zqx'


def shape(files, old=None, new=None):
    """[(file, [token])]: elements with their attributes, and texts; `old` in texts and attribute values becomes `new`"""
    ids = {}

    def norm(s):
        if old is not None:
            s = s.replace(old, new)
        return re.sub(r'a\d{10}', lambda m: ids.setdefault(m.group(), 'id%d' % len(ids)), s)
    out = []
    for k, v in files:
        p = web.Page(web.plain(v))
        toks = []

        def go(n):
            for c in n.kids:
                if isinstance(c, str):
                    if toks and toks[-1][0] == 't':
                        toks[-1] = ('t', toks[-1][1] + c)
                    else:
                        toks.append(('t', c))
                else:
                    toks.append(('<', c.tag, [(a, norm(b) if b is not None else None) for a, b in c.attrs.items()]))
                    go(c)
                    toks.append(('>', c.tag))
        go(p.root)
        toks = [x if x[0] != 't' else ('t', ' '.join(norm(x[1]).split())) for x in toks]
        out.append((norm(k), [x for x in toks if x != ('t', '')], [norm(x) for x in p.problems]))
    return out


def differ(a, b):
    if [x[0] for x in a] != [x[0] for x in b]:
        return 'the files %s are produced in place of %s' % (short([x[0] for x in a]), short([x[0] for x in b]))
    for (f, x, px), (_, y, py) in zip(a, b):
        for i in range(max(len(x), len(y))):
            p = x[i] if i < len(x) else 'the end'
            q = y[i] if i < len(y) else 'the end'
            if p != q:
                return '%s has %s where %s is expected (after %s)' % (f, short(p), short(q), short(x[i - 1]) if i else 'the start')
        if px != py:
            return '%s: %s' % (f, short(px))
    return None


HIGH = ['\u00e9 \u00a0\u2014 x---y \u00df', '\\section{\u00c9t\u00e9}x\\footnote{\u4e2d\u6587} \\emph{\u03b1}', '\\begin{verbatim}\n\u00e9 \u20ac &\n\\end{verbatim}', "``q'' `s' a--b \\'e \\\"o \\~n \\c{c} \\ss \\alpha $\\alpha$", '\U0001f600 x \U00010000', '\u00ad\u200b', '\\begin{tabular}{l}\u00e9\\\\\u00e8\\end{tabular}\\copyright\\ldots', '\\href{http://h/\u00e9}{\u00e9}']


def high(obs, facts):
    a, b = obs
    if not all(isinstance(k, str) and isinstance(v, str) for k, v in a + b):
        return 'UNDECIDED'
    for k, v in b:
        bad = [c for c in v if ord(c) > 127]
        if bad:
            return '%s has %r' % (k, bad[0])
    return differ(strip(shape(b)), strip(shape(a)))


def strip(pages):
    return [(f, [x for x in t if x[:2] != ('<', 'meta')], e) for f, t, e in pages]


def whole(names):
    def p(obs, facts):
        a, b = obs
        if not all(isinstance(k, str) and isinstance(v, str) for k, v in a + b):
            return 'UNDECIDED'
        sa, sb = shape(a), shape(b)
        sa = [(f, [tok(x, names) for x in t], e) for f, t, e in sa]
        sb = [(f, [tok(x, None) for x in t], e) for f, t, e in sb]
        return differ(sa, sb)
    return p


def tok(x, names):
    """the text with every special text replaced by its word"""
    def fix(s):
        if s is None or names is None:
            return s
        for n in names:
            src, shown = TEXTS[n]
            s = re.sub(re.escape(shown or src) + r'(?= @(\d+)@)', lambda m: WORD + n if names[int(m.group(1)) % 5] == n else m.group(), s)
        return s
    if x[0] == 't':
        return ('t', fix(x[1]))
    if x[0] == '<':
        return ('<', x[1], [(k, fix(v)) for k, v in x[2]])
    return x


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C12', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    rendr.boot_html(C, DRIVER, ['plasTeX.Packages.' + x for x in 'article book report hyperref amsmath amsthm makeidx natbib longtable wrapfig subfig color fancybox alltt textcomp'.split()],
                    themes=('default', 'minimal'))
    C.freeze()
    r = random.Random(12)

    def opt(o):
        return ListV([ListV(x) for x in o])

    def oracle(shown):
        def p(obs, facts):
            a, b = obs
            if not all(isinstance(k, str) and isinstance(v, str) for k, v in a + b):
                return 'UNDECIDED'
            sa = shape(a, shown, WORD)
            sb = shape(b)
            e = differ(sa, sb)
            if e is None and not any(t[0] == 't' and WORD in t[1] for f in sb for t in f[1]):
                return 'UNDECIDED'
            return e
        return p

    def doc(body, cls='article'):
        return '\\documentclass{%s}\\usepackage{%s}\\makeindex\\begin{document}%s\\end{document}' % (cls, PACK, body)
    for pn, pos in POS.items():
        names = list(TEXTS)
        if not thorough and pn not in ('text', 'title', 'title navigation', 'caption', 'footnote'):
            names = ['tag', 'entity', 'quote', 'image'] + r.sample(names, 3)
        for tn in dict.fromkeys(names):
            src, shown = TEXTS[tn]
            if pn.startswith('index') and ('"' in src or '!' in src):
                continue
            lv, th = r.choice([(-10, 'default'), (1, 'default'), (2, 'default'), (2, 'minimal'), (6, 'default')])
            if pn == 'optional title':
                lv, th = 1, 'default'
            C.expect('text: %s / %s' % (pn, tn), RULE['text'], ANCH, 'both', [C.tex, doc(pos.replace('@', src)), doc(pos.replace('@', WORD)), opt([['files', 'split-level', lv]]), th], oracle(shown or src), max_steps=80000000)
    for pn, pos in RAWPOS.items():
        for tn, src in RAW.items():
            if '|' in src or '+' in src:
                continue
            C.expect('verbatim: %s / %s' % (pn, tn), RULE['verbatim'], ANCH, 'both', [C.tex, doc(pos.replace('@', src)), doc(pos.replace('@', WORD)), opt([]), 'default'], oracle(src), max_steps=80000000)
    # whole documents
    for i in range(60 if thorough else 22):
        d = web.Doc(500 + i, deep=r.choice([2, 3]), n=r.choice([3, 5]))
        names = r.sample(list(TEXTS), 3) + ['tag', 'quote']
        # verbatim material reads differently
        src = re.sub(r'\\begin\{verbatim\}.*?\\end\{verbatim\}', 'x', d.source(), flags=re.S)
        n = [0]

        def text(m):
            n[0] += 1
            return TEXTS[names[n[0] % 5]][0] + ' @%d@' % n[0]

        def word(m):
            n[0] += 1
            return '%s%s @%d@' % (WORD, names[n[0] % 5], n[0])
        a = re.sub(r'<mk\d+>', text, src)
        n[0] = 0
        b = re.sub(r'<mk\d+>', word, src)
        for level in r.sample(range(-2, 5), 2):
            th = r.choice(['default', 'minimal'])
            C.expect('doc: %d %d %s' % (i, level, th), RULE['doc'], ANCH, 'both', [C.tex, a, b, opt([['files', 'split-level', level]]), th], whole(names), max_steps=80000000)
    # escaping of high characters
    for i, src in enumerate(HIGH):
        for th in ('default', 'minimal'):
            C.expect('high: %d %s' % (i, th), RULE['high'], [PT + 'PageTemplate.processFileContent'], 'highs', [C.tex, doc(src), opt([['files', 'split-level', 2]]), th], high, max_steps=80000000)
        for enc in ('ascii', 'latin-1'):
            C.expect('high: %d %s' % (i, enc), RULE['high'], [PT + 'PageTemplate.processFileContent'], 'encoded', [C.tex, doc(src), opt([['files', 'split-level', 2]]), 'default', enc], high, max_steps=80000000)
    for pn, pos in list(POS.items()):
        C.expect('high: %s' % pn, RULE['high'], [PT + 'PageTemplate.processFileContent'], 'highs', [C.tex, doc(pos.replace('@', '\u00e9\u4e2d \U0001f600<\u03b1> ---')), opt([]), 'default'], high, max_steps=80000000)
    # unknown words between the special characters
    for pn in ('text', 'title', 'caption', 'footnote', 'item', 'cell', 'emph', 'quote', 'title navigation', 'macro'):
        for c, want in (('<', '&lt;'), ('>', '&gt;'), ('\\&', '&amp;')):
            def q(obs, facts, c=c, want=want):
                t = ''.join(v for k, v in obs if isinstance(v, str))
                if len([1 for k, v in obs if isinstance(v, str)]) != len(obs):
                    return 'UNDECIDED'
                for m in re.finditer(r'<wa>(.*?)<wb>', t, re.S):
                    if m.group(1) != want:
                        return '%s between two words reaches the page as %r' % (want, m.group(1))
                return None if '<wa>' in t else 'the words do not reach the page'
            C.expect('plain: %s %s' % (pn, c), RULE['plain'], ANCH, 'pages', [C.tex, T(doc(POS[pn]).replace('@', '<wa>%s<wb>' % c)), opt([]), 'minimal'], q, max_steps=80000000)
    return C.finish(tier)
