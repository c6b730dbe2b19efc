"""C14: abstract interpretation of the renderer and its templates; closure of the link graph of the pages they produce.

The HTML5 renderer and its templates (translated to code by the template compiler) are interpreted from source on documents made of
unknown words, with references, notes, index, citations and tables of contents over every split; every link of the resulting
pages must name a produced page and an element of it."""
import random
import re
from urllib.parse import unquote

from .core import Check, T, short, ListV
from . import rendr, web

DRIVER = r'''
def pages(tex, src, opts, theme):
    return html(src, opts, 'doc', theme)
'''
RR = 'plasTeX/Renderers/__init__.py:'
ANCH = [RR + 'Renderable.url', RR + 'Renderable.filename', 'plasTeX/__init__.py:Macro.id', 'plasTeX/Base/LaTeX/Sectioning.py:SectionUtils.links', 'plasTeX/Base/LaTeX/Sectioning.py:SectionUtils.tableofcontents']
RULE = {
    'links': 'every link to a part of the document names a produced file and an element with that identifier in it; identifiers are unique in each file',
    'number': 'a resolved reference shows the number of its target',
    'reach': 'with a table of contents every produced file is reachable from the start page',
    'kind': 'every kind of labelled object, note, index entry and citation can be reached by its links',
}


class LDoc(web.Doc):
    """a document with cross references"""

    def __init__(self, seed, **k):
        self.refs = 0
        self.cites = []
        self.num = {}           # label -> number as printed
        self.plainlab = []
        web.Doc.__init__(self, seed, **k)
        r = self.r
        labs = [u.label for u in self.labels] + self.plainlab

        def ref(m):
            if not labs:
                return ''
            return '\\ref{%s}' % r.choice(labs) + r.choice(['', ' \\pageref{%s}' % r.choice(labs)])
        self.src = re.sub('@ref@', ref, self.src)
        self.number()

    def number(self):
        """numbers of the sections, formulas, figures and tables"""
        if self.cls == 'article':
            n = {}
            for env, body in re.findall(r'\\begin\{(figure|table|equation)\}(.*?)\\end\{', self.src):
                if env == 'equation' or '\\caption' in body:
                    n[env] = n.get(env, 0) + 1
                m = re.search(r'\\label\{(.*?)\}', body)
                if m:
                    self.num[m.group(1)] = str(n[env])
        c = {}
        for u in self.units():
            if u.kind == 'document' or u.star:
                continue
            if u.level > 2:
                continue
            if u.kind == 'part':
                c['part'] = c.get('part', 0) + 1
                if u.label:
                    self.num[u.label] = 'I' * c['part'] if c['part'] < 4 else None
                continue
            names = (['chapter'] if self.cls != 'article' else []) + ['section', 'subsection']
            i = names.index(u.kind)
            c[u.kind] = c.get(u.kind, 0) + 1
            for x in names[i + 1:]:
                c[x] = 0
            if u.label:
                self.num[u.label] = '.'.join(str(c.get(x, 0)) for x in names[:i + 1])

    def lab(self):
        self.nlab += 1
        l = 'l%d' % self.nlab
        self.plainlab.append(l)
        return l

    def block(self, unit):
        r = self.r
        w = lambda: self.word(unit)
        k = r.random()
        if k < .3:
            return 'a %s see @ref@ b%s\n\n' % (w(), self.foot(unit) if r.random() < .5 else '')
        if k < .38:
            l = self.lab()
            return '\\begin{equation}x\\label{%s}\\end{equation} %s @ref@\n\n' % (l, w())
        if k < .48:
            e = r.choice(['figure', 'table'])
            l = self.lab()
            return '\\begin{%s}%s\\caption{%s}\\label{%s}\\end{%s}\n' % (e, w(), w(), l, e)
        if k < .56:
            l = self.lab()
            self.num[l] = '2'
            return '\\begin{enumerate}\\item %s\\item %s\\label{%s}\\end{enumerate}\n@ref@\n\n' % (w(), w(), l)
        if k < .64:
            return 'i %s\\index{%s} %s\\index{%s!%s}\n\n' % (w(), self.ikey(), w(), self.ikey(), self.ikey())
        if k < .72:
            c = 'c%d' % r.randint(1, 4)
            self.cites.append(c)
            return 'c %s \\cite{%s}%s\n\n' % (w(), c, r.choice(['', ' \\cite[p 3]{%s,c1}' % c]))
        if k < .78:
            return 'x\\footnotemark %s\\footnotetext{t %s}\n\n' % (w(), w())
        return web.Doc.block(self, unit)

    def ikey(self):
        return self.r.choice(['alpha', 'beta', 'gamma', 'Delta', '9', 'eta \\emph{x}'])

    def source(self, toc=False):
        bib = '\\begin{thebibliography}{9}%s\\end{thebibliography}' % ''.join('\\bibitem{c%d} B %d\n' % (i, i) for i in range(1, 5))
        return web.Doc.source(self, '\\makeindex', bib + ('\\printindex' if self.k % 2 else ''))


OWN = re.compile(r'^(?:[a-z]+:|//|styles/|js/|symbol-defs\.svg)')


def graph(files, base, want_reach, nums, theme):
    """problem of the pages, or None"""
    pages = {}
    for k, v in files:
        pages[web.plain(k).strip() if '<' in k else k] = web.Page(web.plain(v))
    order = [k for k, v in files]
    ids = {}
    for k, p in pages.items():
        seen = {}
        for n in p.root.walk():
            i = n.attrs.get('id')
            if i is not None:
                if i in seen and seen[i] is not n:
                    return 'the identifier %r occurs twice in %s (<%s> and <%s>)' % (i, k, seen[i].tag, n.tag)
                seen[i] = n
            if n.tag == 'a' and n.attrs.get('name'):
                i = n.attrs['name']
                if i in seen and seen[i] is not n:
                    return 'the identifier %r occurs twice in %s' % (i, k)
                seen[i] = n
        ids[k] = seen
    edges = {k: set() for k in pages}
    for k, p in pages.items():
        for n in p.root.walk():
            if n.tag not in ('a', 'link'):
                continue
            h = n.attrs.get('href')
            if h is None:
                continue
            if n.tag == 'link' and n.attrs.get('rel') == 'stylesheet':
                continue
            if base and h.startswith(base + '/'):
                h = h[len(base) + 1:]
            elif OWN.match(h):
                continue
            elif base and not h.startswith('#'):
                return 'the link %r in %s is not below the base %r' % (h, k, base)
            f, _, frag = h.partition('#')
            if not f and not frag:
                return 'a link in %s is empty (%s)' % (k, n.text().strip()[:40])
            f = f or k
            if f not in pages:
                return 'the link %r in %s names no produced file' % (h, k)
            if '#' in h and frag not in ids[f]:
                return 'the link %r in %s names no element of %s' % (h, k, f)
            edges[k].add(f)
            t = n.text().strip()
            lab = frag or f.rsplit('.', 1)[0]
            if nums.get(lab) and n.tag == 'a' and n.parent is not None and re.match(r'^[\dIVX.]+$', t) and t != nums[lab] and 'footnote' not in (n.attrs.get('class') or '') and 'index' not in (n.attrs.get('class') or ''):
                return 'the reference to %r in %s shows %s, its number is %s' % (lab, k, t, nums[lab])
    if want_reach and order:
        start = order[-1]
        todo, done = [start], {start}
        while todo:
            for f in edges[todo.pop()]:
                if f not in done:
                    done.add(f)
                    todo.append(f)
        miss = [k for k in pages if k not in done]
        if miss:
            return '%s cannot be reached from the start page %s' % (short(miss), start)
    return None


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C14', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    rendr.boot_html(C, DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.report', 'plasTeX.Packages.hyperref', 'plasTeX.Packages.amsmath', 'plasTeX.Packages.amsthm', 'plasTeX.Packages.makeidx', 'plasTeX.Packages.natbib'],
                    themes=('default', 'minimal'))
    C.freeze()
    r = random.Random(14)

    def opt(o):
        return ListV([ListV(x) for x in o])

    def oracle(base, reach, nums, theme, more=None):
        def p(obs, facts):
            if not all(isinstance(k, str) and isinstance(v, str) for k, v in obs):
                return 'UNDECIDED'
            e = graph(obs, base, reach, nums, theme)
            if e is None and more is not None:
                e = more(obs)
            return e
        return p

    def art(body, pre='', cls='article'):
        return '\\documentclass{%s}%s\\begin{document}%s\\end{document}' % (cls, pre, body)

    # one kind of target at a time, in the same and in another file
    def has(text):
        def m(obs):
            for k, v in obs:
                if text in ' '.join(web.Page(web.plain(v)).root.text().split()):
                    return None
            return 'no page shows %r' % text
        return m
    KIND = {
        'section': '\\section{A}\\label{k}x', 'star': '\\section*{A}\\label{k}x', 'subsection': '\\section{A}\\subsection{B}\\label{k}x', 'subsubsection': '\\section{A}\\subsubsection{B}\\label{k}x', 'paragraph': '\\section{A}\\paragraph{B}\\label{k}x',
        'subparagraph': '\\section{A}\\subparagraph{B}\\label{k}x', 'equation': '\\begin{equation}x\\label{k}\\end{equation}', 'figure': '\\begin{figure}x\\caption{C}\\label{k}\\end{figure}', 'table': '\\begin{table}x\\caption{C}\\label{k}\\end{table}',
        'captionlabel': '\\begin{figure}x\\caption{C\\label{k}}\\end{figure}', 'item': '\\begin{enumerate}\\item a\\item b\\label{k}\\end{enumerate}', 'inner item': '\\begin{enumerate}\\item a\\begin{enumerate}\\item b\\label{k}\\end{enumerate}\\end{enumerate}',
        'theorem': '\\newtheorem{thm}{Theorem}\\begin{thm}x\\label{k}\\end{thm}', 'eqnarray': '\\begin{eqnarray}a&b&c\\label{k}\\end{eqnarray}', 'eqnarray row': '\\begin{eqnarray}a&b&c\\\\d&e&f\\label{k}\\end{eqnarray}',
        'align': '\\begin{align}a&b\\label{k}\\end{align}', 'align row': '\\begin{align}a&b\\\\c&d\\label{k}\\end{align}', 'gather row': '\\begin{gather}a\\\\c\\label{k}\\end{gather}', 'multline': '\\begin{multline}a\\\\c\\label{k}\\end{multline}', 'appendix': '\\appendix\\section{A}\\label{k}x', 'hypertarget': '\\hypertarget{k}{x}', 'math section': '\\section{A $x$}\\label{k}',
        'bullet': '\\section{A}x\\begin{itemize}\\item b\\label{k}\\end{itemize}', 'term': '\\section{A}x\\begin{description}\\item[b] c\\label{k}\\end{description}', 'bib': '\\begin{thebibliography}{9}\\bibitem{u} x\\label{k}\\end{thebibliography}',
        'footnote item': '\\section{S}\\footnote{\\begin{enumerate}\\item f\\label{k}\\end{enumerate}}',
    }
    REF = {'ref': '\\ref{k}', 'pageref': '\\pageref{k}', 'autoref': '\\autoref{k}', 'hyperref': '\\hyperref[k]{text}', 'eqref': '\\eqref{k}', 'hyperlink': '\\hyperlink{k}{text}'}
    for kn, kd in KIND.items():
        for rn, rf in REF.items():
            if (rn == 'hyperlink') != (kn == 'hypertarget') or rn == 'eqref' and kn not in ('equation', 'align', 'align row', 'gather row', 'multline', 'eqnarray'):
                continue
            if rn == 'pageref' and not thorough and kn not in ('section', 'item', 'equation'):
                continue
            for lv in ((-10, 2) if not thorough else (-10, 1, 2, 6)):
                src = art('\\section{First}' + rf + ' q\\section{Second}' + kd + '\\section{Third}' + rf, '\\usepackage{hyperref,amsmath,amsthm}')
                for th in ('default', 'minimal'):
                    if th == 'minimal' and lv != 2:
                        continue
                    C.expect('kind: %s %s %d %s' % (kn.replace(' ', '-'), rn, lv, th), RULE['kind'], ANCH, 'pages', [C.tex, src, opt([['files', 'split-level', lv]]), th], oracle('', False, {}, th), max_steps=80000000)
    OTH = {
        'footnote': 'a\\footnote{b} c\\section{A}d\\footnote{e}\\subsection{B}f\\footnote{g}', 'footnotemark': 'x\\footnotemark y\\footnotetext{z}\\section{A}x\\footnotemark\\footnotetext{q}', 'index': '\\section{A}x\\index{a}\\section{B}y\\index{b!c}\\index{a}\\printindex',
        'cite': '\\section{A}\\cite{u} and \\cite{v,u}\\section{B}\\cite[p 2]{v}\\begin{thebibliography}{9}\\bibitem{u} U\\bibitem[V]{v} W\\end{thebibliography}', 'dangling cite': '\\section{A}\\cite{w}\\begin{thebibliography}{9}\\bibitem{u} U\\end{thebibliography}',
        'dangling': '\\section{A}\\ref{nix} \\pageref{nix} x', 'toc': '\\tableofcontents\\section{A}x\\subsection{B}y\\subsubsection{C}z\\section{D}', 'lists': '\\listoffigures\\section{A}\\begin{figure}x\\caption{C}\\end{figure}\\section{B}\\begin{figure}y\\caption{D}\\end{figure}',
        'footnote in caption': '\\begin{figure}x\\caption{C\\footnote{f}}\\end{figure}', 'footnote in item': '\\section{A}\\begin{itemize}\\item a\\footnote{f}\\end{itemize}', 'footnote in cell': '\\section{A}\\begin{tabular}{l}a\\footnote{f}\\end{tabular}', 'thanks': '\\title{T\\thanks{me}}\\author{N}\\maketitle\\section{A}',
        'index in title': '\\section{A\\index{t}}x\\printindex', 'index in footnote': '\\section{A}x\\footnote{y\\index{n}}\\section{B}\\printindex', 'index in caption': '\\section{A}\\begin{figure}x\\caption{C\\index{c}}\\end{figure}\\section{B}\\printindex', 'see': '\\section{A}x\\index{a|see{b}}\\index{b}\\printindex',
        'equal titles': '\\section{Same}a\\section{Same}b\\subsection{Same}c', 'two figures': '\\begin{figure}x\\caption{C}\\end{figure}\\begin{figure}x\\caption{C}\\end{figure}\\begin{table}x\\end{table}\\begin{table}y\\end{table}', 'two labels': '\\section{A}\\label{p}\\label{q}x\\section{B}\\ref{p} \\ref{q}',
        'odd labels': '\\section{A}\\label{p:q r}x\\subsubsection{B}\\label{fig_1^x}\\section{C}\\ref{p:q r} \\ref{fig_1^x}', 'uncaptioned': '\\section{A}\\begin{figure}x\\label{p}\\end{figure}\\section{B}\\ref{p}', 'label in minipage': '\\section{A}\\begin{minipage}{3cm}\\begin{equation}x\\label{p}\\end{equation}\\end{minipage}\\section{B}\\ref{p}',
        'ref in title': '\\section{A}\\label{p}x\\section{B \\ref{p}}y', 'ref in caption': '\\section{A}\\label{p}x\\section{B}\\begin{figure}\\caption{\\ref{p}}\\end{figure}',
    }
    for kn, kd in OTH.items():
        for lv in (-10, 1, 2, 4):
            for th in ('default', 'minimal'):
                if th == 'minimal' and lv not in (1, 4):
                    continue
                for tpl in ('index [$id, sect$num(4)]', 'index [$title, s$num]') if lv == 2 else ('index [$id, sect$num(4)]',):
                    C.expect(('intitle:%s %d %s %s' if kn == 'index in title' else 'kind: %s %d %s %s') % (kn.replace(' ', '-'), lv, th, tpl[7:10]), RULE['kind'], ANCH, 'pages', [C.tex, art(kd, '\\usepackage{makeidx}\\makeindex'), opt([['files', 'split-level', lv], ['files', 'filename', tpl]]), th], oracle('', th == 'default', {}, th), max_steps=80000000)
    # whole documents
    nd = 140 if thorough else 44
    for i in range(nd):
        d = LDoc(2000 + i, deep=r.choice([2, 3, 4]), n=r.choice([3, 5, 7]), titles=r.choice(['T <%s> of', '<%s>']))
        src = d.source()
        for level in r.sample(range(-3, 6), 5 if thorough else 3):
            theme = r.choice(['default', 'default', 'minimal'])
            base = r.choice(['', '', 'http://h.org/d'])
            o = [['files', 'split-level', level], ['files', 'filename', r.choice(['index [$id, sect$num(4)]', '[$jobname-$num]', 'a [$num]'])]]
            depth = r.choice([0, 1, 2, 3, 4])
            non = r.random() < .4
            o += [['document', 'toc-depth', depth], ['document', 'toc-non-files', non]]
            if base:
                o.append(['document', 'base-url', base + r.choice(['', '/'])])
            single = '$id' not in o[1][2]
            C.expect('links: %d %d %s' % (i, level, theme), RULE['links'], ANCH, 'pages', [C.tex, T(src), opt(o), theme], oracle(base, theme == 'default', {k: v for k, v in d.num.items() if v and (not single)}, theme), max_steps=80000000)
    return C.finish(tier)
