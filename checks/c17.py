"""C17: abstract interpretation of whole document histories, and an effect analysis of what each document leaves behind in
state shared by all documents.

Documents are interpreted from source one after another in one abstract heap.  Two rules are decided: the tree (and the
rendered files) of a document after a history equal those of the document alone; and the journal of heap writes shows no
class-level parsing state left different from what it was before the document."""
import os
import random
import re

from .core import Check, REPO, short, same, containsabs, relwhere, T, ListV, anchors
from am.values import ClassV, ListV as LV, DictV, Obj, SetV, MISSING, Abs, FuncV

DRIVER = r'''
_words = {}


def _txt(n):
    return str(n)


def canon(n, depth=0):
    if n is None or isinstance(n, (int, float, bool)):
        return n
    if isinstance(n, (list, tuple)) and not hasattr(n, 'nodeType'):
        return [canon(x, depth + 1) for x in n]
    if isinstance(n, dict) and not hasattr(n, 'nodeType'):
        return [[str(k), canon(n[k], depth + 1)] for k in n]
    if isinstance(n, str):
        return str(n)
    if not hasattr(n, 'nodeType'):
        return '?'
    a = []
    sty = []
    if n.nodeType == n.ELEMENT_NODE:
        if n.attributes:
            for k, v in n.attributes.items():
                if v is n.childNodes or k == 'self':
                    continue
                a.append([k, canon(v, depth + 1)])
        st = getattr(n, 'style', None)
        if st:
            for k in st:
                sty.append([k, str(st[k])])
        r = getattr(n, 'ref', None)
        if r is not None:
            a.append(['@ref', r.textContent if hasattr(r, 'textContent') else str(r)])
        i = getattr(n, 'id', None)
        if i is not None:
            a.append(['@id', str(i)])
        lv = getattr(n, 'level', None)
        if lv is not None:
            a.append(['@level', int(lv)])
        t = getattr(n, 'title', None)
        if t is not None and hasattr(t, 'textContent'):
            a.append(['@title', str(t.textContent)])
        mm = getattr(n, 'mathMode', None)
        a.append(['@math', mm])
    return [n.nodeName, a, sty, [canon(c, depth + 1) for c in n.childNodes]]


def _one(src):
    tex = TeX(TeXDocument())
    tex.input(src)
    return tex.parse()


def history(before, last):
    """the tree of the last document of a history"""
    for s in before:
        _one(s)
    return canon(_one(last))


def rendered(before, last):
    """the files of the last document of a history of processed and rendered documents"""
    for s, opts, theme in before:
        html(s, opts, 'doc', theme)
    return html(last[0], last[1], 'doc', last[2])


def macros():
    return [k for k in TeXDocument().context.contexts[0]]


def effects(src):
    """process one document; its effects are read off the heap journal"""
    _one(src)
    return None
'''

ANCH = ['plasTeX/__init__.py:TeXDocument.__init__', 'plasTeX/Context.py:Context.__init__', 'plasTeX/__init__.py:ParameterCommand.invoke',
        'plasTeX/Base/TeX/Primitives.py:MathShift.invoke', 'plasTeX/Base/LaTeX/Arrays.py:ColumnType.new', 'plasTeX/Packages/article.py:ProcessOptions']
RULE = {
    'alone': 'the tree of a document processed after another equals the tree it has when processed alone',
    'twice': 'processing the same input twice gives identical trees',
    'chain': 'the tree of a document after a history of up to four documents equals the tree it has when processed alone',
    'effect': 'after a document has been processed no class-level parsing state differs from its initial value',
    'files': 'the files rendered for a document after another equal those rendered for it alone',
}


def doc(body, cls='article', pre=''):
    return '\\documentclass{%s}\n%s\n\\begin{document}\n%s\n\\end{document}\n' % (cls, pre, body)


# documents that change something
A = {
    # registers
    'reg-parindent': r'\parindent=7pt \parskip=3pt plus 1pt minus 2pt \hsize=50pt text',
    'reg-count': r'\tolerance=123 \pretolerance=45 \hbadness=9 text',
    'reg-mu': r'\thinmuskip=5mu \medskipamount=2pt text',
    'reg-advance': r'\advance\parindent by 5pt \multiply\tolerance by 3 text',
    'reg-setlength': doc(r'\setlength{\parindent}{9pt}\addtolength{\parskip}{4pt}\setlength{\tabcolsep}{1pt}\setlength{\textwidth}{11pt} text'),
    'reg-group': r'{\parindent=7pt text} more',
    'reg-global': r'{\global\parindent=7pt text} more',
    'reg-new': r'\newcount\mycnt \mycnt=5 \newdimen\mydim \mydim=3pt \newskip\mysk \mysk=2pt plus 1pt \newmuskip\mymu \mymu=3mu \the\mycnt',
    'reg-newlength': doc(r'\newlength{\mylen}\setlength{\mylen}{3pt}\the\mylen'),
    'reg-nested': r'\newdimen\da \da=2pt \hsize=3\da \parindent=-\hsize \the\parindent',
    'reg-missing': r'\parindent=',
    'reg-numberarg': r'\newcount\mycnt \mycnt=7 \ifnum\mycnt>3 yes\else no\fi',
    # math and lists
    'math-open': r'text $x+y',
    'math-open2': r'text $$x+y',
    'math-openpar': r'text \[ x+y',
    'math-openparen': r'text \( x+y',
    'math-openenv': doc(r'\begin{equation} x+y'),
    'math-openbox': r'text $a \hbox{b $c',
    'math-openmbox': r'text $a \mbox{b $c',
    'math-ok': r'text $x+y$ and $$z$$ and \(u\) and \[v\]',
    'math-box': r'$a \hbox{b $c$ d} e$ \mbox{f $g$ h}',
    'list-open': r'\begin{itemize}\item a \begin{enumerate}\item b \begin{enumerate} \item c',
    'list-ok': r'\begin{enumerate}\item a \begin{enumerate}\item b\end{enumerate}\end{enumerate}',
    'list-desc-open': r'\begin{description}\item[a] b \begin{itemize} \item',
    'group-open': r'{\bf text {\it more',
    'env-open': doc(r'\begin{quote}\begin{center} text'),
    'tab-open': doc(r'\begin{tabular}{lc} a & b \\ c'),
    'verb-open': r'\begin{verbatim} a $ %',
    'if-open': r'\iftrue text',
    'if-skip-open': r'\iffalse text',
    'arg-open': r'\section{unfinished',
    # macros and category codes
    'def': r'\def\emph#1{[#1]}\def\LaTeX{L}\gdef\section{S}\let\textbf=\textit \emph{x} \LaTeX',
    'newif': r'\newif\ifzz \zztrue \ifzz a\else b\fi',
    'newcmd': doc(r'\newcommand{\foo}[2][d]{#1-#2}\newenvironment{bar}[1]{<#1}{>}\foo{x}\begin{bar}{y}z\end{bar}\renewcommand{\thesection}{S\arabic{section}}\section{t}'),
    'catcode': r'\catcode`\|=13 \def|{BAR}\catcode`\$=12 \catcode`\_=12 \catcode`\@=11 a|b$c_d',
    'makeat': r'\makeatletter \def\x@y{z}\x@y',
    'uccode': r'\uccode`a=`b \lccode`B=`z \char65',
    'csname': r'\expandafter\def\csname foo bar\endcsname{u}\csname foo bar\endcsname',
    'chardef': r'\chardef\x=65 \mathchardef\y="1234 \x',
    'count-reg': doc(r'\newcounter{foo}[section]\setcounter{foo}{5}\stepcounter{section}\refstepcounter{subsection}\thefoo \thesubsection'),
    # classes
    'cls-article': doc(r'\section{A}\begin{thebibliography}{9}\bibitem{a} x\end{thebibliography}'),
    'cls-report': doc(r'\chapter{A}\section{B}\begin{thebibliography}{9}\bibitem{a} x\end{thebibliography}', 'report'),
    'cls-book': doc(r'\frontmatter\chapter{A}\mainmatter\chapter{B}\appendix\chapter{C}', 'book'),
    'cls-appendix': doc(r'\section{A}\appendix\section{B}\subsection{C}'),
    'cls-index': doc(r'a\index{foo!bar}\printindex', 'article', r'\usepackage{makeidx}'),
    'cls-bookindex': doc(r'\chapter{a}\index{foo!bar}\printindex', 'book', r'\usepackage{makeidx}'),
    'cls-depth': doc(r'\setcounter{secnumdepth}{0}\setcounter{tocdepth}{0}\section{A}\subsection{B}'),
    'cls-title': doc(r'\title{T}\author{A}\date{D}\maketitle\tableofcontents\section{a}'),
    'cls-float': doc(r'\begin{figure}\caption{c}\label{f}\end{figure}\begin{table}\caption{d}\end{table}\ref{f}'),
    # packages
    'pkg-array': doc(r'\newcolumntype{Z}{>{\bf}l}\newcolumntype{l}{r}\begin{tabular}{Zl}a&b\end{tabular}', 'article', r'\usepackage{array}'),
    'pkg-array2': doc(r'\begin{tabular}{Zc}a&b\end{tabular}', 'article', '\\usepackage{array}\n\\newcolumntype{c}{>{x}r}\\newcolumntype{Z}[1]{p{#1}}'),
    'pkg-ifthen': doc(r'\newboolean{bb}\setboolean{bb}{true}\ifthenelse{\boolean{bb} \and \not \equal{a}{b} \or \( 1 < 2 \)}{yes $x$}{no}', 'article', r'\usepackage{ifthen}'),
    'pkg-amsmath': doc(r'\begin{align}a&=b\\c&=d\end{align}\begin{equation}\text{if $x$}\end{equation}\numberwithin{equation}{section}', 'article', r'\usepackage{amsmath}'),
    'pkg-amsthm': doc(r'\newtheorem{thm}{Theorem}[section]\theoremstyle{definition}\newtheorem*{df}{Definition}\begin{thm}[n] x\end{thm}\begin{df}y\end{df}\begin{proof}z\end{proof}', 'article', r'\usepackage{amsthm}'),
    'pkg-float': doc(r'\newfloat{prog}{h}{lop}\floatname{prog}{Program}\begin{prog}\caption{x}\end{prog}', 'article', r'\usepackage{float}'),
    'pkg-longtable': doc(r'\begin{longtable}{lc}\caption{x}\\a&b\endhead c&d\\e&f\end{longtable}', 'article', r'\usepackage{longtable}'),
    'pkg-natbib': doc(r'\citet{a} \citep{b}\begin{thebibliography}{9}\bibitem[X(2000)]{a} x\bibitem[Y(2001)]{b} y\end{thebibliography}', 'article', r'\usepackage[round]{natbib}'),
    'pkg-hyperref': doc(r'\href{http://a.b}{c}\url{http://d.e}\section{x}\label{s}\autoref{s}', 'article', r'\usepackage{hyperref}'),
    'pkg-graphicx': doc(r'\graphicspath{{img/}}\rotatebox{90}{x}\scalebox{2}{y}', 'article', r'\usepackage{graphicx}'),
    'pkg-color': doc(r'\definecolor{foo}{rgb}{1,0,0}\textcolor{foo}{x}\color{red}y', 'article', r'\usepackage{color}'),
    'pkg-babel': doc(r'\section{a}\today\begin{figure}\caption{x}\end{figure}', 'article', r'\usepackage[french]{babel}'),
    'pkg-german': doc(r'\section{a}\chapter{b}\begin{abstract}x\end{abstract}', 'book', r'\usepackage[ngerman]{babel}'),
    'pkg-fancyvrb': doc('\\begin{Verbatim}\na $\n\\end{Verbatim}', 'article', r'\usepackage{fancyvrb}'),
    'pkg-keyval': doc(r'x', 'article', r'\usepackage{keyval}\usepackage{calc}'),
    'pkg-subfig': doc(r'\begin{figure}\subfloat[a]{x}\caption{y}\end{figure}', 'article', r'\usepackage{subfig}'),
    'pkg-textcomp': doc(r'\texteuro \'e \~n', 'article', '\\usepackage[utf8]{inputenc}\\usepackage[T1]{fontenc}\\usepackage{textcomp}'),
    'pkg-enumitem': doc(r'\begin{enumerate}[label=\alph*]\item x\end{enumerate}', 'article', r'\usepackage{enumitem}'),
    'pkg-beamer': doc(r'\begin{frame}\begin{itemize}\item<1> a\item b\end{itemize}\textbf<2>{c}\end{frame}', 'beamer'),
    'pkg-whiledo': doc(r'\newcounter{n}\whiledo{\value{n}<3}{\stepcounter{n}\(x\)}', 'article', r'\usepackage{ifthen}'),
    'pkg-whiletext': doc(r'\newcounter{n}\whiledo{\not\equal{\arabic{n}}{2}}{\stepcounter{n}a}\ifthenelse{\lengthtest{1pt<2pt}}{$y$}{}', 'article', r'\usepackage{ifthen}'),
    'pkg-sectionbib': doc(r'\citet{a}\bibliography{x}', 'report', r'\usepackage[sectionbib]{natbib}'),
    'pkg-paralist': doc(r'x', 'article', r'\usepackage{paralist}\usepackage{setspace}\usepackage{geometry}'),
}

# documents whose tree shows the state a predecessor could have changed
PROBE = {
    'registers': r'\the\parindent; \the\parskip; \the\hsize; \the\tolerance; \the\pretolerance; \the\hbadness; \the\thinmuskip; '
                 r'\the\tabcolsep; \the\textwidth; \newdimen\mydim \mydim=2\parindent \the\mydim; \newcount\mycnt \the\mycnt; \newskip\mysk \the\mysk',
    'overlay': doc(r'\begin{itemize}\item<a> b\item[c] <d>\end{itemize}\begin{enumerate}[i]\item x\end{enumerate}\textbf<1>{x} \section<2>{y} \footnote<3>{z}'),
    'natbib': doc(r'\citet{a}\bibliography{x}\section{s}', 'report', r'\usepackage{natbib}'),
    'math': r'a $x$ b $$y$$ c \(z\) d \[w\] e $a \hbox{b $c$ d} f$ g < h, i_2',
    'lists': r'\begin{enumerate}\item a \begin{enumerate}\item b\label{x} \begin{itemize}\item c\end{itemize}\end{enumerate}\item d\end{enumerate}\ref{x}',
    'macros': doc(r'\emph{a} \LaTeX\ \textbf{b} \section{s} x|y @ \newif\ifzz \ifzz a\else b\fi \newcounter{foo}\thefoo \begin{verbatim} v \end{verbatim}'),
    'tables': doc(r'\begin{tabular}{lcr|p{2cm}}a&b&c&d\\\hline e&f&g&h\end{tabular} \begin{tabular}{|l|c|}\hline a&b\\\end{tabular}'),
    'article': doc('\\title{T}\\maketitle\\section{A}\\label{a}\\subsection{B}\\begin{equation}x\\label{e}\\end{equation}\\begin{figure}\\caption{c}\\label{f}\\end{figure}\\ref{a} \\ref{e} \\ref{f}'
                   '\\footnote{n}\\cite{k}\\begin{thebibliography}{9}\\bibitem{k} x\\end{thebibliography}'),
    'report': doc('\\chapter{A}\\section{B}\\label{a}\\begin{equation}x\\label{e}\\end{equation}\\ref{a}\\cite{k}'
                  '\\begin{thebibliography}{9}\\bibitem{k} x\\end{thebibliography}', 'report'),
    'book': doc(r'\chapter{A}\section{B}\index{foo}\appendix\chapter{C}\printindex', 'book', r'\usepackage{makeidx}'),
    'artindex': doc(r'\section{A}\index{foo!bar}\index{foo|see{x}}\printindex', 'article', r'\usepackage{makeidx}'),
    'array': doc(r'\newcolumntype{Q}{>{\bf}c}\begin{tabular}{lQr}a&b&c\\d&e&f\end{tabular}', 'article', r'\usepackage{array}'),
    'theorem': doc(r'\newtheorem{thm}{Theorem}\newtheorem{lem}[thm]{Lemma}\begin{thm}x\label{t}\end{thm}\begin{lem}y\end{lem}\ref{t}', 'article', r'\usepackage{amsthm}'),
    'ifthen': doc(r'\ifthenelse{1<2}{a}{b}\ifthenelse{\equal{x}{y}}{c}{d} $1 < 2$ \(z\)', 'article', r'\usepackage{ifthen}'),
}

# which probes follow which documents in the quick tier, besides the two that are always tried
NEAR = {'reg': ['registers'], 'math': ['math', 'ifthen'], 'list': ['lists', 'overlay'], 'cls': ['natbib', 'report', 'book', 'artindex', 'article'], 'pkg': ['overlay', 'natbib', 'tables', 'article', 'array', 'theorem', 'ifthen'],
        'def': ['macros'], 'newif': ['macros'], 'newcmd': ['macros', 'article'], 'catcode': ['macros', 'math'], 'group': ['macros'], 'env': ['macros', 'lists'],
        'tab': ['tables', 'macros'], 'verb': ['macros'], 'if': ['macros', 'ifthen'], 'arg': ['registers', 'article'], 'makeat': ['macros'],
        'uccode': ['macros'], 'csname': ['macros'], 'chardef': ['macros'], 'count': ['article', 'macros']}

SKIP = {'input', 'include', 'includeonly', 'documentclass', 'documentstyle', 'usepackage', 'RequirePackage', 'LoadClass', 'openin', 'openout', 'immediate', 'read', 'bibliography'}
FORMS = [('use', 'a \\%s{b}{c}{d}{e} f'), ('end', 'a \\%s'), ('option', 'a \\%s*[b]{c}[d]{e}{f} g'), ('box', 'a \\hbox{$b \\%s'), ('assignment', 'a \\%s=3pt plus 1pt b')]

_AID = re.compile(r'a\d{10}')


def norm(x, ids=None):
    """generated identifiers are renamed by first occurrence"""
    if ids is None:
        ids = {}
    if isinstance(x, str):
        return _AID.sub(lambda mo: ids.setdefault(mo.group(), 'id%d' % len(ids)), x)
    if isinstance(x, (list, tuple)):
        return [norm(y, ids) for y in x]
    if isinstance(x, dict):
        return {k: norm(v, ids) for k, v in x.items()}
    return x


def first_diff(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list):
        nm = a[0] if a and isinstance(a[0], str) and len(a) == 4 else ''
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return first_diff(x, y, path + '/' + (nm or str(i)))
        if len(a) != len(b):
            return '%s: %s / %s' % (path, short(a, 300), short(b, 300))
    return '%s: %s / %s' % (path, short(a, 300), short(b, 300))


def result(m, rs):
    """the result all paths agree on, or a reason why there is none"""
    out = None
    for r in rs:
        if r.kind == 'prune':
            continue
        if r.kind == 'undecided':
            return None, str(r.value)
        o = ('raise', r.value.cls.name) if r.kind == 'raise' else ('return', norm(r.out))
        if containsabs(o):
            return None, 'inexact result'
        if out is not None and not same(out, o):
            return None, 'several results'
        out = o
    return out, 'no path'


# rendered histories: what is processed and rendered first (document, options, theme)
SPLIT = ['files', 'split-level', 2]
FA = {
    'article': (A['cls-article'], [], 'default'), 'report': (A['cls-report'], [SPLIT], 'default'), 'book': (A['cls-book'], [], 'minimal'),
    'float': (A['cls-float'], [SPLIT], 'minimal'), 'title': (A['cls-title'], [['document', 'toc-depth', 1], ['document', 'toc-non-files', True]], 'default'),
    'index': (A['cls-index'], [], 'default'), 'math': (A['math-ok'], [], 'default'), 'mathopen': (A['math-open'], [], 'default'),
    'french': (A['pkg-babel'], [], 'default'), 'escape': (doc('\u00e9 \u2200 \\section{\u00e9}'), [['files', 'escape-high-chars', True], ['files', 'output-encoding', 'ascii']], 'default'),
    'names': (doc(r'\section{One}\label{one}\section{Two}\label{two}'), [SPLIT, ['files', 'filename', 'index [$id, sect$num(4)]']], 'default'),
    'badchars': (doc(r'\section{One: a}\section{Two}'), [SPLIT, ['files', 'filename', '[$title]'], ['files', 'bad-chars-sub', '_']], 'minimal'),
    'footnote': (doc(r'\section{a}x\footnote{y}\section{b}z\footnote{u}'), [SPLIT], 'default'),
    'theorem': (A['pkg-amsthm'], [], 'default'), 'natbib': (A['pkg-natbib'], [], 'default'), 'links': (A['pkg-hyperref'], [['document', 'base-url', 'http://x/']], 'default'),
    'catcode': (A['catcode'], [], 'minimal'),
}
FB = {
    'sections': (doc('\\title{T}\\maketitle\\tableofcontents\\section{A}\\label{a}x\\footnote{n}\\subsection{B}\\begin{equation}x\\label{e}\\end{equation}\\section{C: d}\\begin{figure}y\\caption{c}\\label{f}\\end{figure}\\ref{a} \\ref{e} \\ref{f}'), [SPLIT], 'default'),
    'one file': (doc('\\section{A \u00e9}\\label{a}\\begin{tabular}{l|r}a&b\\\\c&d\\end{tabular}\\begin{itemize}\\item $x<y$\\item[z] \\ref{a}\\end{itemize}\\cite{k}\\begin{thebibliography}{9}\\bibitem{k} x\\end{thebibliography}'), [['files', 'split-level', -10]], 'default'),
    'report': (doc('\\chapter{A}\\section{B}\\index{foo}x\\footnote{n}\\chapter{C}\\begin{figure}y\\caption{c}\\end{figure}\\printindex', 'report'), [SPLIT], 'minimal'),
}

_alone = {}


def main(tier):
    C = Check('C17', __doc__)
    from .core import obs as OBS
    mods = ['plasTeX.Packages.' + n for n in ('article', 'report', 'book', 'makeidx', 'array', 'ifthen', 'amsmath', 'amsthm', 'float', 'longtable', 'natbib',
                                             'hyperref', 'graphicx', 'color', 'babel')]
    import am.image
    mods = [x for x in mods if os.path.exists(os.path.join(REPO, *x.split('.')) + '.py')]
    from . import rendr
    rendr.boot_html(C, DRIVER, mods)
    C.freeze()
    m = C.m
    big = dict(max_paths=30, max_steps=40000000, time_limit=150)

    def ob(m, kind, value):
        return OBS(m, value) if kind == 'return' else None

    def alone(m, fn, B):
        k = (fn, repr(B))
        if k not in _alone:
            _alone[k] = result(m, m.explore(C.g[fn], [LV([]), B], None, ob, **big))
        return _alone[k]

    def pair(id, rule, As, B, fn='history'):
        def run(m):
            want, why = alone(m, fn, B)
            if want is None:
                return {'status': 'und', 'detail': 'alone: ' + why, 'paths': 0}
            got, why = result(m, m.explore(C.g[fn], [LV(list(As)), B], None, ob, **big))
            if got is None:
                return {'status': 'und', 'detail': 'after the history: ' + why, 'paths': 0}
            if same(got, want):
                return {'status': 'ok', 'paths': 2}
            if got[0] != want[0] or got[0] == 'raise':
                d = 'after: %s\nalone: %s' % (short(got, 400), short(want, 400))
            else:
                d = 'differs at (after / alone) ' + first_diff(got[1], want[1])
            return {'status': 'viol', 'detail': 'processed before: %s\ndocument: %s\n%s' % (short([a for a in As], 600), short(B, 400), d), 'paths': 2}
        C.add(id, rule, ANCH, run)

    def near(k):
        return NEAR.get(k.split('-')[0], [])

    for k in A:
        for p in PROBE:
            if tier != 'thorough' and p not in near(k):
                continue
            pair('alone: %s then %s' % (k, p), RULE['alone'], [A[k]], PROBE[p])
        pair('twice: %s' % k, RULE['twice'], [A[k]], A[k])
    for p in PROBE:
        pair('twice: %s' % p, RULE['twice'], [PROBE[p]], PROBE[p])

    # ---- rendered files
    def lv(x):
        return LV([lv(y) for y in x]) if isinstance(x, (list, tuple)) else x
    for b in FB:
        for a in FA:
            pair('files: %s then %s' % (a, b), RULE['files'], [lv(FA[a])], lv(FB[b]), 'rendered')
        pair('files: %s twice' % b, RULE['files'], [lv(FB[b]), lv(FB[b])], lv(FB[b]), 'rendered')

    # ---- effects
    macro = m.modules['plasTeX'].dict.get('Macro')

    def effect(id, src):
        def run(m):
            bad = []

            def ob2(m, kind, value):
                if kind != 'return':
                    # not processed to completion
                    return None
                bad[:] = leftovers(m, macro)
                return [list(x) for x in bad]
            rs = m.explore(C.g['effects'], [src], None, ob2, **big)
            und = None
            for r in rs:
                if r.kind in ('prune',):
                    continue
                if r.kind == 'undecided':
                    und = str(r.value)
                elif r.out:
                    return {'status': 'viol', 'detail': 'document: %s\n%s' % (short(src, 500), '\n'.join('%s: %s left %s, was %s' % (x[0], x[1], x[3], x[2]) for x in r.out[:8])),
                            'where': r.out[0][0], 'paths': 1}
            return {'status': 'und', 'detail': und, 'paths': 0} if und else {'status': 'ok', 'paths': 1}
        C.add(id, RULE['effect'], ANCH, run)

    for k in A:
        effect('effect: ' + k, A[k])
    for p in PROBE:
        effect('effect: probe ' + p, PROBE[p])

    # every command of the base macros, with its arguments, without them at the end of the input, and in an unclosed box
    names = sorted(set(k if isinstance(k, str) else '' for k in C.m.eval(C.g['macros']).items))
    names = [k for k in names if re.match(r'[A-Za-z]+$', k) and k not in SKIP]
    for k in names:
        for i, form in enumerate(FORMS):
            if tier == 'thorough' or i in (0, 1):
                effect('effect: %s of %s' % (form[0], k), form[1] % k)

    # ---- longer histories
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1) * 31 + 7)
    ks = sorted(A)
    ps = sorted(PROBE)
    for i in range(40 if tier != 'thorough' else 150):
        n = rnd.choice([2, 3, 4])
        As = [rnd.choice(ks) for _ in range(n)]
        B = rnd.choice(ps)
        pair('chain: %s then %s' % ('+'.join(As), B), RULE['chain'], [A[x] for x in As], PROBE[B])
    return C.finish(tier)


def leftovers(m, macro):
    """class attributes of macro classes whose value after the run differs from the one before it"""
    first = {}
    order = []
    mark = getattr(m, 'base_mark', 0)
    for e in m.trail[mark:]:
        k = (e[0], id(e[1]), e[2])
        if k not in first:
            first[k] = e[3]
            order.append((k, e))
    bydict = {}
    for v in m.base_keep:
        if type(v) is ClassV:
            bydict[id(v.dict)] = v
    out = []
    lists = {}
    for k, e in order:
        old = first[k]
        if e[0] == 0:
            c = bydict.get(k[1])
            if c is None or c.builtin or not c.issub(macro):
                continue
            new = e[1].get(e[2], MISSING)
            if old is MISSING:
                old = MISSING
                for b in c.mro[1:]:
                    if e[2] in b.dict:
                        old = b.dict[e[2]]
                        break
            if not plain_state(old) or new is MISSING or not plain_state(new):
                continue
            so, sn = show(old), show(new)
            if so != sn:
                out.append((where(c), e[2], so, sn))
        elif e[2] == 'items' and k[1] in m.base_ids:
            lists[k[1]] = (old, e[1])
    if lists:
        for c in bydict.values():
            if c.builtin or not c.issub(macro):
                continue
            for a, v in c.dict.items():
                if type(v) is LV and id(v) in lists:
                    old, o = lists[id(v)]
                    if len(old) != len(o.items):
                        out.append((where(c), a, '%d entries' % len(old), '%d entries' % len(o.items)))
    return out


def where(c):
    return '%s.%s' % (c.module if isinstance(c.module, str) else '', c.qualname)


def plain_state(v):
    """switches, numbers, names and measures; memo tables and caches that start out empty are not parsing state"""
    if v is None or v is MISSING:
        return False
    if isinstance(v, (bool, int, float, str)):
        return True
    return type(v) is Obj and v.payload is not None and isinstance(v.payload, (int, float, str, Abs))


def show(v):
    if type(v) is Obj:
        return '%s(%s)' % (v.cls.name, ', '.join([repr(v.payload)] + ['%s=%s' % (k, show(x)) for k, x in sorted(v.attrs.items()) if x is not None and plain_state(x)]))
    return repr(v)
