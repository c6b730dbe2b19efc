"""C13: abstract interpretation of the renderer, its templates and its file writing over a model of files.

The HTML5 renderer is interpreted from source - filename generation, file assignment, template lookup, the templates themselves
(translated to code by the template compiler and interpreted abstractly) and the writing of files - on documents whose text is
unknown words; which file holds which word in which order is compared with the split prescribed by the split level."""
import random
import re

from .core import Check, T, short, ListV
from . import rendr, web

DRIVER = r'''
def files(tex, src, opts, theme, twice):
    a = html(src, opts, 'doc', theme)
    if twice:
        b = html(src, opts, 'doc', theme)
        return [a, [k for k, v in b]]
    return [a, None]


def bare(tex, src, opts):
    """the base renderer with plain functions as templates"""
    reset()
    doc = newdoc(opts, 'doc')
    t = TeX(doc)
    t.input(src)
    t.parse()
    r = _Renderer()
    r.fileExtension = '.out'
    r.default = lambda n: str(n)
    for n in ('part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph'):
        r[n] = lambda n: '<sec>' + str(n.title) + '</sec>' + str(n)
    r['item'] = lambda n: (str(n.attributes['term']) if n.attributes['term'] else '') + ' ' + str(n)
    r['caption'] = lambda n: str(n)
    r['footnote'] = lambda n: ''
    r['default-layout'] = lambda n: '<body>' + str(n) + '<foot>' + ''.join([str(f) for f in n.footnotes]) + '</foot></body>' if n.footnotes else '<body>' + str(n) + '</body>'
    r['active::~'] = lambda n: ' '
    r['textdollar'] = lambda n: '$'
    r.render(doc)
    return [output(), None]
'''
RR = 'plasTeX/Renderers/__init__.py:'
ANCH = [RR + 'Renderable.__str__', RR + 'Renderable.filename', RR + 'Renderer.cacheFilenames', RR + 'Renderer.render', 'plasTeX/Filenames.py:Filenames._newFilename']
RULE = {
    'shown': 'the text in the argument or body of every construct is in the page once, in the order of the document',
    'split': 'every sectioning unit at or above the split level has its own file; all other text is in the file of its nearest such unit, once, in the order of the document, footnotes last',
    'single': 'a template naming a single file puts everything into it',
    'names': 'the names of the files are distinct, free of forbidden characters and the same in every run',
    'bare': 'the base renderer writes the same split with any templates',
}
TPL = ['index [$id, sect$num(4)]', 'index [$title(2), s-$num]', '[$jobname-$num(3)]', 'a b c [$id, $title(3), x$num(2)]', 'index [$ref, $id, n$num]', '[$name-$ref, f$num]', 'first.htm second [$title, $num(2)]', '$jobname [$name$num(2)]']
SINGLE = ['all', '$jobname', 'one.htm']
BAD = [None, ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', ' :/', ':_ /;']


PACK = 'hyperref,amsthm,longtable,wrapfig,subfig,color,fancybox,alltt,natbib,float,textcomp,url,graphicx,caption,multicol,tabularx,tabulary,booktabs,changebar,setspace,rotating,comment,marginnote,afterpage,subfigure,listings,verbatim'
SHOWN = {
    'item label': '\\begin{itemize}\\item[@] @\\item @\\end{itemize}@', 'enumerate label': '\\begin{enumerate}\\item[@] @\\item @\\end{enumerate}', 'description': '\\begin{description}\\item[@] @\\item[@] @\\end{description}', 'list': '\\begin{list}{}{}\\item[@] @\\item[@] @\\end{list}', 'trivlist': '\\begin{trivlist}\\item[@] @\\end{trivlist}',
    'nested': '\\begin{itemize}\\item @\\begin{enumerate}\\item @\\begin{description}\\item[@] @\\end{description}@\\end{enumerate}@\\end{itemize}@', 'raisebox': '@\\raisebox{2pt}{@}@', 'boxes': '\\mbox{@}\\fbox{@}\\makebox[2cm]{@}\\framebox[2cm][l]{@}\\parbox{2cm}{@}', 'minipage': '\\begin{minipage}{2cm}@\n\n@\\end{minipage}@', 'hbox': '\\hbox{@}@',
    'longtable': '@\\begin{longtable}{ll}@&@\\\\@&@\\end{longtable}@', 'longtable caption': '\\begin{longtable}{l}\\caption{@}\\\\@\\\\@\\end{longtable}', 'tabular': '\\begin{tabular}{ll}@&@\\\\\\multicolumn{2}{c}{@}\\\\@&@\\end{tabular}', 'tabular*': '\\begin{tabular*}{3cm}{ll}@&@\\\\@&@\\end{tabular*}', 'nested tabular': '\\begin{tabular}{l}\\begin{tabular}{l}@\\\\@\\end{tabular}\\\\@\\end{tabular}',
    'quotes': '\\begin{quote}@\\end{quote}\\begin{quotation}@\\end{quotation}\\begin{verse}@\\end{verse}@', 'align': '\\begin{center}@\\end{center}\\begin{flushleft}@\\end{flushleft}\\begin{flushright}@\\end{flushright}{\\centering @}', 'fonts': '\\emph{@}\\textbf{@}\\textit{@}\\textsf{@}\\textsc{@}\\textsl{@}\\texttt{@}\\textrm{@}\\textup{@}\\textmd{@}\\textnormal{@}\\underline{@}',
    'declarations': '{\\em @}{\\bfseries @}{\\itshape @}{\\sffamily @}{\\scshape @}{\\ttfamily @}{\\bf @}{\\it @}{\\tt @}{\\rm @}{\\sc @}{\\sl @}{\\sf @}', 'sizes': '{\\tiny @}{\\scriptsize @}{\\footnotesize @}{\\small @}{\\normalsize @}{\\large @}{\\Large @}{\\LARGE @}{\\huge @}{\\Huge @}', 'figure': '\\begin{figure}@\\caption{@}\\end{figure}\\begin{table}@\\caption{@}\\end{table}@', 'starred figure': '\\begin{figure*}@\\caption{@}\\end{figure*}\\begin{table*}@\\end{table*}',
    'wrapfigure': '\\begin{wrapfigure}{r}{2cm}@\\caption{@}\\end{wrapfigure}@', 'wraptable': '\\begin{wraptable}{r}{2cm}@\\caption{@}\\end{wraptable}@', 'marginpar': '@\\marginpar{@}@', 'theorem': '\\newtheorem{thm}{Thm}\\begin{thm}[@]@\\end{thm}@', 'proof': '\\begin{proof}@\\end{proof}\\begin{proof}[@]@\\end{proof}', 'verbatim': '\\begin{verbatim}\n@\n @\n\\end{verbatim}\\verb|@|@', 'alltt': '\\begin{alltt}@\n\\emph{@}\\end{alltt}', 'bibliography': '\\begin{thebibliography}{9}\\bibitem{a} @\\bibitem{b} @\n\n@\\end{thebibliography}',
    'color': '\\textcolor{red}{@}{\\color{blue}@}\\colorbox{red}{@}\\fcolorbox{red}{blue}{@}', 'fancybox': '\\shadowbox{@}\\doublebox{@}\\ovalbox{@}\\Ovalbox{@}', 'scripts': '\\textsuperscript{@}\\textsubscript{@}', 'href': '\\href{http://h/}{@}@', 'hyperref': '\\section{@}\\label{k}\\hyperref[k]{@}\\hypertarget{q}{@}\\hyperlink{q}{@}', 'macro': '\\newcommand{\\foo}[2]{#2#1}\\foo{@}{}@', 'environment': '@\\newenvironment{foo}[1]{#1 }{x}@ \\begin{foo}{@}@\\end{foo}',
    'undefined': '@\\undefinedmacro @ \\begin{undefinedenv}@\\end{undefinedenv}@', 'sections': '\\part{@}@\\section{@}@\\subsection{@}@\\subsubsection{@}@\\paragraph{@}@\\subparagraph{@}@', 'starred': '\\section*{@}@\\subsection*{@}@', 'abstract': '\\begin{abstract}@\\end{abstract}@', 'appendix': '@\\appendix\\section{@}@', 'groups': '{@}{{@}}\\begingroup @\\endgroup @', 'accents': "\\'e@\\c{c}@\\ae @", 'spaces': '@~@\\ @\\,@\\quad @\\hspace{1cm}@\\hfill @\\\\@\\newline @', 'breaks': '@\\newpage @\\clearpage @\\linebreak @\\pagebreak @',
    'sloppypar': '\\begin{sloppypar}@\\end{sloppypar}@', 'raggedright': '{\\raggedright @ \\raggedleft @}', 'vspace': '@\\vspace{1cm}@\\vfill @\\bigskip @\\par @\\noindent @\\indent @', 'mbox math': '$x$@\\(y\\)@\\[z\\]@', 'equation': '@\\begin{equation}x\\end{equation}@\\begin{eqnarray}a&b&c\\end{eqnarray}@', 'subfig': '\\begin{figure}\\subfloat{@}\\subfloat[x]{@}\\caption{@}\\end{figure}@', 'footnote': '@\\footnote{@}', 'centerline': '\\centerline{@}@', 'if': '\\iftrue @\\else x\\fi \\iffalse x\\else @\\fi @',
    'titlepage': '\\begin{titlepage}@\\end{titlepage}@', 'picture': '@\\begin{picture}(1,1)\\end{picture}@', 'float': '\\newfloat{prog}{t}{lop}\\floatname{prog}{Prog}\\begin{prog}@\\caption{@}\\end{prog}@', 'samepage': '\\begin{samepage}@\\end{samepage}@', 'obeylines': '{\\obeylines @\n@\n}@', 'uppercase': '\\phantom{}@', 'captionof': '@\\captionof{figure}{@}@', 'ensure': '@\\ensuremath{x}@', 'nolinkurl': '@\\url{http://h/}@',
    'multicols': '\\begin{multicols}{2}@\n\n@\\end{multicols}@', 'tabularx': '\\begin{tabularx}{3cm}{lX}@&@\\\\@&@\\end{tabularx}@', 'tabulary': '\\begin{tabulary}{3cm}{lL}@&@\\\\@&@\\end{tabulary}@', 'booktabs': '\\begin{tabular}{ll}\\toprule @&@\\\\\\midrule @&@\\\\\\bottomrule\\end{tabular}@', 'changebar': '\\cbstart @\\cbend @\\begin{changebar}@\\end{changebar}', 'verse': '\\begin{verse}@\\\\@\\end{verse}@',
    'setspace': '\\begin{spacing}{2}@\\end{spacing}\\begin{doublespace}@\\end{doublespace}@', 'rotating': '\\begin{sideways}@\\end{sideways}\\begin{rotate}{3}@\\end{rotate}@', 'sidewaysfigure': '\\begin{sidewaysfigure}@\\caption{@}\\end{sidewaysfigure}@', 'comment': '@\\begin{comment}\nx\n\\end{comment}\n@', 'graphics boxes': '\\rotatebox{3}{@}\\scalebox{2}{@}\\resizebox{1cm}{2cm}{@}\\reflectbox{@}@', 'beginners': '\\begin{itshape}@\\end{itshape}\\begin{bfseries}@\\end{bfseries}\\begin{small}@\\end{small}@',
    'lists in cells': '\\begin{tabular}{p{2cm}l}\\begin{itemize}\\item @\\end{itemize}&@\\\\@\n\n@&@\\end{tabular}', 'figure in list': '\\begin{itemize}\\item @\\begin{figure}@\\caption{@}\\end{figure}@\\end{itemize}', 'ulem': '@', 'subfigure': '\\begin{figure}\\subfigure{@}\\caption{@}\\end{figure}@', 'verbatim in item': '\\begin{itemize}\\item\\begin{verbatim}\n@\n\\end{verbatim}\\item \\verb|@|\\end{itemize}', 'comment package': '@%x\n@', 'par cells': '\\begin{tabular}{|l|}\\hline @\\\\\\hline\\multicolumn{1}{|l|}{@}\\\\\\cline{1-1}@\\end{tabular}', 'frontmatter': '@', 'quote par': '@\\begin{quote}@\n\n@\\end{quote}@\n\n@', 'deep fonts': '\\emph{@ \\textbf{@ \\texttt{@} @} @}{\\bf @ {\\it @} @}', 'fancyvrb': '@',
}


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C13', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    rendr.boot_html(C, DRIVER, ['plasTeX.Packages.' + x for x in 'article book report hyperref amsthm longtable wrapfig subfig color fancybox alltt natbib float textcomp url graphicx caption multicol tabularx tabulary booktabs changebar setspace rotating comment marginnote afterpage subfigure listings verbatim'.split()], themes=('default', 'minimal', 'fragment'))
    C.freeze()
    r = random.Random(13)

    def expected(d, level):
        out = []
        for u, body, foot in d.split(level):
            out.append((u, None, foot))
        # headings belong to the text of the file
        res = []

        def go(u, own):
            if own is None or u.level <= level:
                own = (u, [], [])
                res.append(own)
            if u.title:
                own[1].append(u.title)
            for i in u.items:
                if isinstance(i, web.Unit):
                    go(i, own)
                else:
                    own[1 if i[0] == 'm' else 2].append(i[1])
        go(d.root, None)
        return res

    def content(name, s, theme):
        p = web.Page(web.plain(s))
        if theme == 'bare':
            b, f = p.root.find('body'), p.root.find('foot')
            if b is None:
                return None, None
            ft = f.text() if f is not None else ''
            bt = b.text()
            return web.marks(bt[:len(bt) - len(ft)] if ft else bt), web.marks(ft)
        f = p.root.find('footer', id='footnotes')
        if theme == 'fragment':
            b = p.root
        elif theme == 'minimal':
            b = p.root.find('body')
        else:
            b = p.root.find('div', 'main-text')
        if b is None:
            return None, None
        ft = f.text() if f is not None else ''
        bt = b.text()
        if theme != 'default' and ft and bt.rstrip().endswith(ft.strip()):
            bt = bt.rstrip()[:-len(ft.strip())]
        return web.marks(bt), web.marks(ft)

    def oracle(d, level, theme, bad, ext='.html'):
        want = expected(d, level)

        def p(obs, facts):
            files, again = obs
            if not all(isinstance(k, str) and isinstance(v, str) for k, v in files):
                return 'UNDECIDED'
            names = [k for k, v in files]
            if again is not None and list(again) != names:
                return 'another run gives the files %s, not %s' % (short(again), short(names))
            if len(set(names)) != len(names):
                return 'two files have the same name: %s' % short(names)
            for n in names:
                n = web.plain(n)
                stem = n[:n.rindex('.')] if '.' in n else n
                hit = [c for c in (bad or '') if c in stem]
                if hit:
                    return 'the file name %r contains %r' % (n, hit[0])
            got = {}
            for k, v in files:
                b, f = content(k, v, theme)
                if b is None:
                    return 'the file %r has no body' % k
                got[k] = (b, f)
            # every unit's file is the one with its heading or first own text
            todo = dict(got)
            for u, b, f in want:
                hit = [k for k in todo if todo[k] == (b, f)]
                if not hit:
                    cand = [k for k in todo if set(todo[k][0]) & set(b)] or [k for k in todo if set(todo[k][1]) & set(f)]
                    what = '%s %s' % (u.kind, u.title or '')
                    if not cand:
                        return 'no file holds %s with the text %s (files: %s)' % (what, b[:6], short({k: v[0][:6] for k, v in todo.items()}))
                    x = todo[cand[0]]
                    return 'the file of %s holds %s and the footnotes %s, not %s and %s' % (what, short(x[0]), short(x[1]), short(b), short(f))
                del todo[hit[0]]
            if todo:
                return 'there are files for no unit: %s' % short(todo)
            return None
        return p

    def opt(o):
        return ListV([ListV(x) for x in o])
    nd = 110 if thorough else 36
    for i in range(nd):
        d = web.Doc(1000 + i, deep=r.choice([2, 3, 4]), n=r.choice([3, 5, 7]), rich=i % 3 != 0, titles=r.choice(['T <%s> of', '<%s>', 'A: <%s>/x', 'Same']) if False else r.choice(['T <%s> of', '<%s>', 'A: <%s>/x']))
        src = d.source()
        for level in (r.sample(range(-10, 7), 5 if not thorough else 9)):
            theme = r.choice(['default', 'default', 'minimal', 'fragment'])
            tpl = r.choice(TPL)
            bad = r.choice(BAD)
            o = [['files', 'split-level', level], ['files', 'filename', tpl]]
            if bad is not None:
                o.append(['files', 'bad-chars', bad])
            eff = bad if bad is not None else BAD[1]
            lit = set(re.sub(r'\$\w+|\(\d+\)|[\[\],]', '', tpl)) | set('0123456789')
            twice = r.random() < .34
            C.expect('%s: %d %d %s' % ('names' if twice else 'split', i, level, theme), RULE['names' if twice else 'split'], ANCH, 'files', [C.tex, T(src), opt(o), theme, twice],
                     oracle(d, level, theme, ''.join(c for c in eff if c not in lit and c not in 'sectdojn')), max_steps=80000000)
        s = r.choice(SINGLE)
        C.expect('single: %d %s' % (i, s), RULE['single'], ANCH, 'files', [C.tex, T(src), opt([['files', 'filename', s], ['files', 'split-level', r.randint(-10, 6)]]), 'default', False], oracle(d, -10, 'default', ''), max_steps=80000000)
        level = r.randint(-10, 6)
        C.expect('bare: %d %d' % (i, level), RULE['bare'], ANCH, 'bare', [C.tex, T(src), opt([['files', 'filename', r.choice(TPL)], ['files', 'split-level', level]])], oracle(d, level, 'bare', '', '.out'), max_steps=80000000)
    # equal titles, odd labels
    for i, (src, n, tpl) in enumerate((
            ('\\section{Same}<mk1>\\section{Same}<mk2>\\section{Same}<mk3>', 4, 'index [$title, s$num(2)]'),
            ('\\section{Same}\\label{x:y}<mk1>\\section{Same}\\label{x-y}<mk2>', 3, 'index [$id, $title]'),
            ('\\section{index}<mk1>\\section{index}<mk2>', 3, 'index [$title, s$num(2)]'),
            ('\\section{A b}<mk1>\\section{A: b}<mk2>\\section{A/b}<mk3>', 4, 'index [$title(2), s$num(2)]'),
            ('\\section{S1}<mk1>\\section{x}<mk2>\\section{S}<mk3>', 4, '[S$num, $title]'))):
        def p(obs, facts, n=n):
            names = [k for k, v in obs[0]]
            if len(names) != n or len(set(names)) != n:
                return 'the files are %s' % names
            if any(c in x[:-5] for x in names for c in BAD[1]):
                return 'a name has a forbidden character: %s' % names
            m = sorted(x for k, v in obs[0] for x in content(k, v, 'minimal')[0])
            if m != ['mk%d' % (j + 1) for j in range(n - 1)]:
                return 'the files hold %s' % m
            return None if obs[1] == names else 'another run gives the names %s' % obs[1]
        C.expect('names: odd-%d' % i, RULE['names'], ANCH, 'files', [C.tex, T('\\documentclass{article}\\begin{document}%s\\end{document}' % src), opt([['files', 'filename', tpl]]), 'minimal', True], p, max_steps=80000000)
    # the text of every construct
    for n, body in SHOWN.items():
        k = [0]

        def word(m):
            k[0] += 1
            return '<mk%d>' % k[0]
        src = '\\documentclass{article}\\usepackage{%s}\\begin{document}' % PACK + re.sub('@', word, body) + '\\end{document}'
        foot = ['mk%d' % k[0]] if n.startswith('footnote') else []
        want = ['mk%d' % (i + 1) for i in range(k[0])]

        def q(obs, facts, want=want):
            files = obs[0]
            if not all(isinstance(a, str) and isinstance(b, str) for a, b in files):
                return 'UNDECIDED'
            if len(files) != 1:
                return 'files %s' % short([a for a, b in files])
            pg = web.Page(web.plain(files[0][1]))
            t = ' '.join([x.attrs.get('alt') or '' for x in pg.root.walk() if x.tag == 'img'])
            if web.marks(t):
                return 'UNDECIDED'
            got = web.marks((pg.root.find('body') or pg.root).text())
            return None if got == want else 'the page shows %s, the document has %s' % (short(got), short(want))
        C.expect('shown: ' + n, RULE['shown'], ['plasTeX/Renderers/__init__.py:Renderable.__str__'], 'files', [C.tex, T(src), ListV([ListV(['files', 'split-level', -10])]), 'minimal', False], q, max_steps=80000000)
    return C.finish(tier)
