"""C20: abstract interpretation of saving and restoring label data over a model of files and pickles.

Rendering, saving, restoring and resolving references are interpreted from source on in-memory files; after histories of saves,
faults (every failure the pickle library documents, and foreign objects) and restores the labels of the next document are
compared with those of the document that was saved."""
import itertools
import random

from .core import Check, T, short, text, ListV, REPO
from . import rendr

DRIVER = r'''
_cap = []


def _s(v):
    return None if v is None else str(v)


def _info(n):
    return [_s(getattr(n, 'ref', None)), _s(getattr(n, 'title', None)), _s(getattr(n, 'url', None)), _s(getattr(n, 'id', None)), _s(getattr(n, 'captionName', None))]


class R(_Renderer):
    fileExtension = '.html'
    variant = ''

    def cleanup(self, document, files, postProcess=None):
        ctx = document.context
        own = [[k, _info(ctx.labels[k])] for k in ctx.labels]
        refs = []
        for n in document.getElementsByTagName('ref'):
            l = n.idref['label']
            refs.append([_s(n.attributes.get('label') if not hasattr(l, 'nodeType') else None), _info(l)])
        _cap.append([own, refs])


def _tpl(node):
    return '<' + node.nodeName + '>' + str(node) + '</' + node.nodeName + '>'


def _sec(node):
    return str(node.title) + '/' + str(node)


def _mk(variant):
    r = R()
    r.default = _tpl
    for n in ('chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'part'):
        r[n] = _sec
    r['emph'] = lambda n: variant + str(n) + variant
    r['ref'] = lambda n: str(n.idref['label'].ref)
    r['active::~'] = lambda n: ' '
    return r


def _run(job, src, opts, renderer, pauxes):
    """process one document: restore the given files, parse, render (which saves)"""
    opts = opts + [['general', 'renderer', renderer]]
    doc = newdoc(opts, job)
    for p in pauxes:
        doc.context.restore(p, renderer)
    flag = doc.context.warnOnUnrecognized
    tex = TeX(doc)
    tex.input(src)
    tex.parse()
    del _cap[:]
    _mk(renderer).render(doc)
    return [_cap[0][0], _cap[0][1], flag]


def saved(tex, src, opts):
    """labels as rendered by the saving run and as restored by another run"""
    reset()
    a = _run('first', src, opts, 'A', [])
    doc = newdoc([], 'second')
    doc.context.restore('./first.paux', 'A')
    t = TeX(doc)
    t.input('\\documentclass{article}\\begin{document}x\\end{document}')
    t.parse()
    del _cap[:]
    _mk('A').render(doc)
    return [a[0], _cap[0][0]]


def chained(tex, src, src2, opts):
    """labels as rendered by a run that has read another document's labels, and as restored from its own file"""
    reset()
    _run('first', src, opts, 'A', [])
    b = _run('second', src2, opts, 'A', ['./first.paux'])
    doc = newdoc([], 'third')
    doc.context.restore('./second.paux', 'A')
    t = TeX(doc)
    t.input('\\documentclass{article}\\begin{document}x\\end{document}')
    t.parse()
    del _cap[:]
    _mk('A').render(doc)
    return [b[0], _cap[0][0]]


def resolve(tex, src, opts, use):
    reset()
    a = _run('first', src, opts, 'A', [])
    b = _run('second', use, opts, 'A', ['./first.paux'])
    return [a[0], b[1], _FS.files['second.html'] if 'second.html' in _FS.files else [f for f in _FS.files]]


def history(tex, steps):
    """steps: ['save', renderer, src, restores] | ['fault', thing] ; result: what the reading runs saw"""
    reset()
    out = []
    for s in steps:
        if s[0] == 'save':
            r = _run('doc', s[2], [], s[1], ['./doc.paux'] if s[3] else [])
            out.append(['saved', r[0]])
        elif s[0] == 'read':
            r = _run('other', s[2], [], s[1], ['./doc.paux'])
            out.append(['read', r[0], r[2]])
        elif s[0] == 'fault':
            f = s[1]
            if f == 'missing':
                _FS.files.pop('doc.paux', None)
            elif f == 'empty':
                _FS.files['doc.paux'] = ''
            elif f == 'text':
                _FS.files['doc.paux'] = 'some text'
            elif f == 'raise':
                _FS.files['doc.paux'] = _Garbage(None, _exc(s[2]))
            else:
                _FS.files['doc.paux'] = _Garbage(_junk(s[2]))
    d = _FS.files.get('doc.paux')
    out.append(['file', isinstance(d, _Pickled), [[k, [l for l in d.obj[k]]] for k in d.obj if isinstance(k, str) and isinstance(d.obj[k], dict)] if isinstance(d, _Pickled) and isinstance(d.obj, dict) else None])
    return out


def _exc(n):
    if n == 0:
        return _UnpicklingError('pickle data was truncated')
    return [EOFError, ValueError, KeyError, IndexError, TypeError, AttributeError, ImportError, ModuleNotFoundError, MemoryError, OverflowError, RecursionError, NameError, AssertionError, UnicodeError, OSError, Exception][n - 1]('bad')


def _junk(n):
    good = {'macroName': 'section', 'ref': '9', 'title': 'nine', 'id': 'g', 'url': 'g.html'}
    return [None, 5, 'str', [], [1, 2], (), {}, {'A': None}, {'A': 5}, {'A': 'x'}, {'A': []}, {'A': {}}, {'A': {'k': None}}, {'A': {'k': 5}}, {'A': {'k': 'x'}}, {'A': {'k': []}}, {'A': {'k': {}}},
            {'A': {5: good}}, {'A': {None: good}}, {'A': {'k': {'macroName': 5}}}, {'A': {'k': {'macroName': None}}}, {'A': {'k': {'macroName': ''}}}, {'A': {'k': {'macroName': 'nosuchmacro'}}},
            {'A': {'k': {'macroName': 'relax', 'ref': '2'}}}, {'A': {'k': {'macroName': 'section', 'title': 5, 'ref': 7}}}, {'A': {'k': {'macroName': 'section', 5: 'x'}}}, {'A': {'k': {'macroName': 'section', None: 'x'}}},
            {'A': {'k': {'macroName': 'section', 'childNodes': 'x', 'ref': '2'}}}, {'A': {'k': {'macroName': 'section', 'config': 'x', 'ref': '2'}}}, {'A': {'k': good, 'bad': 5}}, {'A': {'bad': 5, 'k': good}},
            {'B': {'k': good}}, {b'A': 3}, {5: 6}, {'A': {'k': {b'macroName': 'section'}}}, {'A': {'k': {'macroName': 'section', 'ref': '1'}}}, {'A': {'k': {'macroNbme': 'section', 'ref': '1', 'url': 'x'}}}, True, 2.5, b'bytes', {'a', 'b'},
            {'A': {'k': {'macroName': [], 'ref': '1'}}}, {'A': {'k': {'macroName': 'section', 'url': 7, 'id': 3}}}, {'A': {'k': good}}, {'A': {'k': {'macroName': 'par'}}}, {'A': {'k': {'macroName': 'document', 'ref': 'x'}}}][n]


NJUNK = 46


def external(tex, files, src):
    reset()
    for name, kind, n in files:
        _FS.files[name] = '' if kind == 'empty' else 'some text' if kind == 'text' else _Garbage(None, _exc(n)) if kind == 'raise' else _Garbage(_junk(n)) if kind == 'junk' else _Pickled({'A': {'k': {'macroName': 'section', 'ref': '9', 'title': 'nine', 'id': 'g', 'url': 'g.html'}}})
    doc = newdoc([], 'x')
    t = TeX(doc)
    t.input(src)
    d = t.parse()
    out = []
    for n in doc.getElementsByTagName('ref'):
        l = n.idref['label']
        out.append([_s(l.get(k)) for k in ('ref', 'title', 'url')] if isinstance(l, dict) else None)
    return [d.textContent, out]


def compiled(tex, files, jobs, job, dirs):
    """Compile.parse: which files are restored"""
    reset()
    for n in files:
        _FS.files[n] = _Pickled({'A': {n: {'macroName': 'section', 'ref': n, 'title': 't', 'id': 'i', 'url': 'u'}}})
    c = config([['general', 'renderer', 'A'], ['general', 'paux-dirs', dirs]])

    class _TeX(object):
        def __init__(self, document=None, file=None):
            self.ownerDocument = document
            self.jobname = job

        def parse(self):
            return self.ownerDocument
    _compile.TeX = _TeX
    t = _compile.parse(job + '.tex', c)
    return sorted([str(k) for k in t.ownerDocument.context.labels])
'''
NJUNK = 46
NEXC = 17
CX = 'plasTeX/Context.py:'
ANCH = [CX + 'Context.persist', CX + 'Context.restore', 'plasTeX/__init__.py:Macro.persist', 'plasTeX/__init__.py:Macro.restore', 'plasTeX/Renderers/__init__.py:Renderer.render']
RULE = {
    'trip': 'the labels restored by another run are those of the saving run, with the same number, title and location',
    'ref': 'a reference to a label of the other document resolves to its number and location',
    'fault': 'a missing, empty, damaged or foreign file never makes processing fail; at worst its labels are absent',
    'next': 'the save after a fault produces a complete file with exactly the labels of the run, and leaves the data of other renderers alone',
    'sep': 'the data of one renderer is not seen or changed by another',
    'xr': 'a missing, empty, damaged or foreign file named by \\externaldocument never makes processing fail',
    'when': 'the label files of the working directory and the configured directories are restored, except the document\'s own',
}

H = '\\documentclass{%s}\\newtheorem{thm}{Theorem}\\begin{document}'
E = '\\end{document}'


def seclabels(text):
    return text


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C20', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    rendr.boot(C, DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.xr', 'plasTeX.Packages.amsmath'])
    C.freeze()
    r = random.Random(20)

    OBJ = [('\\section{S <w1>}\\label{%s}', '{n}', 'S <w1>'), ('\\section{S}\\label{%s}a\\subsection{T <w2>}\\label{%s.s}', None, None), ('\\begin{equation}x\\label{%s}\\end{equation}', '{n}', None), ('\\begin{figure}\\caption{C <w1>}\\label{%s}\\end{figure}', None, None),
           ('\\begin{table}\\caption{C \\emph{<w1>}}\\label{%s}\\end{table}', None, None), ('\\begin{enumerate}\\item a\\label{%s}\\item b\\label{%s.b}\\end{enumerate}', None, None), ('\\begin{thm}\\label{%s}q\\end{thm}', None, None),
           ('\\begin{thm}[note <w3>]\\label{%s}q\\end{thm}', None, None), ('\\section{A $x$ \\emph{b}}\\label{%s}', None, None), ('\\section*{Star}\\label{%s}', None, None), ('\\begin{eqnarray}a&b&c\\label{%s}\\\\d&e&f\\label{%s.r}\\end{eqnarray}', None, None), ('\\paragraph{P}\\label{%s}', None, None), ('\\appendix\\section{App}\\label{%s}', None, None),
           ('\\section[short]{Long <w2>}\\label{%s}', None, None), ('\\subsubsection{\\textbf{x} \\& y}\\label{%s}', None, None)]

    def trip(labels):
        def p(obs, facts):
            a, b = obs
            da, db = {k: v for k, v in a}, {k: v for k, v in b}
            if set(da) != set(labels):
                return 'the saving run has the labels %s' % sorted(map(str, da))
            for k in da:
                if k not in db:
                    return 'label %r is not restored' % k
            for k in db:
                if k not in da:
                    return 'label %r is restored but was not saved' % k
                for i, what in ((0, 'number'), (1, 'title'), (2, 'location'), (3, 'id'), (4, 'caption name')):
                    if str(da[k][i]) != str(db[k][i]):
                        return 'the %s of label %r was %s and is restored as %s' % (what, k, short(da[k][i]), short(db[k][i]))
            return None
        return p

    def labels_of(src):
        import re
        return re.findall(r'\\label\{([^}]*)\}', src)

    import re
    OPT = [[], [['files', 'split-level', -10]], [['files', 'split-level', 4]], [['document', 'base-url', 'http://q/<w4>']], [['files', 'filename', 'all']], [['files', 'filename', 'index [$id, s-$num(3)]'], ['files', 'split-level', 1]]]

    def opts(o):
        return ListV([ListV([T(x) if isinstance(x, str) and '<w' in x else x for x in y]) for y in o])
    docs = []
    for i, (o, n, t) in enumerate(OBJ):
        docs.append((H % 'article') + 'p ' + o.replace('%s', 'k%d' % i) + ' q' + E)
    for i in range(60 if thorough else 16):
        n = r.randint(2, 6)
        docs.append((H % r.choice(['article', 'book'])) + ' '.join(r.choice(OBJ)[0].replace('%s', 'k%d' % j) + ' z ' for j in range(n)) + E)
    for i, d in enumerate(docs):
        for j, o in enumerate(OPT):
            if (i + j) % 3 and i >= len(OBJ) and not thorough:
                continue
            C.expect('trip: %d-%d' % (i, j), RULE['trip'], ANCH, 'saved', [C.tex, T(d), opts(o)], trip(labels_of(d)), max_steps=40000000)

    # --- the file of a document that reads the labels of another one has its own labels
    def own(labels):
        base = trip(labels)

        def p(obs, facts):
            return base([[e for e in obs[0] if str(e[0]) in labels], obs[1]], facts)
        return p
    for i, d in enumerate(docs):
        d2 = docs[(i * 5 + 3) % len(docs)].replace('{k', '{m')
        for j, o in enumerate(OPT):
            if thorough or (i + j) % 6 == 0:
                C.expect('trip: chained-%d-%d' % (i, j), RULE['trip'], ANCH, 'chained', [C.tex, T(d), T(d2), opts(o)], own(labels_of(d2)), max_steps=60000000)

    # --- references
    def refd(labels):
        def p(obs, facts):
            da = {k: v for k, v in obs[0]}
            if len(obs[1]) != len(labels):
                return '%d references for %d' % (len(obs[1]), len(labels))
            for l, (x, info) in zip(labels, obs[1]):
                if [str(v) for v in info[:3]] != [str(v) for v in da[l][:3]]:
                    return 'the reference to %r resolves to %s, the label is %s' % (l, short(info[:3]), short(da[l][:3]))
            return None
        return p
    for i, d in enumerate(docs[:len(OBJ) + 8]):
        ls = labels_of(d)
        C.expect('ref: %d' % i, RULE['ref'], ANCH + ['plasTeX/Context.py:Context.ref'], 'resolve', [C.tex, T(d), ListV([]), T((H % 'article') + ' '.join('\\ref{%s}' % l for l in ls) + E)], refd(ls), max_steps=40000000)
    # numbers, titles and locations as text
    C.expect('ref: text', RULE['ref'], ANCH, 'saved', [C.tex, T((H % 'article') + '\\section{One <w1>}\\label{a}\\section{Two}\\label{b}\\subsection{Three}\\label{c}' + E), ListV([])],
             lambda o, f: None if [[k, [text(x) for x in v[:4]]] for k, v in o[1]] in ([['a', ['1', text(T('One <w1>')), 'a.html', 'a']], ['b', ['2', 'Two', 'b.html', 'b']], ['c', ['2.1', 'Three', 'c.html', 'c']]],) else 'restored %s' % short(o[1]), max_steps=40000000)

    # --- histories of saves and faults
    D1 = (H % 'article') + '\\section{One}\\label{a} x \\section{Two}\\label{b}' + E
    D2 = (H % 'article') + '\\section{Neu}\\label{a} x \\section{Zwei}\\label{c}' + E
    D3 = (H % 'article') + 'no labels' + E
    D4 = (H % 'article') + '\\section{S \\emph{e}}\\label{d}' + E
    USE = (H % 'article') + 'See \\ref{a} and \\ref{k}.' + E
    EXP = {D1: {'a': ['1', 'One', 'a.html'], 'b': ['2', 'Two', 'b.html']}, D2: {'a': ['1', 'Neu', 'a.html'], 'c': ['2', 'Zwei', 'c.html']}, D3: {},
           D4: None}

    def exp(d, rname):
        return {'d': ['1', 'S %se%s' % (rname, rname), 'd.html']} if d is D4 else EXP[d]

    def run_model(steps):
        """state of the file and what each reading run must see; None: unknown"""
        state = {}          # renderer -> labels | None (unknown)
        out = []
        for s in steps:
            if s[0] == 'save':
                if state is None:
                    state = {k: None for k in 'AB'}
                state[s[1]] = exp(s[2], s[1])
                out.append(None)
            elif s[0] == 'read':
                out.append(None if state is None else state.get(s[1], {}))
            elif s[1] in ('missing', 'empty', 'text', 'raise'):
                state = {}
            else:
                state = None
        return out, state

    def hist(steps):
        want, final = run_model(steps)

        def p(obs, facts):
            res = [o for o in obs if o[0] != 'file']
            steps2 = [s for s in steps if s[0] != 'fault']
            if len(res) != len(steps2):
                return 'a run is missing'
            wi = iter(want)
            for s, o, w in zip(steps2, res, want):
                if s[0] == 'read':
                    if o[2] is not True:
                        return 'warnings about unknown macros stay switched off after restoring'
                    if w is not None:
                        got = {k: [str(x) for x in v[:3]] for k, v in o[1]}
                        if got != w:
                            return 'a run with renderer %s restores %s, the file holds %s' % (s[1], got, w)
            last = obs[-1]
            if steps[-1][0] == 'save':
                if not last[1]:
                    return 'the file is no complete pickle after the last save'
                got = {k: v for k, v in last[2] if isinstance(k, str)} if isinstance(last[2], list) else None
                for k, v in final.items():
                    if v is not None and sorted(got.get(k, [])) != sorted(v):
                        return 'after the last save the file holds the labels %s for renderer %s, not %s' % (got.get(k), k, sorted(v))
            return None
        return p

    def mk(x):
        return ListV([mk(y) for y in x]) if isinstance(x, (list, tuple)) else x
    S = lambda rn, d, restore=False: ['save', rn, d, restore]
    R = lambda rn: ['read', rn, USE]
    FA = [['fault', 'missing'], ['fault', 'empty'], ['fault', 'text']] + [['fault', 'raise', i] for i in range(NEXC)]
    JU = [['fault', 'junk', i] for i in range(NJUNK)]
    HI = [[S('A', D1), R('A')], [S('A', D1), S('A', D2), R('A')], [S('A', D1), S('B', D4), R('A'), R('B')], [S('A', D1), R('B')], [S('A', D1), S('A', D3), R('A')], [S('B', D4), S('A', D4), R('B'), R('A')], [S('A', D1), S('B', D2), S('A', D2), R('A'), R('B')],
          [R('A'), S('A', D1)], [S('A', D1), S('A', D1, True), R('A')]]
    for i, h in enumerate(HI):
        C.expect('sep: %d' % i, RULE['sep'], ANCH[:2], 'history', [C.tex, mk(h)], hist(h), max_steps=60000000)
    for i, f in enumerate(FA + JU):
        fam = 'fault'
        n = '-'.join(str(x) for x in f[1:])
        for j, h in enumerate([[f, R('A')], [f, R('B')], [S('A', D1), f, R('A')], [f, S('A', D1), R('A')], [S('A', D1), S('B', D2), f, S('B', D4), R('B')], [f, S('B', D1), R('A'), R('B'), S('A', D2)]]):
            C.expect('%s: %s-%d' % ('next' if h[-1][0] == 'save' or f is not h[-2] else 'fault', n, j), RULE['next' if j >= 3 else 'fault'], ANCH[:2], 'history', [C.tex, mk(h)], hist(h), max_steps=60000000)
    for i in range(200 if thorough else 40):
        h = []
        for _ in range(r.randint(3, 7)):
            k = r.random()
            h.append(S(r.choice('AB'), r.choice([D1, D2, D3, D4])) if k < .45 else r.choice(FA) if k < .6 else r.choice(JU) if k < .7 else R(r.choice('AB')))
        if r.random() < .5:
            h.append(S(r.choice('AB'), r.choice([D1, D2])))
        C.expect('sep: random-%d' % i, RULE['sep'], ANCH[:2], 'history', [C.tex, mk(h)], hist(h), max_steps=60000000)
    # --- \externaldocument
    XR = '\\documentclass{article}\\usepackage{xr}\\externaldocument%s\\begin{document}See \\ref{%sk}.\\end{document}'
    AX = ['plasTeX/Packages/xr.py:load_paux', 'plasTeX/Packages/xr.py:externaldocument.invoke']

    def nofail(o, f):
        return None if str(o[0]).strip().startswith('See') else 'the document is %s' % short(o[0])
    for j, (a, pre, url) in enumerate((('{ext}', '', None), ('[P-]{ext}', 'P-', None), ('{ext}[http://h.org/p]', '', 'http://h.org/p/'), ('[P-]{ext}[http://h.org/p/]', 'P-', 'http://h.org/p/'))):
        for f in FA + JU:
            files = [] if f[1] == 'missing' else [['ext.paux', f[1], f[2] if len(f) > 2 else 0]]
            C.expect('xr: %s-%d' % ('-'.join(str(x) for x in f[1:]), j), RULE['xr'], AX, 'external', [C.tex, mk(files), XR % (a, pre)], nofail)
        C.expect('xr: good-%d' % j, RULE['xr'], AX, 'external', [C.tex, mk([['ext.paux', 'good', 0]]), XR % (a, pre)],
                 lambda o, f, u=url: None if [[str(y) for y in x] if x else x for x in o[1]] == [['9', 'nine', (u or '') + 'g.html']] else 'the reference resolves to %s' % short(o[1]))
    # --- when
    W = 'plasTeX/Compile.py:parse'
    for i, (files, job, dirs, want) in enumerate((
            (['/work/a.paux', '/work/b.paux', '/work/doc.paux'], 'doc', [], ['/work/a.paux', '/work/b.paux']), (['/work/a.paux', '/x/b.paux', '/y/c.paux', '/x/doc.paux'], 'doc', ['/x'], ['/work/a.paux', '/x/b.paux']),
            (['/x/b.paux', '/y/c.paux', '/x/doc.paux'], 'doc', ['/x', '/y'], ['/x/b.paux', '/y/c.paux']), ([], 'doc', ['/z'], []), (['/work/doc.paux'], 'other', [], ['/work/doc.paux']), (['/work/mydoc.paux', '/work/doc.tex'], 'doc', [], ['/work/mydoc.paux']))):
        C.expect('when: %d' % i, RULE['when'], [W], 'compiled', [C.tex, ListV(files), ListV([]), job, ListV(dirs)], lambda o, f, w=want: None if [str(x) for x in o] == w else 'restored %s, not %s' % (short(o), w))
    return C.finish(tier)
