"""C18: abstract interpretation of the index (entry syntax, merging, groups, columns) against a model of makeindex.

The parsing of \\index entries, their ordering and merging into the index tree, the letter groups and the column split are
interpreted from source for multisets of entries scattered over documents; the tree with its page references, the groups and
the columns are compared with those the entries prescribe under the Unicode collation order."""
import random

from .core import Check, T, short, ListV
from am.foreign import sortkey_

DRIVER = r'''
def _names(f):
    out = []
    for n in f.childNodes:
        if n.nodeType == n.ELEMENT_NODE:
            out.append(n.nodeName)
    return out


def _see(p):
    return 'see' if p.see else 'seealso' if p.seealso else 'normal' if p.normal else '?'


def _tree(item):
    return [str(item.sortkey), item.key.textContent, _names(item.key), [[p.occurrence, _see(p)] for p in item.pages], [_tree(x) for x in item]]


def build(tex, src, name, cols):
    tex.input(src)
    doc = tex.parse()
    n = 0
    for x in doc.getElementsByTagName('index'):
        x.occurrence = n
        n += 1
    node = doc.getElementsByTagName(name)[0]
    doc.config['document']['index-columns'] = cols
    tree = [_tree(x) for x in node]
    items = [x for x in node]
    out = []
    for g in node.groups:
        columns = []
        for c in g:
            col = []
            for i in c:
                k = 0
                while items[k] is not i:
                    k += 1
                col.append(k)
            columns.append(col)
        out.append([g.title, columns])
    return [n, tree, out]


def formats(tex, src, name):
    tex.input(src)
    doc = tex.parse()
    out = []
    for x in doc.getElementsByTagName('index'):
        out.append([[(c.nodeName, c.textContent) for c in x.childNodes]])
    return out


def split(tex, lens, cols):
    """column split of entries with the given numbers of lines"""
    from plasTeX.Base.LaTeX.Index import IndexUtils

    class It(object):
        pass
    items = []
    for n in lens:
        i = It()
        i.totallen = n
        items.append(i)
    res = IndexUtils().splitColumns(items, cols)
    out = []
    for c in res:
        col = []
        for i in c:
            k = 0
            while items[k] is not i:
                k += 1
            col.append(k)
        out.append(col)
    return out
'''

P = 'plasTeX/Base/LaTeX/Index.py:'
ANCH = {'parse': [P + 'index.invoke'], 'merge': [P + 'IndexUtils.digest', P + 'IndexEntry.__lt__'], 'group': [P + 'IndexUtils.groups'], 'split': [P + 'IndexUtils.splitColumns']}
RULE = {
    'parse': 'an entry names the key path main!sub!subsub; sort@display keys are shown by their display part and ordered by their sort part; a quoted special character is ordinary',
    'once': 'every entry appears exactly once, under exactly its key path; equal paths are merged with one page reference per occurrence in document order',
    'order': 'the entries of every level are in the order of the collation keys of their sort keys',
    'group': 'top-level entries are grouped by initial letter, non-letters under separate headings',
    'split': 'the columns of a group are a partition of its entries that preserves their order',
    'place': 'entries are found wherever they stand in the document',
}


class Key(object):
    def __init__(self, text, src=None, names=(), sort=None, sortsrc=None):
        self.text = text                    # displayed text
        self.src = text if src is None else src
        self.names = list(names)            # markup of the display part
        self.sort = text if sort is None else sort
        self.sortsrc = sortsrc
        if sort is not None and sortsrc is None:
            self.sortsrc = sort

    @property
    def code(self):
        return self.src if self.sortsrc is None else self.sortsrc + '@' + self.src

    @property
    def ident(self):
        return (self.sort, self.text, tuple(self.names), self.src.replace('"', ''))


LATIN = ['apple', 'Apple', 'APPLE', 'ape', 'applet', 'zoo', 'Zulu', 'zebra', 'mid', 'Mid', 'a', 'A', 'b', 'B', 'ab', 'aB', 'Ab', 'n', 'ne', 'of', 'on', 'co-op', 'coop', 'black bird', 'blackbird', 'Black Bird', 'x1', 'x10', 'x2']
ACCENT = ['\u00e9tude', '\u00c9tude', 'etude', 'etudes', '\u00e8re', '\u00f6l', 'ol', 'om', '\u00d6l', '\u00f1u', 'nu', '\u00e7a', 'ca', '\u00e5ngstrom', 'na\u00efve', 'naive', '\u00e6ther', 'ad', 'af', 'az', '\u0153uvre', 'oz', 'st', 'stra\u00dfe', 'strasse', '\u0142uk', 'lu', '\u0161um']
DIGIT = ['1', '10', '2', '42nd', '007', '3d', '0']
SYMB = ['+', '*', '(x)', '<', '=', '-x', '/', '.x', ',', '[', '+1', '?', ':', ';']


def keys(r):
    k = r.random()
    if k < .42:
        return Key(r.choice(LATIN))
    if k < .55:
        return Key(r.choice(ACCENT))
    if k < .63:
        return Key(r.choice(DIGIT))
    if k < .7:
        return Key(r.choice(SYMB))
    if k < .75:
        c = r.choice(['!', '@', '|', '"'])
        w = r.choice(['', 'q', 'Z'])
        return Key(c + w, '"' + c + w) if r.random() < .6 else Key('k' + c + w, 'k"' + c + w)
    s = r.choice(LATIN + ACCENT + DIGIT + SYMB)
    if k < .85:
        return Key(r.choice(['disp', 'Show', 'zz', 'aa', s + 's']), sort=s)
    if k < .95:
        n = r.choice(['textbf', 'emph', 'textit'])
        t = r.choice(['disp', 'bold', s + 's'])
        return Key(t, '\\%s{%s}' % (n, t), [n], s)
    if k < .98:
        return Key('disp!', 'disp"!', sort='a@', sortsrc='a"@')
    n = r.choice(['textbf', 'emph'])
    t = r.choice(LATIN)
    return Key(t, '\\%s{%s}' % (n, t), [n])


FORMATS = [('', 'normal')] * 8 + [('|textbf', 'normal'), ('|emph', 'normal'), ('|see{other}', 'see'), ('|seealso{other, another}', 'seealso'), ('|(', 'normal'), ('|)', 'normal'), ('|(textbf', 'normal'), ('|see{x!y}', 'see'),
                                           ('|see{x@y}', 'see'), ('|seealso{p|q}', 'seealso'), ('|see{"x}', 'see')]


class Entry(object):
    def __init__(self, path, fmt=('', 'normal')):
        self.path, self.fmt = path, fmt

    @property
    def code(self):
        return '\\index{%s%s}' % ('!'.join(k.code for k in self.path), self.fmt[0])


def ckey(s):
    return sortkey_('Collator_10_0_0', s)


def model(entries):
    """{ident: [key, pages, children]} """
    root = {}
    for n, e in enumerate(entries):
        cur = root
        for i, k in enumerate(e.path):
            node = cur.setdefault(k.ident, [k, [], {}])
            if i == len(e.path) - 1:
                node[1].append([n, e.fmt[1]])
            cur = node[2]
    return root


def initial(s):
    from unidecode import unidecode
    if not s:
        return None
    d = unidecode(s[0])[:1].upper()
    return d if len(d) == 1 and d.isalpha() and s[0].isalpha() else None


def check_tree(got, want, path=''):
    if len(got) != len(want):
        sh = ', '.join(str(g[1]) for g in got)
        return 'under %r there are the lines %s; there are %d different keys (%s)' % (path, sh, len(want), ', '.join(sorted(w[0].text for w in want.values())))
    rest = dict(want)
    last = None
    for sort, text, names, pages, kids in got:
        hit = [i for i, w in rest.items() if w[0].sort == sort and w[0].text == text and w[0].names == names]
        if not hit:
            return 'line %r (sorted as %r, markup %s) under %r stands for no key of the document' % (text, sort, names, path)
        ok, errs = None, []
        for i in hit:
            k, wp, wk = rest[i]
            if pages != wp:
                errs.append('key %r has the page references %s, its occurrences are %s' % (path + text, pages, wp))
                continue
            e = check_tree(kids, wk, path + text + '!')
            if e:
                errs.append(e)
                continue
            ok = i
            break
        if ok is None:
            return errs[0]
        del rest[ok]
        c = ckey(sort)
        if last is not None and c < last[0]:
            return '%r is listed after %r under %r' % (text, last[1], path)
        last = (c, text)
    return None


def concrete(v):
    from am.values import Abs
    if isinstance(v, (list, tuple)):
        return all(concrete(x) for x in v)
    return not isinstance(v, Abs)


def pred(entries, cols, only=None):
    def p(obs, facts):
        n, tree, groups = obs
        if n != len(entries):
            return 'the document has %d index nodes for %d entries' % (n, len(entries))
        want = model(entries)
        e = check_tree(tree, want)
        if e:
            return e
        return check_groups(tree, groups, cols)
    return p


def check_groups(tree, groups, cols):
    seq = [i for t, cs in groups for c in cs for i in c]
    if seq != list(range(len(tree))):
        return 'the groups and columns hold the entries %s, the index has %d entries in order' % (seq, len(tree))
    seen = set()
    for title, cs in groups:
        if len(cs) != cols:
            return 'group %r has %d columns, not %d' % (title, len(cs), cols)
        if not any(cs):
            return 'group %r is empty' % title
        for i in (i for c in cs for i in c):
            s = tree[i][0]
            l = initial(s)
            if l is not None and title not in (l, s[0].upper()):
                return '%r is grouped under %r' % (s, title)
            if l is None and isinstance(title, str) and len(title) == 1 and title.isalpha():
                return '%r is grouped under the letter %r' % (s, title)
        if isinstance(title, str) and len(title) == 1:
            if title in seen:
                return 'two groups are headed %r' % title
            seen.add(title)
    return None


PRE = '\\documentclass{%s}\\usepackage{makeidx}\\makeindex\\begin{document}'
PLACES = ['text %s text', '\\section{s}%s', '\\emph{in %s out}', '\\begin{itemize}\\item %s a\\end{itemize}', '\\begin{tabular}{ll}a & %s b\\\\ c & d\\end{tabular}', 'p\\footnote{note %s}', '{\\bf x %s}',
          '\\begin{center}%s\\end{center}', '\n\n%s par', '\\mbox{%s}', '\\begin{quote}q%s\\end{quote}', '\\begin{description}\\item[l %s] d\\end{description}', '\\begin{figure}\\caption{c}%s\\end{figure}',
          '\\begin{tabular}{l}\\multicolumn{1}{c}{%s x}\\end{tabular}', '\\section{title %s}', '\\begin{figure}\\caption{cap %s}\\end{figure}', '\\textbf{\\emph{%s}}', '\\begin{verse}v %s\\\\ w\\end{verse}', '\\begin{equation}x%s\\end{equation}',
          '\\begin{minipage}{3cm}%s z\\end{minipage}', '\\parbox{3cm}{%s}', '\\raisebox{1pt}{%s}', '\\begin{tabbing}a %s \\= b\\end{tabbing}', '\\marginpar{%s}', '$a%s$']


def source(entries, r, places=True):
    out = []
    for e in entries:
        out.append(r.choice(PLACES[:12]) % e.code if places and r.random() < .4 else ' w ' + e.code)
    return PRE % r.choice(['article', 'book', 'article']) + '\n'.join(out)


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C18', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    C.boot(DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.makeidx', 'plasTeX.Base.LaTeX.Index'])
    C.freeze()
    r = random.Random(18)
    K, E = Key, Entry

    def case(oid, fam, anchors, entries, cols=2, src=None, end='\\printindex\\end{document}', node='printindex'):
        if src is None:
            src = PRE % 'article' + ' '.join(['w ' + e.code for e in entries])
        C.expect(oid, RULE[fam], anchors, 'build', [C.tex, T(src + end), node, cols], pred(entries, cols), max_steps=20000000)

    # --- entry syntax
    singles = [[K('a')], [K('a'), K('b')], [K('a'), K('b'), K('c')], [K('disp', sort='a')], [K('x', '\\textbf{x}', ['textbf'], 'a')], [K('a'), K('disp', sort='b')], [K('disp', sort='a'), K('b')],
               [K('d1', sort='a'), K('d2', sort='b'), K('d3', sort='c')], [K('a'), K('d2', sort='b'), K('c')], [K('d1', sort='a'), K('b'), K('d3', sort='c')], [K('!', '"!')], [K('a!b', 'a"!b')], [K('@', '"@')], [K('|', '"|')], [K('"', '""')],
               [K('a|b', 'a"|b'), K('c')], [K('d@e', 'd"@e', sort='a!', sortsrc='a"!')], [K('x', '\\emph{x}', ['emph'])], [K('\u00fcb', '\\"ub', [])], [K('a b')], [K('n-k', sort='n k')]]
    for i, p in enumerate(singles):
        if '\\"' in p[0].src:
            p = [K('\u00fcb', '\\"ub', ['"'], 'ub')]
        for j, f in enumerate(FORMATS[7:]):
            case('parse: %d-%d' % (i, j), 'parse', ANCH['parse'] + ANCH['merge'], [E(p, f)])
        case('parse: %d-plus' % i, 'parse', ANCH['parse'] + ANCH['merge'], [E([K('m')]), E(p), E([K('a')]), E(p), E(p + [K('sub')])] if len(p) < 3 else [E(p), E(p[:1]), E(p)])
    # --- merging: all orders of small multisets
    import itertools
    small = [[[K('a')], [K('a'), K('b')], [K('a')], [K('b')]], [[K('a')], [K('A')], [K('a')], [K('A')]], [[K('a'), K('x')], [K('a'), K('y')], [K('a')], [K('a'), K('x')]],
             [[K('p', sort='a')], [K('q', sort='a')], [K('p', sort='a')]], [[K('x', '\\textbf{x}', ['textbf'], 'a')], [K('x', '\\emph{x}', ['emph'], 'a')], [K('x', '\\textbf{x}', ['textbf'], 'a')]],
             [[K('a'), K('b'), K('c')], [K('a')], [K('a'), K('b')], [K('a'), K('b'), K('c')]], [[K('a'), K('z')], [K('b'), K('y')], [K('a'), K('z')]], [[K('\u00e9')], [K('e')], [K('f')], [K('\u00e9')]],
             [[K('p', sort='a'), K('s')], [K('q', sort='a'), K('s')], [K('p', sort='a'), K('s')], [K('p', sort='a')]], [[K('p', sort='b')], [K('p', sort='a')], [K('p', sort='b')]],
             [[K('x', '\\textbf{x}', ['textbf'], 's'), K('b')], [K('x', '\\emph{x}', ['emph'], 's'), K('z')], [K('x', '\\textbf{x}', ['textbf'], 's'), K('a')], [K('x', '\\emph{x}', ['emph'], 's')]],
             [[K('ab'), K('c')], [K('a'), K('bc')], [K('ab')]], [[K('x')], [K('x', '\\emph{x}', ['emph'])], [K('x')], [K('x', '\\emph{x}', ['emph'])]]]
    for i, ps in enumerate(small):
        for j, perm in enumerate(sorted(set(itertools.permutations(range(len(ps)))))):
            if j % 2 and not thorough and len(ps) > 3:
                continue
            case('once: %d-%d' % (i, j), 'once', ANCH['merge'], [E(ps[k]) for k in perm], 1 + j % 4)
    for i, f in enumerate([FORMATS[8], FORMATS[10], FORMATS[12]]):
        case('once: fmt-%d' % i, 'once', ANCH['merge'] + ANCH['parse'], [E([K('a')]), E([K('a')], f), E([K('a')]), E([K('b')], f), E([K('a')], f)])
    # --- order
    for i, pool in enumerate((LATIN, ACCENT, DIGIT, SYMB, LATIN + ACCENT + DIGIT + SYMB)):
        for j in range(6 if not thorough else 30):
            ks = [r.choice(pool) for _ in range(r.randint(4, 14))]
            case('order: %d-%d' % (i, j), 'order', ANCH['merge'] + ANCH['group'], [E([K(k)]) for k in ks], 1 + j % 4)
            case('order: sub-%d-%d' % (i, j), 'order', ANCH['merge'], [E([K(r.choice(['m', 'n'])), K(k)]) for k in ks], 1 + j % 4)
            case('order: sort-%d-%d' % (i, j), 'order', ANCH['merge'] + ANCH['parse'] + ANCH['group'], [E([K(r.choice(['one', 'two', 'zz', 'aa']), sort=k)]) for k in ks], 1 + j % 4)
    # --- groups
    for i, ks in enumerate((['\u00e6ther', 'ad', 'af', 'az'], ['\u0153uvre', 'od', 'of', 'oz'], ['\u00df', 'sa', 'st', 'sz'], ['+', '1', 'a'], ['1', 'a'], ['z', 'a', 'm'], ['A', 'a', 'b', 'B'], ['\u00e9', 'e', 'f', 'd'], ['-', '-a', 'a'],
                            ['\u2192', 'a'], ['\U0001F600', 'a', 'b'], ['\u00a7', 'z'], ['\u2603', '1'], ['\u00b0', 'o'], ['', 'a'])):
        case('group: %d' % i, 'group', ANCH['group'], [E([K(k) if k else K('d', sort='', sortsrc='')]) for k in ks])
    # --- columns
    nsplit = 0
    for cols in range(1, 6):
        shapes = [list(x) for n in range(0, 5) for x in itertools.product((1, 2, 5), repeat=n)] + [[r.choice([1, 1, 2, 3, 9]) for _ in range(r.randint(5, 14))] for _ in range(60 if thorough else 15)]
        for k, lens in enumerate(shapes):
            def sp(obs, facts, n=len(lens), cols=cols):
                if len(obs) != cols:
                    return '%d columns, not %d' % (len(obs), cols)
                flat = [i for c in obs for i in c]
                return None if flat == list(range(n)) else 'the columns hold %s of %d entries' % (flat, n)
            C.expect('split: %d-%d' % (cols, k), RULE['split'], ANCH['split'], 'split', [C.tex, ListV(lens), cols], sp)
    # --- places
    for i, p in enumerate(PLACES):
        es = [E([K('b')]), E([K('a')]), E([K('a'), K('c')]), E([K('b')])]
        case('place: %d' % i, 'place', ANCH['parse'] + ANCH['merge'], es, src=PRE % 'article' + '\n\n'.join([es[0].code, p % es[1].code, p % (es[2].code + ' y'), 'z ' + es[3].code]))
    es = [E([K('b')]), E([K('a')]), E([K('b')], FORMATS[8])]
    case('place: theindex', 'place', ANCH['merge'], es, src=PRE % 'book' + ' '.join(e.code for e in es), end='\\begin{theindex}\\item old\\subitem sub\\end{theindex}\\end{document}', node='theindex')
    case('place: macro', 'place', ANCH['parse'], es, src='\\documentclass{article}\\newcommand{\\ix}[1]{#1\\index{#1}}\\begin{document}\\ix{b} \\ix{a} \\index{b|textbf}')
    case('place: env', 'place', ANCH['parse'], es, src='\\documentclass{article}\\newenvironment{ie}[1]{\\index{#1}}{\\index{a}}\\begin{document}\\begin{ie}{b}x\\end{ie}\\index{b|textbf}')
    # --- documents
    for i in range(400 if thorough else 120):
        n = r.randint(2, 12)
        pool = [[keys(r) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))] for _ in range(r.randint(1, 5))]
        es = []
        for _ in range(n):
            p = list(r.choice(pool))
            if r.random() < .3:
                p = p[:r.randint(1, len(p))]
            if r.random() < .2 and len(p) < 3:
                p = p + [keys(r)]
            es.append(E(p, r.choice(FORMATS)))
        case('once: doc-%d' % i, 'once', ANCH['merge'] + ANCH['parse'] + ANCH['group'] + ANCH['split'], es, 1 + i % 4, src=source(es, r))
    return C.finish(tier)
