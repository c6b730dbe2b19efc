"""C07: abstract interpretation of parsing and digestion over generated LaTeX documents with unknown words: text order, tree well-formedness, nesting.

Every word of a document is an unknown word; the parsed tree is walked by an independent observer (arguments before
content) that checks parent links, single reachability, section nesting and paragraph rules and collects the text."""
import random

from .core import Check, T, short
from . import latexdoc
from .latexdoc import Gen, squeeze

DRIVER = r'''
from plasTeX.DOM import Node

INLINE = ('textbf', 'emph', 'bf', 'em', 'bgroup', 'math', 'mbox', 'fbox', 'makebox', 'raisebox', 'parbox', 'textsc', 'textit', 'verb', 'label', 'ref',
          'active::^', 'active::_', '\\', 'underline', 'hspace', 'sqrt', 'active::~', 'par', 'newline', 'centering', 'it', 'hline',
          'ensuremath', 'mathrm', 'textsuperscript')
SKIP = ('label', 'colspec', 'pos', 'loc', 'width', 'height', '*modifier*', 'num', 'options', 'name', 'key', 'widelabel', 'raise', 'depth', 'innerpos')


class Walk(object):
    def __init__(self, doc):
        self.doc = doc
        self.out = []
        self.errors = []
        self.seen = []
        self.sections = []

    def err(self, msg):
        self.errors.append(msg)

    def path(self, n):
        names = []
        while n is not None and len(names) < 40:
            names.append(str(n.nodeName))
            n = n.parentNode
        return ' < '.join(names)

    def once(self, n):
        if getattr(n, 'verif_seen', False):
            self.err('%s is reachable twice' % self.path(n))
            return False
        n.verif_seen = True
        return True

    def text(self, t, holders):
        self.out.append(str(t))

    def children(self, lst, holders, owner):
        for c in lst:
            ok = False
            for h in holders:
                if c.parentNode is h:
                    ok = True
            if not ok:
                self.err('%r is listed by %s but its parent is %s' % (c.nodeName, self.path(owner), self.path(c.parentNode)))
            if c.nodeType == Node.TEXT_NODE:
                self.out.append(str(c))
            elif c.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
                self.err('fragment listed as a child of %s' % self.path(owner))
            else:
                self.node(c)

    def value(self, v, n):
        if v is None:
            return
        if isinstance(v, Node) and v.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
            self.out.append('|')
            if v.parentNode is not n:
                self.err('fragment of an argument of %s has the parent %s' % (self.path(n), self.path(v.parentNode)))
            self.children(v.childNodes, [v, n], n)
            self.out.append('|')
        elif isinstance(v, Node) and v.nodeType == Node.TEXT_NODE:
            self.out.append('|' + str(v) + '|')
        elif isinstance(v, Node):
            self.out.append('|')
            self.node(v)
            self.out.append('|')

    def node(self, n):
        if not self.once(n):
            return
        name = n.nodeName
        if name == '\\':
            self.out.append('|')
            return
        if isinstance(getattr(n, 'str', None), str):
            self.out.append(n.str)
            return
        if name == 'active::~':
            self.out.append('\u00a0')
            return
        block = name not in INLINE
        section = n.level < Node.ENDSECTIONS_LEVEL and n.level > Node.DOCUMENT_LEVEL
        if section:
            p = n.parentNode
            while p is not None and not getattr(p, 'verif_section', None):
                p = p.parentNode
            n.verif_section = len(self.sections) + 1
            self.sections.append((name, p.verif_section - 1 if p is not None else -1))
        if block or name == 'par':
            self.out.append('|')
        content = n.childNodes
        if n.attributes:
            for k, v in list(n.attributes.items()):
                if v is content or k in SKIP:
                    continue
                self.value(v, n)
        holders = [n]
        if isinstance(content, Node):
            holders.append(content)
            if content.parentNode is not n:
                self.err('content fragment of %s has the parent %s' % (self.path(n), self.path(content.parentNode)))
        if n.level == Node.PAR_LEVEL:
            for c in content:
                if c.nodeType == Node.ELEMENT_NODE and c.level == Node.PAR_LEVEL:
                    self.err('paragraph within a paragraph: %s' % self.path(c))
                if c.nodeType == Node.ELEMENT_NODE and c.level < Node.ENDSECTIONS_LEVEL:
                    self.err('section within a paragraph: %s' % self.path(c))
        if section:
            for c in content:
                if c.level == Node.PAR_LEVEL:
                    continue
                if c.level < Node.ENDSECTIONS_LEVEL and c.level > n.level:
                    continue
                self.err('%s (level %s) directly within %s' % (c.nodeName, c.level, self.path(n)))
        self.children(content, holders, n)
        if block or name == 'par':
            self.out.append('|')


def walkdoc(src):
    tex = TeX()
    tex.input(src)
    doc = tex.parse()
    w = Walk(doc)
    for n in doc.childNodes:
        if n.parentNode is not doc:
            w.err('%s of the document has another parent' % n.nodeName)
        if n.nodeType == Node.ELEMENT_NODE and n.level == Node.DOCUMENT_LEVEL:
            w.node(n)
    return w.errors[:3], w.sections, ''.join(w.out)
'''
ANCH = ['plasTeX/__init__.py:Environment.digest', 'plasTeX/__init__.py:Macro.paragraphs', 'plasTeX/__init__.py:Macro.digestUntil', 'plasTeX/TeX.py:TeX.parse',
        'plasTeX/Base/LaTeX/Sectioning.py:SectionUtils.digest', 'plasTeX/Base/LaTeX/Lists.py:List.item.digest', 'plasTeX/Base/LaTeX/Arrays.py:Array.digest',
        'plasTeX/DOM/__init__.py:Node.normalize']
RULE = {'inline': 'each inline construct contributes its words once, in order, with the text substitutions exactly where they apply',
        'inlinepair': 'two adjacent inline constructs keep their words and their order',
        'nest': 'each block inside each container: text once in order, parents are the actual containers',
        'blockpair': 'two adjacent blocks, with and without a paragraph break: text once in order, well-formed paragraphs',
        'outline': 'sectioning units are nested by level and contain only paragraphs and deeper units',
        'mathcells': 'no typographic substitution in the cells of a mathematical alignment',
        'random': 'random documents: text once in order, well-formed tree, sections nested by level'}


def pred(text, outline):
    want = squeeze(text)

    def p(o, facts):
        errors, sections, got = o
        if errors:
            return '; '.join(str(e) for e in errors)
        if type(got) is not str:
            return 'UNDECIDED'
        g = squeeze(got)
        if g != want:
            i = next((i for i in range(min(len(g), len(want))) if g[i] != want[i]), min(len(g), len(want)))
            return 'text differs at ...%s\n got  %s\n want %s' % (want[max(0, i - 30):i], short(g[max(0, i - 30):i + 120]), short(want[max(0, i - 30):i + 120]))
        if [tuple(x) for x in sections] != outline:
            return 'sections %s\n want %s' % (sections, outline)
        return None
    return p


PRE = '\\documentclass{%s}\n\\newtheorem{thm}{Theorem}\n\\begin{document}\n%s\n\\end{document}\n'


def main(tier):
    C = Check('C07', 'abstract interpretation of the parser and of every digest method over generated LaTeX documents whose words are unknown; an independent '
              'tree walk compares text order, substitutions, parent links, reachability, section nesting and paragraph structure with the generator\'s record')
    C.boot(DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.book'])
    C.freeze()
    thorough = tier == 'thorough'

    def doc(id, fam, g, parts):
        src, txt, out = g.document(parts)
        src = PRE % (g.cls, src)
        C.expect('%s: %s' % (fam, id.replace(' ', '')), RULE[fam], ANCH, 'walkdoc', [T(src)], pred(txt, out), max_steps=60000000, time_limit=100)

    n = 0

    def gen(cls='article'):
        nonlocal n
        n += 1
        return Gen(random.Random(n), cls)

    for k in Gen.INLINE:
        g = gen()
        g.labels.append('l0')
        a, b = g.words(), g.words()
        x = g.inline(k)
        doc(k, 'inline', g, [('b', (a[0] + ' ' + x[0] + ' ' + b[0], a[1] + ' ' + x[1] + ' ' + b[1]))])
        g = gen()
        x = g.inline(k)
        doc(k + ' alone', 'inline', g, [('s', 'section'), ('b', x)])
    pairs = [(a, b) for a in Gen.INLINE for b in Gen.INLINE]
    for i, (a, b) in enumerate(pairs):
        if thorough or i % 8 == 3:
            g = gen()
            s, t = g.run([a, b])
            doc(a + ' ' + b, 'inlinepair', g, [('b', (s, t))])
    conts = ['itemize', 'enumerate', 'description', 'tabular', 'quote', 'center', 'quotation', 'minipage', 'trivial', 'verse']
    for c in conts:
        for b in Gen.BLOCKS:
            if b in ('figure', 'table', 'abstract', 'biblio', 'theorem') and c in ('tabular', 'itemize', 'description'):
                continue
            if c == 'tabular' and b in ('paras', 'parcmd', 'bfdecl', 'verbatim', 'verbatimstar', 'centering'):
                continue
            g = gen()
            inner = g.block(b, 2)
            outer = g.block(c, 1, inner)
            z = g.words()
            doc(c + ' ' + b, 'nest', g, [('b', outer), ('b', z)])
    for i, a in enumerate(Gen.BLOCKS):
        for j, b in enumerate(Gen.BLOCKS):
            if thorough or (i * 7 + j) % 5 == 0:
                g = gen()
                doc(a + ' ' + b, 'blockpair', g, [('b', a), ('b', b)] + ([('s', 'section'), ('b', a)] if (i + j) % 3 == 0 else []))
    for cls in ('article', 'book'):
        secs = Gen.SECTIONS[cls]
        for a in secs:
            for b in secs:
                g = gen(cls)
                doc('%s %s %s' % (cls, a, b), 'outline', g, [('s', a), ('b', 'para'), ('s', b), ('b', 'para'), ('s', a)])
                for c in secs if thorough else secs[:3]:
                    g = gen(cls)
                    doc('%s %s %s %s' % (cls, a, b, c), 'outline', g, [('s', a), ('s', b), ('b', g.words()), ('s', c), ('b', g.words()), ('s', a), ('s', b)])
    for env, a, b in (('array', '\\[\\begin{array}{c}', '\\end{array}\\]'), ('eqnarray', '\\begin{eqnarray}', '\\end{eqnarray}')):
        for k, cell in (('prime', "<w1>'"), ('dash', '<w1>--'), ('frac', "\\frac{<w1>'}{<w2>}"), ('group', "{<w1>'}"), ('script', "<w1>^{<w2>'}")):
            txt = {'frac': "<w1>'|<w2>", 'group': "<w1>'", 'script': "<w1><w2>'"}.get(k, cell)
            C.expect('mathcells: %s-%s' % (env, k), RULE['mathcells'], ANCH, 'walkdoc', [T(PRE % ('article', a + cell + b))], pred(txt, []), max_steps=60000000)
    for i in range(600 if thorough else 110):
        cls = 'article' if i % 3 else 'book'
        g = gen(cls)
        r = g.r
        parts = []
        for _ in range(r.randint(2, 7)):
            parts.append(('s', r.choice(Gen.SECTIONS[cls])) if r.random() < .35 else ('b', r.choice(Gen.BLOCKS)))
        doc('%d' % i, 'random', g, parts)
    return C.finish(tier)
