"""C09: abstract interpretation of labelled documents against a model of \\label / \\ref resolution.

Generated documents (texts are unknown words) place labels on every kind of numbered object and references before, inside and
after them; the object each reference resolves to, its number and the identifier of each labelled object are compared with the
ones a model of LaTeX's current-label rule prescribes.  The templates that print references are checked by template dataflow."""
import os
import random
import re

from .core import Check, REPO, T, short, ListV

DRIVER = r'''
from plasTeX.DOM import Node


class Seen(object):
    def __init__(self):
        self.objs = []
        self.refs = []
        self.labels = []
        self.cites = []
        self.n = {}

    def node(self, n):
        if n.nodeType != Node.ELEMENT_NODE:
            return
        name = n.nodeName
        if name == 'thmenv':
            name = n.thmName
        elif name == 'ArrayRow' and n.parentNode.nodeName in ('eqnarray', 'align'):
            name = 'row'
        self.n[name] = self.n.get(name, 0) + 1
        if name in ('ref', 'pageref', 'eqref', 'hyperref', 'autoref', 'nameref'):
            self.refs.append(n)
        elif name == 'cite':
            self.cites.append(n)
        elif name == 'label':
            self.labels.append(n)
        self.objs.append((n, (name, self.n[name])))
        if n.attributes:
            for v in list(n.attributes.values()):
                if v is not n.childNodes and isinstance(v, Node) and v.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
                    for c in v.childNodes:
                        self.node(c)
        for c in n.childNodes:
            self.node(c)

    def where(self, t):
        for o, w in self.objs:
            if o is t:
                return w
        return None


def num(n):
    r = n.ref
    if r is None:
        return None
    if isinstance(r, Node):
        return r.textContent
    return r


def resolve(src, ids, first=None):
    tex = TeX()
    if first is not None:
        tex.ownerDocument.context.labels.update(other(first))
    tex.input(src)
    doc = tex.parse()
    s = Seen()
    for n in doc.childNodes:
        s.node(n)
    out = []
    found = []
    for r in s.refs:
        t = r.idref.get('label')
        l = r.attributes['label']
        if t is None:
            out.append((l, None, None))
        else:
            w = s.where(t)
            out.append((l, w, num(t)))
    lab = doc.context.labels
    for l in ids:
        t = lab.get(l)
        if t is None:
            found.append((l, None, None, None))
        else:
            found.append((l, s.where(t), num(t), t.id))
    cites = []
    for c in s.cites:
        cites.append([(s.where(b), num(b)) for b in c.bibitems] + [c.citation().textContent])
    return out, found, cites


class Elsewhere(object):
    ref = '99'
    title = 'elsewhere'
    id = 'elsewhere'

    def __init__(self, id):
        self.id = id


def other(labels):
    d = {}
    for l in labels:
        d[l] = Elsewhere(l)
    return d
'''
ANCH = ['plasTeX/Context.py:Context.label', 'plasTeX/Context.py:Context.ref', 'plasTeX/TeX.py:TeX.castLabel', 'plasTeX/TeX.py:TeX.castRef',
        'plasTeX/__init__.py:Macro.refstepcounter', 'plasTeX/__init__.py:Macro.idref', 'plasTeX/__init__.py:Macro.id']

NAMES = ['a', 'sec:one', 'eq:1', 'eq:10', 'A', 'fig_x', 'two words', 'l-1', '1', 'thm.main', 'b', 'tab:\u00e9', 'x+y', 'eq:', 'ab', 'ref', 'label', 'item', 'n/a', 'q!']
PRE = ('\\newtheorem{thma}{Thma}\\newtheorem{thmb}[thma]{Thmb}\\newtheorem{thmc}{Thmc}[section]'
       '\\newenvironment{myeq}{\\begin{equation}}{\\end{equation}}\\newcommand{\\see}[1]{(\\ref{#1})}\\newcommand{\\lab}[1]{\\label{#1}}')


class Doc(object):
    def __init__(self, ops, slots, cls='article', amsmath=False, names=NAMES, always=True):
        """slots: None (every label at every slot) or {slot number: [label index or dangling name]}"""
        self.ops, self.plan, self.names = ops, slots, names
        self.nlab, self.nslot, self.w = 0, 0, 0
        self.always = always
        self.labels = []      # (name, (kind, ordinal), number)
        self.refs = []        # names
        self.count = {}
        self.v = dict.fromkeys(('chapter', 'section', 'subsection', 'equation', 'figure', 'table', 'thma', 'thmc'), 0)
        self.cls = cls
        self.cur = None
        self.total = 0
        self.amsmath = amsmath
        self.src = ''
        self.cites = []

    def build(self):
        self.universe = [self.names[i % len(self.names)] + ('' if i < len(self.names) else str(i)) for i in range(sum(OPS[o][1] for o in self.ops))]
        s = self.slot()
        for o in self.ops:
            s += OPS[o][0](self)
            s += self.slot()
        self.src = '\\documentclass{%s}%s%s\\begin{document}%s\\end{document}' % (self.cls, '\\usepackage{amsmath}' if self.amsmath else '', PRE, s)
        return self

    # -- pieces
    def word(self):
        self.w += 1
        return '<w%d>' % (self.w % 7 + 1)

    def slot(self, kind='ref'):
        i = self.nslot
        self.nslot += 1
        if self.plan is None:
            ls = self.universe
        else:
            ls = [self.universe[x] if type(x) is int else x for x in self.plan.get(i, []) if type(x) is str or x < len(self.universe)]
        s = ''
        for j, l in enumerate(ls):
            k = (i + j) % 5
            c = {'ref': '\\ref{%s}', 'see': '\\see{%s}', 'page': '\\pageref{%s}'}['page' if k == 3 else 'see' if k == 4 else 'ref'] % l
            if k == 2:
                c = '\\emph{%s %s}' % (self.word(), c)
            s += ' %s %s' % (c, self.word())
            self.refs.append(l)
        return s

    def node(self, name, num):
        self.count[name] = self.count.get(name, 0) + 1
        self.cur = (name, self.count[name], num)
        return self.cur

    def label(self, cur=None):
        l = self.universe[self.nlab]
        self.nlab += 1
        self.labels.append((l,) + (cur or self.cur))
        return ('\\lab{%s}' if self.nlab % 4 == 3 else '\\label{%s}') % l

    def skip(self):
        self.nlab += 1
        return ''

    def secnum(self):
        return ('%d.' % self.v['chapter'] if self.cls == 'book' else '') + '%d' % self.v['section']

    def floatnum(self, c):
        return ('%d.' % self.v['chapter'] if self.cls == 'book' and self.v['chapter'] else '') + '%d' % self.v[c]

    def step(self, c):
        self.v[c] += 1
        deps = {'chapter': ('section', 'figure', 'table', 'equation'), 'section': ('subsection', 'thmc')}.get(c, ())
        for d in deps:
            if c == 'chapter' and self.cls != 'book':
                continue
            self.v[d] = 0
            if d == 'section':
                self.v['subsection'] = self.v['thmc'] = 0

    # -- constructs
    def sec(self, kind='section', place='after', star=False):
        if star:
            self.node(kind, None)
        else:
            self.step(kind)
            self.node(kind, {'chapter': '%d' % self.v['chapter'], 'section': self.secnum(), 'subsection': '%s.%d' % (self.secnum(), self.v['subsection'])}[kind])
        me = self.cur
        s = '\\%s%s{' % (kind, '*' if star else '')
        if place == 'title':
            s += self.word() + self.label() + ' ' + self.word() + self.slot() + '}'
        else:
            s += self.word() + self.slot() + '}' + (self.label() if place == 'after' else '\n\n' + self.label() if place == 'par' else '')
        s += ' ' + self.word() + self.slot() + '\n\n'
        self.cur = me
        return s

    def eq(self, place='start', env='equation'):
        save = self.cur
        self.step('equation')
        self.node(env, self.floatnum('equation'))
        s = '\\begin{%s}' % env
        s += (self.label() if place == 'start' else '') + ' x \\mbox{%s} ' % (self.word() + self.slot()) + ('= y' if place != 'mid' else '=' + self.label() + ' y')
        s += self.label() if place == 'end' else ''
        s += '\\end{%s}' % env
        self.cur = save
        return s + ' ' + self.word()

    def rows(self, labs, env='eqnarray'):
        """labs: which rows carry a label"""
        save = self.cur
        s = '\\begin{%s}' % env
        first = self.count.get(env, 0) + 1
        self.count[env] = first
        for i in range(3):
            self.step('equation')
            row = self.node('row', self.floatnum('equation'))
            if i == 0:
                row = (env, first, row[2])
            s += 'x &= y ' if env == 'align' else 'x & = & y '
            if i in labs:
                s += self.label(row)
            s += ' \\\\ ' if i < 2 else ''
        s += '\\end{%s}' % env
        self.cur = save
        return s + ' ' + self.word()

    def enum(self, depth=1, where=('start',), nest='enumerate'):
        """three items; the second holds a nested list"""
        fmt = [lambda n: str(n)] * 4
        save = self.cur
        s = '\\begin{enumerate}'
        for i in range(3):
            self.count['item'] = self.count.get('item', 0) + 1
            me = self.cur = ('item', self.count['item'], fmt[depth - 1](i + 1))
            s += '\\item '
            if i == 1 and 'start' in where:
                s += self.label()
            s += ' ' + self.word() + self.slot()
            if i == 1 and depth > 1:
                s += self.enum(depth - 1, where) if nest == 'enumerate' else self.bullet()
                if self.cur != me:
                    raise AssertionError
            if i == 1 and 'end' in where:
                s += self.label()
            s += '\n\n' if i == 1 else ' '
        s += '\\end{enumerate}'
        self.cur = save
        return s + ' ' + self.word()

    def bullet(self):
        self.count['item'] = self.count.get('item', 0) + 2
        return '\\begin{itemize}\\item %s %s\\item %s\\end{itemize}' % (self.word(), self.slot(), self.word())

    def flt(self, kind='figure', place='after', extra=''):
        save = self.cur
        self.step(kind)
        s = '\\begin{%s}' % kind
        if place == 'below':
            s += '\\begin{tabular}{l}%s & %s\\end{tabular}' % (self.word(), self.word() + self.slot())
        else:
            s += self.word() + ' '
        self.node('caption', self.floatnum(kind))
        me = self.cur
        if place == 'inside':
            s += '\\caption{%s%s %s%s}' % (self.word(), self.label(), self.word(), self.slot())
        else:
            s += '\\caption{%s%s}%s' % (self.word(), self.slot(), self.label() if place in ('after', 'below') else ' %s \\centering ' % self.word() + self.label())
        s += '\\end{%s}' % kind
        self.cur = save
        return s + '\n\n'

    def thm(self, name='thma', place='start', inner=''):
        save = self.cur
        c = {'thma': 'thma', 'thmb': 'thma', 'thmc': 'thmc'}[name]
        self.step(c)
        self.node(name, '%s.%d' % (self.secnum(), self.v[c]) if name == 'thmc' else str(self.v[c]))
        me = self.cur
        s = '\\begin{%s}' % name
        if place == 'note':
            s += '[%s]' % (self.word() + self.slot())
        if place in ('start', 'note'):
            s += self.label()
        s += ' ' + self.word() + self.slot()
        if inner:
            s += OPS[inner][0](self)
        if place == 'end':
            s += ' ' + self.label()
        s += '\\end{%s}' % name
        self.cur = save
        return s + ' ' + self.word()

    def plain(self, text):
        return text

    def footnote(self):
        return self.word() + '\\footnote{%s%s} ' % (self.word(), self.slot())

    def math(self):
        return '$x_{\\mbox{%s}}$ ' % (self.word() + self.slot()) + '\\[ y \\mbox{%s} \\] ' % (self.word() + self.slot())

    def cell(self):
        return '\\begin{tabular}{l}%s%s & %s \\\\ %s\\end{tabular} ' % (self.word(), self.slot(), self.word(), self.word())

    def late(self):
        """a label in the text of the current section, after other objects"""
        if self.cur is None:
            return self.skip()
        return self.label() + ' ' + self.word()


OPS = {
    'sec': (lambda d: d.sec(), 1), 'sec-title': (lambda d: d.sec(place='title'), 1), 'sec-par': (lambda d: d.sec(place='par'), 1), 'sec-none': (lambda d: d.sec(place='no'), 0),
    'sec-star': (lambda d: d.sec(star=True), 1), 'sub': (lambda d: d.sec('subsection'), 1), 'sub-title': (lambda d: d.sec('subsection', 'title'), 1),
    'eq': (lambda d: d.eq(), 1), 'eq-mid': (lambda d: d.eq('mid'), 1), 'eq-end': (lambda d: d.eq('end'), 1), 'eq-none': (lambda d: d.eq('no'), 0),
    'rows': (lambda d: d.rows((0, 1, 2)), 3), 'rows-2': (lambda d: d.rows((1,)), 1), 'rows-13': (lambda d: d.rows((0, 2)), 2),
    'enum': (lambda d: d.enum(), 1), 'enum-nest': (lambda d: d.enum(2), 2), 'enum-end': (lambda d: d.enum(1, ('end',)), 1), 'enum-nest-end': (lambda d: d.enum(2, ('end',)), 2),
    'enum-deep': (lambda d: d.enum(4, ('end',)), 4), 'enum-bullet': (lambda d: d.enum(2, ('end',), 'itemize'), 1),
    'fig': (lambda d: d.flt(), 1), 'fig-in': (lambda d: d.flt(place='inside'), 1), 'fig-far': (lambda d: d.flt(place='far'), 1), 'tab': (lambda d: d.flt('table'), 1), 'tab-below': (lambda d: d.flt('table', 'below'), 1),
    'thma': (lambda d: d.thm(), 1), 'thmb': (lambda d: d.thm('thmb', 'note'), 1), 'thmc': (lambda d: d.thm('thmc'), 1), 'thma-end': (lambda d: d.thm('thma', 'end'), 1),
    'thma-eq': (lambda d: d.thm('thma', 'end', 'eq'), 2), 'thmb-enum': (lambda d: d.thm('thmb', 'end', 'enum-nest'), 3), 'thmc-eq': (lambda d: d.thm('thmc', 'start', 'eq-end'), 2), 'thma-rows': (lambda d: d.thm('thma', 'end', 'rows-13'), 3),
    'foot': (lambda d: d.footnote(), 0), 'cell': (lambda d: d.cell(), 0), 'late': (lambda d: d.late(), 1), 'bullet': (lambda d: d.bullet(), 0),
    'sec-two': (lambda d: d.sec()[:-2] + d.label() + '\n\n', 2), 'ownmath': (lambda d: d.math(), 0), 'newenv': (lambda d: d.eq('start', 'equation').replace('\\begin{equation}', '\\begin{myeq}').replace('\\end{equation}', '\\end{myeq}'), 1),
    'chap': (lambda d: d.sec('chapter'), 1), 'chap-star': (lambda d: d.sec('chapter', star=True), 1),
    'align': (lambda d: d.rows((0, 1, 2), 'align'), 3), 'align-2': (lambda d: d.rows((1,), 'align'), 1), 'gather': (lambda d: d.eq('end', 'gather'), 1), 'multline': (lambda d: d.eq('start', 'multline'), 1),
}
AMS = ('align', 'align-2', 'gather', 'multline')
BOOK = ('chap', 'chap-star')


def accept(kind, n, w):
    if w is None:
        return False
    return tuple(w) == (kind, n)


def want(d, dangling=()):
    lab = {}
    for l, kind, n, num in d.labels:
        lab[l] = (kind, n, num)
    exp = sorted(d.refs)

    def p(o, facts):
        refs, found, cites = o
        refs = [list(r) for r in refs]
        got = sorted(str(r[0]) for r in refs)
        if got != exp:
            miss = [x for x in exp if got.count(x) != exp.count(x)] or [x for x in got if got.count(x) != exp.count(x)]
            return 'the document has %d references to "%s", the parsed one %d' % (exp.count(miss[0]), miss[0], got.count(miss[0]))
        for l, w, num in refs:
            if l in lab:
                kind, n, number = lab[l]
                if not accept(kind, n, w):
                    return 'reference to "%s" resolves to %s, the label is on %s %d' % (l, '%s %s' % tuple(w) if w else 'nothing in the document', kind, n)
                if num != number:
                    return 'reference to "%s" (%s %d) has number %r, the object is number %r' % (l, kind, n, num, number)
            else:
                if w is not None:
                    return 'dangling reference to "%s" resolves to %s %s' % (l, w[0], w[1])
                if num is not None:
                    return 'dangling reference to "%s" has number %r' % (l, num)
        ids = {}
        for l, w, num, id in found:
            if l not in lab:
                continue
            kind, n, number = lab[l]
            if not accept(kind, n, w):
                return 'label "%s" is attached to %s, it is written in %s %d' % (l, '%s %s' % tuple(w) if w else 'nothing', kind, n)
            if num != number:
                return 'label "%s": %s %d has number %r, expected %r' % (l, kind, n, num, number)
            if len([x for x in lab.values() if x == lab[l]]) == 1 and id != l:
                return 'the identifier of %s %d is %r, its label is "%s"' % (kind, n, id, l)
        return None
    return p


RULE = {'kind': 'labels on an object of every kind, referenced from every slot', 'slot': 'one reference, in every slot of the document', 'pair': 'labels on two neighbouring objects of any kinds',
        'scope': 'a label after other numbered objects belongs to the object that contains it', 'random': 'random documents, labels and references',
        'many': 'many pending references per label', 'dangling': 'references to labels that do not exist', 'elsewhere': 'labels known from other documents do not capture references',
        'print': 'the printed text of a reference is the number of its object', 'cite': 'citations resolve to the bibliography item of their key'}


def main(tier):
    C = Check('C09', 'abstract interpretation of generated labelled documents compared with a model of label attachment and resolution, and template dataflow for the printed number')
    C.boot(DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.book', 'plasTeX.Packages.amsmath'])
    C.freeze()
    thorough = tier == 'thorough'

    def emit(fam, id, d, first=None):
        d.build()
        C.expect('%s: %s' % (fam, id), RULE[fam], ANCH, 'resolve', [T(d.src), ListV([l[0] for l in d.labels]), None if first is None else ListV(first)], want(d),
                 max_steps=100000000, time_limit=120)

    def kw(ops):
        return {'amsmath': any(o in AMS for o in ops), 'cls': 'book' if any(o in BOOK for o in ops) else 'article'}

    keys = list(OPS)
    for k in keys:
        ops = ['sec-none', k, k]
        emit('kind', k, Doc(ops, None, **kw(ops)))
        ops = ['sec', k, 'late', 'foot', 'cell']
        emit('scope', k, Doc(ops, None, **kw(ops)))
    # a single reference in every slot, to each label
    for k in keys:
        ops = ['sec', k, 'eq', 'bullet']
        d = Doc(ops, {}, **kw(ops)).build()
        n = d.nslot
        for s in range(n):
            if not thorough and (s + len(k)) % 2:
                continue
            emit('slot', '%s-%d' % (k, s), Doc(ops, {s: list(range(len(d.universe)))}, **kw(ops)))
    for i, a in enumerate(keys):
        for j, b in enumerate(keys):
            if not thorough and (i * 7 + j) % 6:
                continue
            ops = ['sec-none', a, b, 'late']
            emit('pair', '%s-%s' % (a, b), Doc(ops, {0: [0, 1, 2, 3], 2: [1, 'nowhere', 0], 3: [0, 0, 2], 5: [3, 2, 1, 0]}, **kw(ops)))
    for i in range(300 if thorough else 40):
        r = random.Random(i)
        ams = r.random() < .3
        book = r.random() < .3
        ks = [k for k in keys if (ams or k not in AMS) and (book or k not in BOOK)]
        ops = ['chap' if book else 'sec'] + [r.choice(ks) for _ in range(r.randint(3, 9))]
        names = NAMES[:]
        r.shuffle(names)
        kk = {'amsmath': ams, 'cls': 'book' if book else 'article', 'names': names}
        d = Doc(ops, {}, **kk).build()
        plan = {}
        nl = len(d.universe)
        for _ in range(r.randint(3, 25)):
            plan.setdefault(r.randrange(d.nslot), []).append(r.randrange(nl) if r.random() < .85 else r.choice(['nowhere', 'never:set', 'eq:100', 'Sec:one', '']))
        plan = {s: [x for x in v if x != ''] for s, v in plan.items()}
        emit('random', '%d' % i, Doc(ops, plan, **kk))
        if i % 3 == 0:
            # the same document with the references moved elsewhere
            moved = {(s * 3 + 5) % d.nslot: v for s, v in plan.items()}
            emit('random', '%d-moved' % i, Doc(ops, moved, **kk))
    for i, k in enumerate(['sec', 'eq', 'fig', 'enum', 'thma', 'rows', 'sec-title', 'tab-below', 'thma-eq', 'align']):
        ops = [k, 'sec-none', k]
        emit('many', k, Doc(ops, {0: [0, 0, 1, 0, 1], 1: [1, 0, 1], 2: [0, 1, 1], 4: [0, 1]}, **kw(ops)))
        emit('dangling', k, Doc(ops, {0: ['none', 0, 'none', 'None'], 1: ['none', 'other'], 3: ['none', 0]}, **kw(ops)))
        emit('elsewhere', k, Doc(ops, {0: [0, 1, 0], 2: [0, 1]}, **kw(ops)), first=[NAMES[0], NAMES[1]])
    # bibliography: every key, cited before and after its item
    keysets = [['knuth', 'lamport', 'a'], ['a', 'ab', 'b'], ['X', 'x', 'k:1', 'k-2']]
    for n, ks in enumerate(keysets):
        for form in ('plain', 'labelled', 'mixed'):
            items, num, disp = '', 0, {}
            for i, k in enumerate(ks):
                opt = form == 'labelled' or form == 'mixed' and i % 2 == 0
                if not opt:
                    num += 1
                disp[k] = 'L%d' % i if opt else str(num)
                items += '\\bibitem%s{%s} <w%d> \\emph{<w2>}\n\n' % ('[L%d]' % i if opt else '', k, i + 1)
            cites = [[k] for k in ks] + [ks[:2], list(reversed(ks))]
            text = ' '.join('\\cite{%s} <w3> ' % ','.join(c) for c in cites)
            text += '\\cite[p]{%s} ' % ks[1]
            exp = [['[%s]' % ', '.join(disp[k] for k in c)] for c in cites] + [['[%s, p]' % disp[ks[1]]]]
            for place in ('before', 'after', 'both'):
                bib = '\\begin{thebibliography}{9}%s\\end{thebibliography}' % items
                src = '\\documentclass{article}\\begin{document}' + {'before': text + bib, 'after': bib + text, 'both': text + bib + text}[place] + '\\end{document}'
                e = exp * (2 if place == 'both' else 1)
                ids = [[ks.index(k) + 1 for k in c] for c in cites] + [[2]]
                ids = ids * (2 if place == 'both' else 1)

                def p(o, facts, e=e, ids=ids):
                    cs = [list(c) for c in o[2]]
                    if len(cs) != len(e):
                        return '%d citations, %d written' % (len(cs), len(e))
                    for c, t, ii in zip(cs, e, ids):
                        got = [x[0] for x in c[:-1]]
                        if [tuple(g) if g else None for g in got] != [('bibitem', i) for i in ii]:
                            return 'a citation of the items %s resolves to %s' % (ii, got)
                        if c[-1] != t[0]:
                            return 'UNDECIDED' if type(c[-1]) is not str else 'a citation of the items %s prints %r, expected %r' % (ii, c[-1], t[0])
                    return None
                C.expect('cite: %d-%s-%s' % (n, form, place), RULE['cite'], ['plasTeX/Base/LaTeX/Bibliography.py:thebibliography.bibitem.invoke', 'plasTeX/Base/LaTeX/Bibliography.py:cite.bibitems', 'plasTeX/Base/LaTeX/Bibliography.py:cite.citation'],
                         'resolve', [T(src), ListV([]), None], p, max_steps=100000000, time_limit=120)
    return C.finish(tier)
