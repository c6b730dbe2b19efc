"""C08: abstract interpretation of numbered documents against a model of LaTeX's counters.

Documents mixing every numbered construct with explicit counter manipulation (titles and texts are unknown words) are
parsed abstractly; the sequence of (object, number) in document order is compared with the one computed by the model."""
import random

from .core import Check, T, short, ListV

DRIVER = r'''
from plasTeX.DOM import Node
from plasTeX import Counter as _Counter

KINDS = ('part', 'chapter', 'section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph', 'equation', 'ArrayRow', 'caption', 'thmenv', 'item', 'textsc')


class Seen(object):
    def __init__(self):
        self.out = []

    def num(self, n):
        r = n.ref
        if r is None:
            return None
        if isinstance(r, Node):
            return r.textContent
        return r

    def node(self, n):
        if n.nodeType != Node.ELEMENT_NODE:
            return
        name = n.nodeName
        if name in KINDS:
            if name == 'item':
                if n.parentNode.nodeName == 'enumerate':
                    self.out.append(('item', self.num(n)))
            elif name == 'textsc':
                self.out.append(('probe', n.textContent))
            elif name == 'ArrayRow':
                if n.parentNode.nodeName in ('eqnarray', 'eqnarray*'):
                    self.out.append(('row', self.num(n)))
            elif name == 'thmenv':
                self.out.append((n.thmName, self.num(n)))
            else:
                self.out.append((name, self.num(n)))
        if n.attributes:
            for v in list(n.attributes.values()):
                if v is not n.childNodes and isinstance(v, Node) and v.nodeType == Node.DOCUMENT_FRAGMENT_NODE:
                    for c in v.childNodes:
                        self.node(c)
        for c in n.childNodes:
            self.node(c)


def numbers(src, depth):
    tex = TeX()
    tex.ownerDocument.config['document']['sec-num-depth'] = depth
    tex.input(src)
    doc = tex.parse()
    s = Seen()
    for n in doc.childNodes:
        s.node(n)
    return s.out


class _Ctx(object):
    counters = {}


def reprs(kind, lo, hi):
    c = _Counter(_Ctx(), 'x')
    out = []
    for i in range(lo, hi + 1):
        c.setcounter(i)
        out.append(getattr(c, kind))
    return out


def stepped(names, within, ops):
    """ops on a context with counters declared one within another -> values"""
    tex = TeX()
    ctx = tex.ownerDocument.context
    for n, w in zip(names, within):
        ctx.newcounter(n, w)
    out = []
    for o, n, v in ops:
        c = ctx.counters[n]
        if o == 'step':
            c.stepcounter()
        elif o == 'set':
            c.setcounter(v)
        else:
            c.addtocounter(v)
        out.append([ctx.counters[x].value for x in names])
    return out
'''
ANCH = ['plasTeX/__init__.py:Counter.stepcounter', 'plasTeX/__init__.py:TheCounter.invoke', 'plasTeX/__init__.py:Macro.refstepcounter', 'plasTeX/__init__.py:Macro.postParse',
        'plasTeX/Context.py:Context.newcounter', 'plasTeX/Packages/book.py:ProcessOptions', 'plasTeX/Base/LaTeX/Lists.py:List.invoke',
        'plasTeX/Base/LaTeX/Math.py:eqnarray.invoke', 'plasTeX/Base/LaTeX/Numbering.py:stepcounter.invoke', 'plasTeX/Base/LaTeX/Definitions.py:newtheorem.invoke']


def roman(n):
    s = ''
    for v, t in ((1000, 'm'), (900, 'cm'), (500, 'd'), (400, 'cd'), (100, 'c'), (90, 'xc'), (50, 'l'), (40, 'xl'), (10, 'x'), (9, 'ix'), (5, 'v'), (4, 'iv'), (1, 'i')):
        while n >= v:
            s, n = s + t, n - v
    return s


def alph(n):
    return 'abcdefghijklmnopqrstuvwxyz'[n - 1]


LEVEL = {'part': -1, 'chapter': 0, 'section': 1, 'subsection': 2, 'subsubsection': 3, 'paragraph': 4, 'subparagraph': 5}


class Model(object):
    """LaTeX's counters and the number formats of the standard classes"""

    def __init__(self, cls, depth, thms, new):
        self.cls, self.depth = cls, depth
        self.v, self.within, self.fmt = {}, {}, {}
        book = cls == 'book'
        self.new('part', None, lambda: roman(self.v['part']).upper())
        if book:
            self.new('chapter', None, lambda: str(self.v['chapter']))
        self.new('section', 'chapter' if book else None, (lambda: '%s.%d' % (self.fmt['chapter'](), self.v['section'])) if book else (lambda: str(self.v['section'])))
        prev = 'section'
        for c in ('subsection', 'subsubsection', 'paragraph', 'subparagraph'):
            self.new(c, prev, lambda c=c, p=prev: '%s.%d' % (self.fmt[p](), self.v[c]))
            prev = c
        for c in ('figure', 'table', 'equation'):
            if book:
                self.new(c, 'chapter', lambda c=c: '%s.%d' % (self.fmt['chapter'](), self.v[c]) if self.v['chapter'] > 0 else str(self.v[c]))
            else:
                self.new(c, None, lambda c=c: str(self.v[c]))
        for c, w in new:
            self.new(c, w, lambda c=c: str(self.v[c]))
        self.thm = {}
        for name, kind, arg in thms:
            if kind == 'star':
                self.thm[name] = None
            elif kind == 'shared':
                self.thm[name] = arg
            elif kind == 'within':
                self.new(name, arg, lambda c=name, w=arg: '%s.%d' % (self.fmt[w](), self.v[c]))
                self.thm[name] = name
            else:
                self.new(name, None, lambda c=name: str(self.v[c]))
                self.thm[name] = name
        self.lists = []
        self.out = []

    def new(self, c, within, fmt):
        self.v[c], self.within[c], self.fmt[c] = 0, within, fmt

    def step(self, c):
        self.v[c] += 1
        self.reset(c)

    def reset(self, c):
        for d, w in self.within.items():
            if w == c:
                self.v[d] = 0
                self.reset(d)

    def number(self, c):
        self.step(c)
        return self.fmt[c]()


class Doc(object):
    """writes a document and runs the model along"""

    def __init__(self, cls, depth=2, thms=(), new=(), pre=''):
        self.m = Model(cls, depth, thms, new)
        self.cls = cls
        self.src = []
        self.n = 0
        self.pre = pre
        for c, w in new:
            self.pre += '\\newcounter{%s}%s' % (c, '[%s]' % w if w else '')
        for name, kind, arg in thms:
            self.pre += {'star': '\\newtheorem*{%s}{T}' % name, 'shared': '\\newtheorem{%s}[%s]{T}' % (name, arg), 'within': '\\newtheorem{%s}{T}[%s]' % (name, arg),
                         'own': '\\newtheorem{%s}{T}' % name}[kind] + '\n'

    def w(self):
        self.n += 1
        return '<w%d>' % self.n

    def sec(self, k, star=False, toc=False):
        m = self.m
        self.src.append('\\%s%s%s{%s}' % (k, '*' if star else '', '[%s]' % self.w() if toc else '', self.w()))
        m.out.append((k, m.number(k) if not star and LEVEL[k] <= m.depth else None))

    def eq(self):
        self.src.append('\\begin{equation} %s=1 \\end{equation}' % self.w())
        self.m.out.append(('equation', self.m.number('equation')))

    def disp(self):
        self.src.append('\\[ %s \\]' % self.w())

    def rows(self, rows, star=False):
        """rows: list of (nonumber, row end)"""
        s = ''
        for i, (non, end) in enumerate(rows):
            s += '%s &=& %s%s' % (self.w(), self.w(), ' \\nonumber' if non else '')
            if i < len(rows) - 1:
                s += end + ' '
            if not star and not non:
                self.m.out.append(('row', self.m.number('equation')))
            else:
                self.m.out.append(('row', None))
        e = 'eqnarray*' if star else 'eqnarray'
        self.src.append('\\begin{%s} %s \\end{%s}' % (e, s, e))

    def fl(self, k, star=False, caps=1, capstar=False):
        s = ''
        for i in range(caps):
            s += ' %s \\caption%s{%s}' % (self.w(), '*' if capstar else '', self.w())
            self.m.out.append(('caption', None if capstar else self.m.number(k)))
        e = k + ('*' if star else '')
        self.src.append('\\begin{%s}%s\\end{%s}' % (e, s, e))

    def thm(self, name, body=None, title=False):
        m = self.m
        c = m.thm[name]
        m.out.append((name, m.number(c) if c else None))
        self.src.append('\\begin{%s}%s ' % (name, '[%s]' % self.w() if title else ''))
        if body:
            body()
        else:
            self.src.append(self.w())
        self.src.append('\\end{%s}' % name)

    def lst(self, kind, items):
        """items: list of (labelled, body or None)"""
        m = self.m
        self.src.append('\\begin{%s}' % kind)
        m.lists.append([kind, 0])
        for lab, body in items:
            if lab == 'set':
                d = ['enumi', 'enumii', 'enumiii', 'enumiv'][len([x for x in m.lists if x[0] == 'enumerate']) - 1]
                self.src.append('\\setcounter{%s}{%d}' % (d, body))
                m.lists[-1][1] = body
                continue
            if kind == 'enumerate':
                if lab:
                    m.out.append(('item', None))
                else:
                    m.lists[-1][1] += 1
                    m.out.append(('item', str(m.lists[-1][1])))
            self.src.append('\\item%s ' % ('[%s]' % self.w() if lab else ''))
            if body:
                body()
            else:
                self.src.append(self.w())
        m.lists.pop()
        self.src.append('\\end{%s}' % kind)

    def ctr(self, op, c, v=None):
        m = self.m
        if op == 'step':
            self.src.append('\\stepcounter{%s}' % c)
            m.step(c)
        elif op == 'set':
            self.src.append('\\setcounter{%s}{%s}' % (c, v))
            m.v[c] = v
        elif op == 'add':
            self.src.append('\\addtocounter{%s}{%s}' % (c, v))
            m.v[c] += v
        elif op == 'copy':
            self.src.append('\\setcounter{%s}{\\value{%s}}' % (c, v))
            m.v[c] = m.v[v]
        elif op == 'probe':
            x = m.v[c]
            self.src.append('\\textsc{\\arabic{%s}}' % c)
            m.out.append(('probe', str(x)))
            self.src.append('\\textsc{\\the%s}' % c)
            m.out.append(('probe', m.fmt[c]()))
            if x > 0:
                self.src.append('\\textsc{\\roman{%s}-\\Roman{%s}}' % (c, c))
                m.out.append(('probe', '%s-%s' % (roman(x), roman(x).upper())))
            if 0 < x <= 26:
                self.src.append('\\textsc{\\alph{%s}-\\Alph{%s}}' % (c, c))
                m.out.append(('probe', '%s-%s' % (alph(x), alph(x).upper())))

    def appendix(self):
        m = self.m
        self.src.append('\\appendix')
        top, sub = ('chapter', 'section') if self.cls == 'book' else ('section', 'subsection')
        m.v[top] = m.v[sub] = 0
        m.fmt[top] = lambda: alph(m.v[top]).upper() if 0 < m.v[top] <= 26 else '?'

    def text(self):
        return '\\documentclass{%s}\n%s\n\\begin{document}\n%s\n\\end{document}\n' % (self.cls, self.pre, '\n'.join(self.src))


THMS = [('thma', 'own', None), ('thmb', 'within', 'section'), ('thmc', 'shared', 'thmb'), ('thmd', 'star', None), ('theorem', 'within', 'subsection'), ('thmf', 'shared', 'equation'),
        ('thmg', 'within', 'thma')]
NEW = [('xx', None), ('yy', 'section'), ('zz', 'yy'), ('thesis', 'xx')]


def ops(cls):
    secs = (['part', 'chapter'] if cls == 'book' else ['part']) + ['section', 'subsection', 'subsubsection', 'paragraph', 'subparagraph']
    top = 'chapter' if cls == 'book' else 'section'
    o = {}
    for s in secs:
        o[s] = lambda d, s=s: d.sec(s)
    o[top + '*'] = lambda d: d.sec(top, True)
    o['subsection*'] = lambda d: d.sec('subsection', True)
    o['section[]'] = lambda d: d.sec('section', False, True)
    o['equation'] = lambda d: d.eq()
    o['display'] = lambda d: d.disp()
    o['row'] = lambda d: d.rows([(False, '')])
    o['rows'] = lambda d: d.rows([(False, '\\\\'), (True, '\\\\'), (False, '\\\\[2pt]'), (False, '')])
    o['rowsstar'] = lambda d: d.rows([(True, '\\\\*'), (False, '\\\\*'), (False, '\\\\*[1pt]'), (True, '')])
    o['eqnarray*'] = lambda d: d.rows([(False, '\\\\'), (True, '')], True)
    o['figure'] = lambda d: d.fl('figure')
    o['figure*'] = lambda d: d.fl('figure', True, 2)
    o['table'] = lambda d: d.fl('table')
    o['table2'] = lambda d: d.fl('table', False, 2)
    o['caption*'] = lambda d: d.fl('figure', False, 1, True)
    for t, k, a in THMS:
        o[t] = lambda d, t=t: d.thm(t)
    o['thmtitle'] = lambda d: d.thm('thmb', None, True)
    o['thmeq'] = lambda d: d.thm('thma', lambda: d.eq())
    o['enum'] = lambda d: d.lst('enumerate', [(False, None), (True, None), (False, lambda: d.eq())])
    o['enumenum'] = lambda d: d.lst('enumerate', [(False, None), (False, lambda: d.lst('enumerate', [(False, None), (False, lambda: d.lst('enumerate', [(False, None)] * 2))])),
                                                  (False, lambda: d.lst('enumerate', [(False, None)])), (False, None)])
    o['itemenum'] = lambda d: d.lst('itemize', [(False, lambda: d.lst('enumerate', [(False, None)] * 3)), (True, lambda: d.lst('description', [
        (True, lambda: d.lst('enumerate', [(False, lambda: d.lst('itemize', [(False, lambda: d.lst('enumerate', [(False, None)] * 2))])), (False, None)]))]))])
    o['enumset'] = lambda d: d.lst('enumerate', [('set', 4), (False, None), ('set', 7), (False, lambda: d.lst('enumerate', [('set', 2), (False, None)])), (False, None)])
    for c in ('section', 'subsection', 'equation', 'xx', 'yy', 'thmb', 'figure'):
        o['set' + c] = lambda d, c=c: d.ctr('set', c, 4)
        o['add' + c] = lambda d, c=c: d.ctr('add', c, 2)
    for c in ('section', 'xx', 'yy', 'thma', top):
        o['step' + c] = lambda d, c=c: d.ctr('step', c)
    for c in ('section', 'subsection', 'xx', 'yy', 'zz', 'equation', 'thmb', 'thesis', 'theorem'):
        o['probe' + c] = lambda d, c=c: d.ctr('probe', c)
    o['copy'] = lambda d: d.ctr('copy', 'zz', 'section')
    o['neg'] = lambda d: d.ctr('add', 'section', -1) if d.m.v['section'] > 1 else None
    return o


def want_is(want):
    def p(o, facts):
        o = list(o)
        for i in range(max(len(o), len(want))):
            a = o[i] if i < len(o) else None
            b = want[i] if i < len(want) else None
            if a is None or b is None:
                return 'numbered object %d: got %s, want %s' % (i + 1, a, b)
            if tuple(a) != tuple(b):
                if not all(x is None or type(x) is str for x in a):
                    return 'UNDECIDED'
                return 'numbered object %d is %s, LaTeX gives %s (before: %s)' % (i + 1, tuple(a), tuple(b), short([tuple(x) for x in o[max(0, i - 4):i]]))
        return None
    return p


RULE = {'single': 'a numbered construct repeated in a document', 'pair': 'a construct before and after every other construct',
        'random': 'random histories of numbered constructs, counter commands and theorem declarations',
        'appendix': 'numbers after \\appendix', 'depth': 'objects deeper than the configured depth neither print nor step a number',
        'format': 'renewed counter formats', 'reps': 'the representation of every value in its range', 'reset': 'stepping resets dependents transitively, setting and adding do not'}


def main(tier):
    C = Check('C08', 'abstract interpretation of numbered documents compared with an executable model of LaTeX\'s counter rules; direct abstract interpretation '
              'of Counter for every representable value and for histories over counter hierarchies')
    C.boot(DRIVER, ['plasTeX.Packages.article', 'plasTeX.Packages.book'])
    C.freeze()
    thorough = tier == 'thorough'

    def emit(fam, id, d):
        C.expect('%s: %s' % (fam, id.replace(' ', '')), RULE[fam], ANCH, 'numbers', [T(d.text()), d.m.depth], want_is(d.m.out), max_steps=100000000, time_limit=120)

    for kind, top, f in (('arabic', 4999, str), ('roman', 4999, roman), ('Roman', 4999, lambda n: roman(n).upper()), ('alph', 26, alph), ('Alph', 26, lambda n: alph(n).upper())):
        lo = 1
        while lo <= top:
            hi = min(top, lo + 499)
            C.expect('reps: %s-%d-%d' % (kind, lo, hi), RULE['reps'], ['plasTeX/__init__.py:Counter.%s' % kind, 'plasTeX/__init__.py:numToRoman'], 'reprs', [kind, lo, hi],
                     [f(i) for i in range(lo, hi + 1)], max_steps=100000000, time_limit=120)
            lo = hi + 1

    # hierarchies of counters: every forest of up to 4 counters, histories of operations
    names = ['ca', 'cb', 'cc', 'cd']
    forests = [[None, 'ca', 'cb', 'cc'], [None, 'ca', 'ca', 'cb'], [None, 'ca', 'ca', 'ca'], [None, None, 'ca', 'cb'], [None, 'ca', None, 'cc'], ['cb', 'cc', None, 'ca'], [None, 'ca', 'cb', 'cb']]
    for fi, within in enumerate(forests):
        for s in range(12 if thorough else 3):
            r = random.Random(fi * 100 + s)
            v = dict.fromkeys(names, 0)
            hist, want = [], []
            for _ in range(40):
                o, n, k = r.choice(['step', 'step', 'set', 'add']), r.choice(names), r.choice([0, 1, 5, -2])
                hist.append(ListV([o, n, k]))
                if o == 'step':
                    v[n] += 1
                    todo = [n]
                    while todo:
                        x = todo.pop()
                        for c, w in zip(names, within):
                            if w == x:
                                v[c] = 0
                                todo.append(c)
                elif o == 'set':
                    v[n] = k
                else:
                    v[n] += k
                want.append([v[c] for c in names])
            C.expect('reset: forest%d-%d' % (fi, s), RULE['reset'], ['plasTeX/__init__.py:Counter.resetcounters', 'plasTeX/__init__.py:Counter.stepcounter', 'plasTeX/__init__.py:Counter.setcounter'],
                     'stepped', [ListV(list(names)), ListV(list(within)), ListV(hist)], want, max_steps=50000000)

    for cls in ('article', 'book'):
        O = ops(cls)
        keys = list(O)
        for k in keys:
            d = Doc(cls, 3 if cls == 'article' else 2, THMS, NEW)
            for i in range(3):
                O[k](d)
            d.sec('section')
            O[k](d)
            for c in ('equation', 'section', 'subsection', 'yy', 'thmb'):
                d.ctr('probe', c)
            emit('single', cls + '-' + k, d)
        for ki, k in enumerate(keys):
            for half in range(4):
                if not thorough and half != (ki + (cls == 'book')) % 4:
                    continue
                d = Doc(cls, 2, THMS, NEW)
                O[k](d)
                for j in range(half, len(keys), 4):
                    O[keys[j]](d)
                    O[k](d)
                emit('pair', '%s-%s-%d' % (cls, k, half), d)
        for dp in range(-2, 6):
            d = Doc(cls, dp, THMS, NEW)
            for k in ('part', 'chapter', 'section', 'thmb', 'subsection', 'theorem', 'subsubsection', 'paragraph', 'equation', 'subparagraph', 'section[]', 'subsection', 'subsubsection', 'probeyy', 'figure',
                      'part', 'chapter', 'section', 'thmb', 'probesection'):
                if k in O:
                    O[k](d)
            emit('depth', '%s-%d' % (cls, dp), d)
        top = 'chapter' if cls == 'book' else 'section'
        for i in range(12 if thorough else 4):
            r = random.Random(i)
            d = Doc(cls, 3, THMS, NEW)
            for _ in range(r.randint(0, 5)):
                O[r.choice(keys)](d)
            d.appendix()
            d.sec(top)
            for _ in range(10):
                O[r.choice([k for k in keys if k not in ('set' + top, 'neg', 'probe' + top)])](d)
            d.sec(top)
            d.eq()
            d.thm('thmb')
            emit('appendix', '%s-%d' % (cls, i), d)
        # renewed formats
        d = Doc(cls, 3, THMS, NEW, )
        d.pre += '\\renewcommand{\\thesection}{\\Roman{section}}\\renewcommand{\\theequation}{\\thesection-\\alph{equation}}\\renewcommand\\thexx{(\\arabic{xx})}'
        d.m.fmt['section'] = lambda m=d.m: roman(m.v['section']).upper()
        d.m.fmt['equation'] = lambda m=d.m: '%s-%s' % (m.fmt['section'](), alph(m.v['equation']))
        d.m.fmt['xx'] = lambda m=d.m: '(%d)' % m.v['xx']
        for k in ('section', 'equation', 'subsection', 'thmb', 'rows', 'section', 'equation', 'stepxx', 'probexx', 'theorem', 'subsubsection', 'probethesis', 'thmf'):
            O[k](d)
        emit('format', cls, d)
        for i in range(300 if thorough else 40):
            r = random.Random(1000 * (cls == 'book') + i)
            thms = []
            ctrs = ['section', 'subsection', 'equation'] + ([] if cls == 'article' else ['chapter'])
            for j, n in enumerate(['thma', 'thmb', 'thmc', 'thmd', 'theorem', 'thmf', 'thmg']):
                own = [t for t, k, a in thms if k in ('own', 'within')]
                k = r.choice(['own', 'within', 'within', 'shared', 'star']) if n not in ('thma', 'thmb', 'theorem') else r.choice(['own', 'within'])
                if n == 'thmf' and k == 'within':
                    thms.append((n, k, 'equation'))
                elif k == 'within':
                    thms.append((n, k, r.choice(ctrs + own)))
                elif k == 'shared':
                    thms.append((n, k, r.choice(own + ['equation'])))
                else:
                    thms.append((n, k, None))
            new = [('xx', r.choice([None, 'section', 'equation'])), ('yy', r.choice([None, 'xx', 'subsection'])), ('zz', r.choice(['xx', 'yy'])), ('thesis', r.choice([None, 'zz']))]
            d = Doc(cls, r.randint(0, 4), thms, new)
            for _ in range(r.randint(8, 24)):
                O[r.choice(keys)](d)
            emit('random', '%s-%d' % (cls, i), d)
    return C.finish(tier)
