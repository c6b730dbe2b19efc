"""C06: abstract interpretation of the DOM editing code over edit histories with unknown text, compared step by step with a list model.

Three families of obligations:
 * inductive steps: every editing operation with every kind of argument and position, from every tree of a small scope;
 * exhaustive short histories over a small pool;
 * long random histories (trees of elements, text, fragments, attribute-held fragments).
After every step the analysed tree must agree with an independent list model: children, parent links, owner document,
sibling navigation, first/last child, text content, element lookup, document position, clones, normalisation."""
import itertools
import random

from .core import Check, T, ListV

DRIVER = r'''
from plasTeX.DOM import Document, Node, NotFoundErr


class Mod(object):
    """model node"""
    def __init__(self, kind, name, dom):
        self.kind = kind        # 'e' element, 't' text, 'd' document, 'f' fragment
        self.name = name
        self.kids = []
        self.attrs = []         # (key, shape, [models])
        self.parent = None
        self.dom = dom
        self.selfattr = False
        self.text = None


class World(object):
    def __init__(self, words):
        self.doc = Document()
        self.words = words
        self.n = 0
        self.live = []          # models that can be targets
        self.detached = []      # roots that can be inserted again
        self.root = self.element()
        self.live.append(self.root)

    def word(self):
        self.n += 1
        return self.words[self.n % len(self.words)]

    def element(self):
        self.n += 1
        name = ('one', 'two', 'three')[self.n % 3]
        return Mod('e', name, self.doc.createElement(name))

    def textnode(self):
        w = self.word()
        m = Mod('t', '#text', self.doc.createTextNode(w))
        m.text = w
        return m

    def selfelement(self):
        """element whose children are held by its `self' attribute"""
        m = self.element()
        f = self.doc.createDocumentFragment()
        a, b = self.textnode(), self.element()
        f.append(a.dom)
        f.append(b.dom)
        m.dom.setAttribute('self', f)
        m.kids = [a, b]
        a.parent = b.parent = m
        m.selfattr = True
        return m

    def attrelement(self, which):
        m = self.element()
        k = which % 4
        if k == 0:
            a = self.element()
            m.dom.setAttribute('x', a.dom)
            m.attrs.append(('x', 'node', [a]))
        elif k == 1:
            f = self.doc.createDocumentFragment()
            a, b, c = self.element(), self.textnode(), self.textnode()
            for z in (a, b, c):
                f.append(z.dom)
            m.dom.setAttribute('x', f)
            m.attrs.append(('x', 'frag', [a, b, c]))
        elif k == 2:
            a, b = self.element(), self.element()
            c = self.element()
            b.dom.append(c.dom)
            b.kids.append(c)
            c.parent = b
            m.dom.setAttribute('x', [a.dom, b.dom])
            m.attrs.append(('x', 'list', [a, b]))
        else:
            a = self.element()
            c = self.element()
            a.dom.append(c.dom)
            a.kids.append(c)
            c.parent = a
            m.dom.setAttribute('x', {'k': a.dom})
            m.attrs.append(('x', 'dict', [a]))
            m.dom.setAttribute('y', None)
            m.dom.setAttribute('z', 'plain')
        return m

    def make(self, spec):
        """argument of an operation -> (dom argument, [models inserted])"""
        if spec == 's':
            w = self.word()
            m = Mod('t', '#text', None)
            m.text = w
            return w, [m]
        if spec == 'e':
            m = self.element()
            return m.dom, [m]
        if spec == 't':
            m = self.textnode()
            return m.dom, [m]
        if spec == 'x':
            m = self.selfelement()
            return m.dom, [m]
        if spec[0] == 'a':
            m = self.attrelement(int(spec[1:]))
            return m.dom, [m]
        if spec == 'E':
            m = self.element()
            a, b = self.textnode(), self.element()
            for z in (a, b):
                m.dom.append(z.dom)
                m.kids.append(z)
                z.parent = m
            return m.dom, [m]
        if spec[0] == 'd':
            if self.detached:
                m = self.detached.pop(int(spec[1:]) % len(self.detached))
                return m.dom, [m]
            return self.make('E')
        if spec[0] == 'f':
            f = self.doc.createDocumentFragment()
            ms = []
            for c in spec[1:]:
                if c == 'n':
                    g, gs = self.make('fte')
                    f.append(g)
                    ms.extend(gs)
                else:
                    d, l = self.make(c)
                    f.append(d)
                    ms.extend(l)
            return f, ms
        raise ValueError(spec)

    # ---- operations: performed on the DOM and on the model
    def adopt(self, t, ms):
        for m in ms:
            m.parent = t
            self.register(m)

    def register(self, m):
        if m.kind == 'e':
            known = False
            for x in self.live:
                if x is m:
                    known = True
            if not known:
                self.live.append(m)
        for k in m.kids:
            self.register(k)

    def unregister(self, m):
        self.live = [x for x in self.live if x is not m]
        for k in m.kids:
            self.unregister(k)

    def drop(self, m):
        m.parent = None
        self.unregister(m)
        self.detached.append(m)

    def target(self, i):
        return self.live[i % len(self.live)]

    def apply(self, op):
        kind = op[0]
        t = self.target(op[1])
        d = t.dom
        n = len(t.kids)
        if kind == 'append':
            x, ms = self.make(op[2])
            d.append(x)
            t.kids.extend(ms)
            self.adopt(t, ms)
        elif kind == 'appendChild':
            x, ms = self.make(op[2])
            d.appendChild(x)
            t.kids.extend(ms)
            self.adopt(t, ms)
        elif kind == 'insert':
            x, ms = self.make(op[3])
            i = op[2]
            d.insert(i, x)
            t.kids[i:i] = ms
            self.adopt(t, ms)
        elif kind in ('before', 'after'):
            x, ms = self.make(op[3])
            if not n:
                return self.expect(NotFoundErr, lambda: d.insertBefore(x, self.doc.createElement('zz')))
            i = op[2] % n
            ref = t.kids[i]
            if kind == 'before':
                d.insertBefore(x, ref.dom)
                t.kids[i:i] = ms
            else:
                d.insertAfter(x, ref.dom)
                t.kids[i + 1:i + 1] = ms
            self.adopt(t, ms)
        elif kind in ('mbefore', 'mafter', 'mreplace'):
            # the new child is already a child of the same node: it moves
            if n < 2:
                return None
            i = op[2] % n
            j = op[3] % n
            if i == j:
                j = (i + 1) % n
            m, ref = t.kids[i], t.kids[j]
            if kind == 'mbefore':
                d.insertBefore(m.dom, ref.dom)
            elif kind == 'mafter':
                d.insertAfter(m.dom, ref.dom)
            else:
                d.replaceChild(m.dom, ref.dom)
            del t.kids[i]
            if j > i:
                j -= 1
            if kind == 'mbefore':
                t.kids[j:j] = [m]
            elif kind == 'mafter':
                t.kids[j + 1:j + 1] = [m]
            else:
                t.kids[j:j + 1] = [m]
                self.drop(ref)
        elif kind == 'replace':
            x, ms = self.make(op[3])
            if not n:
                return self.expect(NotFoundErr, lambda: d.replaceChild(x, self.doc.createElement('zz')))
            i = op[2] % n
            old = t.kids[i]
            d.replaceChild(x, old.dom)
            t.kids[i:i + 1] = ms
            self.adopt(t, ms)
            self.drop(old)
        elif kind == 'remove':
            if not n:
                return self.expect(NotFoundErr, lambda: d.removeChild(self.doc.createElement('zz')))
            i = op[2] % n
            old = t.kids[i]
            r = d.removeChild(old.dom)
            if r is not old.dom:
                return 'removeChild returned another node'
            del t.kids[i]
            self.drop(old)
        elif kind == 'pop':
            i = op[2]
            if not -n <= i < n:
                return self.expect(IndexError, lambda: d.pop(i))
            old = t.kids[i]
            r = d.pop(i)
            if r is not old.dom:
                return 'pop returned another node'
            del t.kids[i]
            self.drop(old)
        elif kind == 'poplast':
            if not n:
                return self.expect(IndexError, lambda: d.pop())
            old = t.kids[-1]
            if d.pop() is not old.dom:
                return 'pop returned another node'
            t.kids.pop()
            self.drop(old)
        elif kind == 'set':
            i = op[2]
            x, ms = self.make(op[3])
            if not -n <= i < n:
                def doit():
                    d[i] = x
                return self.expect(IndexError, doit)
            if i < 0:
                i += n
            old = t.kids[i]
            d[op[2]] = x
            t.kids[i:i + 1] = ms
            self.adopt(t, ms)
            self.drop(old)
        elif kind == 'extend':
            xs, all = [], []
            for s in op[2].split(','):
                if not s:
                    continue
                x, ms = self.make(s)
                xs.append(x)
                all.extend(ms)
            d.extend(xs)
            t.kids.extend(all)
            self.adopt(t, all)
        elif kind == 'extendf':
            f, ms = self.make(op[2])
            d.extend(f)
            t.kids.extend(ms)
            self.adopt(t, ms)
        elif kind == 'normalize':
            before = self.text(t)
            d.normalize()
            self.norm(t)
            if str(d.textContent) != before:
                return 'normalize changed the text to %r' % str(d.textContent)
            e = self.shape(t)
            if e:
                return 'after normalize: ' + e
            snapshot = [x for x in d.childNodes]
            d.normalize()
            if [str(x) for x in d.childNodes if x.nodeType == 3] != [str(x) for x in snapshot if x.nodeType == 3] or len(d.childNodes) != len(snapshot):
                return 'normalize is not idempotent'
            self.norm(t)
        elif kind == 'clone':
            c = d.cloneNode(deep=True)
            m = self.copy(t)
            e = self.bind(m, c)
            if e:
                return 'deep clone: ' + e
            if not (c == d):
                return 'deep clone is not equal to the original'
            e = self.disjoint(t, c)
            if e:
                return e
            self.detached.append(m)
            e = self.shape(m)
            if e:
                return 'deep clone: ' + e
        elif kind == 'shallow':
            c = d.cloneNode()
            if c is d or c.nodeName != d.nodeName or c.ownerDocument is not d.ownerDocument:
                return 'shallow clone is wrong'
            self.junk = c
        elif kind == 'badref':
            x, ms = self.make(op[2])
            z = self.doc.createElement('zz')
            e = self.expect(NotFoundErr, lambda: d.insertBefore(x, z))
            e = e or self.expect(NotFoundErr, lambda: d.insertAfter(x, z))
            e = e or self.expect(NotFoundErr, lambda: d.replaceChild(x, z))
            e = e or self.expect(NotFoundErr, lambda: d.removeChild(z))
            return e
        else:
            raise ValueError(kind)
        return None

    def expect(self, exc, f):
        try:
            f()
        except exc:
            return None
        return 'no %s' % exc.__name__

    # ---- model helpers
    def text(self, m):
        if m.kind == 't':
            return m.text
        return ''.join([self.text(k) for k in m.kids])

    def normlist(self, kids, doms, t):
        new = []
        for k in kids:
            if k.kind == 't' and new and new[-1].kind == 't':
                new[-1].text = new[-1].text + k.text
                new[-1].dom = None
            elif k.kind == 't':
                c = Mod('t', '#text', None)
                c.text = k.text
                c.parent = k.parent
                new.append(c)
            else:
                new.append(k)
        return new

    def norm(self, t):
        t.kids = self.normlist(t.kids, None, t)
        for key, shape, ms in t.attrs:
            if shape == 'frag':
                ms[:] = self.normlist(ms, None, None)
            if shape in ('frag', 'node'):
                for x in ms:
                    if x.kind == 'e':
                        self.norm(x)
        for k in t.kids:
            if k.kind == 'e':
                self.norm(k)

    def copy(self, m):
        c = Mod(m.kind, m.name, None)
        c.text = m.text
        c.selfattr = m.selfattr
        for k in m.kids:
            x = self.copy(k)
            x.parent = c
            c.kids.append(x)
        for key, shape, ms in m.attrs:
            c.attrs.append((key, shape, [self.copy(x) for x in ms]))
        return c

    def attrnodes(self, value, shape):
        if shape == 'node':
            return [value]
        if shape == 'frag':
            return list(value)
        if shape == 'list':
            return list(value)
        return [value['k']]

    def bind(self, m, dom):
        """attach the nodes of a clone to its model"""
        m.dom = dom
        if m.kind == 't':
            if str(dom) != m.text:
                return 'text %r instead of %r' % (str(dom), m.text)
            return None
        if dom.nodeName != m.name:
            return 'name %r instead of %r' % (dom.nodeName, m.name)
        if len(dom.childNodes) != len(m.kids):
            return '%s children instead of %s' % (len(dom.childNodes), len(m.kids))
        for k, c in zip(m.kids, list(dom.childNodes)):
            e = self.bind(k, c)
            if e:
                return e
        for key, shape, ms in m.attrs:
            v = dom.attributes.get(key)
            if v is None:
                return 'attribute %r is missing' % key
            vs = self.attrnodes(v, shape)
            if len(vs) != len(ms):
                return 'attribute %r has %s nodes instead of %s' % (key, len(vs), len(ms))
            for k, c in zip(ms, vs):
                e = self.bind(k, c)
                if e:
                    return e
        return None

    def nodes(self, m):
        out = [m.dom]
        for key, shape, ms in m.attrs:
            for x in ms:
                out.extend(self.nodes(x))
        for k in m.kids:
            out.extend(self.nodes(k))
        return out

    def domnodes(self, d, m):
        return self.nodes(m)

    def disjoint(self, t, c):
        mine = self.nodes(t)
        for x in c.allChildNodes:
            if self.isin(x, mine):
                return 'deep clone shares %s with the original' % x.nodeName
        for x in self.attrdoms(c):
            if self.isin(x, mine):
                return 'deep clone shares %s inside an attribute with the original' % x.nodeName
        return None

    def isin(self, x, nodes):
        for y in nodes:
            if x is y:
                return True
        return False

    def attrdoms(self, c):
        out = []
        for v in list(c.attributes.values()):
            if v is None or type(v) is str:
                continue
            if isinstance(v, dict):
                v = list(v.values())
            if isinstance(v, list):
                for x in v:
                    out.append(x)
                    out.extend(x.allChildNodes)
            else:
                out.append(v)
                out.extend(v.allChildNodes)
        return out

    # ---- comparison
    def shape(self, m):
        """children, parents, owner of the whole subtree"""
        d = m.dom
        if m.kind == 't':
            return None if str(d) == m.text else 'text %r instead of %r' % (str(d), m.text)
        if len(d) != len(m.kids):
            return '%s lists %s children, the model has %s' % (m.name, len(d), len(m.kids))
        listed = list(d.childNodes)
        if len(listed) != len(m.kids):
            return 'childNodes of %s has %s nodes, the model %s' % (m.name, len(listed), len(m.kids))
        for i, k in enumerate(m.kids):
            c = listed[i]
            if k.dom is None:
                if c.nodeType != Node.TEXT_NODE or str(c) != k.text:
                    return 'child %s of %s is %r, the model has the text %r' % (i, m.name, c, k.text)
                k.dom = c
            if c is not k.dom:
                return 'child %s of %s is another node than in the model' % (i, m.name)
            if d[i] is not c:
                return 'item access disagrees with childNodes'
            if k.kind == 't' and str(c) != k.text:
                return 'text %r instead of %r' % (str(c), k.text)
            if c.parentNode is not d and not (m.selfattr and c.parentNode is d.childNodes):
                return 'parentNode of child %s (%s) of %s is %r' % (i, k.name, m.name, c.parentNode)
            if c.ownerDocument is not self.doc:
                return 'ownerDocument of child %s of %s' % (i, m.name)
            if k.kind == 'e':
                e = self.shape(k)
                if e:
                    return e
        for key, shape, ms in m.attrs:
            vs = self.attrnodes(d.attributes[key], shape)
            if len(vs) != len(ms):
                return 'attribute has %s nodes instead of %s' % (len(vs), len(ms))
            for c, k in zip(vs, ms):
                if k.dom is None:
                    k.dom = c
                if c is not k.dom:
                    return 'node of attribute %s is another one' % key
                if k.kind == 't' and str(c) != k.text:
                    return 'text %r of an attribute instead of %r' % (str(c), k.text)
                if c.ownerDocument is not self.doc:
                    return 'ownerDocument of a node of an attribute'
                if k.kind == 'e':
                    e = self.shape(k)
                    if e:
                        return e
        return None

    def preorder(self, m):
        out = []
        for k in m.kids:
            out.append(k)
            out.extend(self.preorder(k))
        return out

    def named(self, m, names):
        out = []
        for key, shape, ms in m.attrs:
            for x in ms:
                if x.name in names:
                    out.append(x.dom)
                out.extend(self.named(x, names))
        for k in m.kids:
            if k.name in names:
                out.append(k.dom)
            out.extend(self.named(k, names))
        return out

    def sameids(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is not y:
                return False
        return True

    def views(self, m):
        d = m.dom
        if str(d.textContent) != self.text(m):
            return 'textContent of %s is %r, the model has %r' % (m.name, str(d.textContent), self.text(m))
        pre = self.preorder(m)
        if not self.sameids(d.allChildNodes, [x.dom for x in pre]):
            return 'allChildNodes of %s' % m.name
        for names in (['one'], ['two'], ['three'], ['one', 'three']):
            got = d.getElementsByTagName(names if len(names) > 1 else names[0])
            want = self.named(m, names)
            if not self.sameids(got, want):
                return 'getElementsByTagName(%r) of %s gives %s, the model %s' % (names, m.name, [x.nodeName for x in got], [x.nodeName for x in want])
        for x in [m] + pre:
            if x.kind == 'e':
                if (x.kids and (x.dom.firstChild is not x.kids[0].dom or x.dom.lastChild is not x.kids[-1].dom)) or \
                   (not x.kids and (x.dom.firstChild is not None or x.dom.lastChild is not None)):
                    return 'firstChild or lastChild of %s' % x.name
                if str(x.dom.textContent) != self.text(x):
                    return 'textContent of %s' % x.name
                for i, k in enumerate(x.kids):
                    want = x.kids[i - 1].dom if i > 0 else None
                    if k.dom.previousSibling is not want:
                        return 'previousSibling of child %s of %s is %r' % (i, x.name, k.dom.previousSibling)
                    want = x.kids[i + 1].dom if i + 1 < len(x.kids) else None
                    if k.dom.nextSibling is not want:
                        return 'nextSibling of child %s of %s is %r' % (i, x.name, k.dom.nextSibling)
        return None

    def positions(self, m, limit):
        order = [m] + self.preorder(m)
        other = self.doc.createElement('other')
        if m.dom.compareDocumentPosition(other) != Node.DOCUMENT_POSITION_DISCONNECTED:
            return 'position of an unrelated node'
        step = 1
        if len(order) > limit:
            step = len(order) // limit + 1
        for n, x in enumerate(order):
            x.index = n
        chain = []
        for x in order:
            c = []
            y = x
            while y is not m:
                c.append(y.index)
                y = y.parent
            c.append(0)
            chain.append(c)
        for i in range(0, len(order), 1):
            for j in range(i % step, len(order), step):
                if i == j:
                    continue
                a, b = order[i], order[j]
                if j in chain[i]:
                    want = Node.DOCUMENT_POSITION_CONTAINS
                elif i in chain[j]:
                    want = Node.DOCUMENT_POSITION_CONTAINED_BY
                elif j < i:
                    want = Node.DOCUMENT_POSITION_PRECEDING
                else:
                    want = Node.DOCUMENT_POSITION_FOLLOWING
                got = a.dom.compareDocumentPosition(b.dom)
                if got != want:
                    return 'compareDocumentPosition of nodes %s and %s (document order) is %s, the model says %s' % (i, j, got, want)
        return None


def play(words, setup, ops, every, limit):
    w = World(words)
    for op in setup:
        w.apply(op)
    n = 0
    for op in ops:
        e = w.apply(op)
        if not e:
            e = w.shape(w.root)
        if not e and (n % every == every - 1 or n == len(ops) - 1):
            e = w.views(w.root) or w.positions(w.root, limit)
            for m in w.detached:
                e = e or w.shape(m)
        n += 1
        if e:
            return 'after %s of %s: %s' % (op, n, e)
    return None


class FragWorld(World):
    """the target is a detached fragment or the document"""
    def __init__(self, words, kind):
        World.__init__(self, words)
        if kind == 'f':
            self.root = Mod('f', '#document-fragment', self.doc.createDocumentFragment())
        else:
            self.root = Mod('d', '#document', self.doc)
        self.live = [self.root]


def playroot(words, kind, ops):
    w = FragWorld(words, kind)
    n = 0
    for op in ops:
        n += 1
        e = w.apply(op)
        if not e:
            e = w.rootshape(w.root, kind)
        if e:
            return 'after %s of %s: %s' % (op, n, e)
    return None


def rootshape(self, m, kind):
    d = m.dom
    if kind == 'd':
        return self.shape(m) or self.views(m) or self.positions(m, 30)
    listed = list(d.childNodes)
    if len(listed) != len(m.kids) or len(d) != len(m.kids):
        return 'the fragment lists %s children, the model %s' % (len(listed), len(m.kids))
    for i, k in enumerate(m.kids):
        c = listed[i]
        if k.dom is None:
            if c.nodeType != Node.TEXT_NODE or str(c) != k.text:
                return 'child %s is %r' % (i, c)
            k.dom = c
        if c is not k.dom or d[i] is not c:
            return 'child %s of the fragment' % i
        if c.ownerDocument is not self.doc:
            return 'ownerDocument'
        if k.kind == 'e':
            e = self.shape(k)
            if e:
                return e
    if str(d.textContent) != self.text(m):
        return 'textContent of the fragment is %r' % str(d.textContent)
    for names in (['one'], ['two'], ['three']):
        if not self.sameids(d.getElementsByTagName(names[0]), self.named(m, names)):
            return 'getElementsByTagName of the fragment'
    # inserting the fragment into an element moves the children there
    if len(m.kids) and len(m.kids) < 6:
        e = self.doc.createElement('zz')
        e.append(d)
        x = Mod('e', 'zz', e)
        x.kids = m.kids
        return self.shape(x)
    return None


World.rootshape = rootshape
'''

SPECS = ['s', 'e', 't', 'E', 'x', 'a0', 'a1', 'a2', 'a3', 'd0', 'f', 'fe', 'ft', 'fet', 'fete', 'fn', 'ftn', 'ftt']
ANCH = ['plasTeX/DOM/__init__.py:Node.%s' % x for x in ('append', 'insert', '__setitem__', 'insertBefore', 'insertAfter', 'replaceChild', 'removeChild',
        'pop', 'extend', 'normalize', 'cloneNode')] + ['plasTeX/DOM/__init__.py:_compareDocumentPosition', 'plasTeX/DOM/__init__.py:_getElementsByTagName',
        'plasTeX/DOM/__init__.py:_previousSibling', 'plasTeX/DOM/__init__.py:_nextSibling']
RULE_STEP = 'one editing operation on any small consistent tree leaves a consistent tree that agrees with the list model'
RULE_SHORT = 'every short edit history over a small pool agrees with the list model after every step'
RULE_LONG = 'long edit histories agree with the list model after every step'
RULE_ROOT = 'editing a detached fragment or the document agrees with the list model'


def L(ops):
    return ListV([tuple(o) for o in ops])


def allops(t, n, specs):
    """every operation on target t with n children"""
    for s in specs:
        yield ('append', t, s)
        for i in range(-n - 2, n + 3):
            yield ('insert', t, i, s)
        for i in range(n):
            yield ('before', t, i, s)
            yield ('after', t, i, s)
            yield ('replace', t, i, s)
        for i in range(-n - 1, n + 1):
            yield ('set', t, i, s)
        yield ('badref', t, s)
        if s[0] == 'f':
            yield ('extendf', t, s)
    for i in range(-n - 1, n + 1):
        yield ('pop', t, i)
    for i in range(n):
        yield ('remove', t, i)
        for j in range(n):
            if i != j:
                yield ('mbefore', t, i, j)
                yield ('mafter', t, i, j)
                yield ('mreplace', t, i, j)
    yield ('poplast', t)
    for s in ('', 'e,t', 't,t,e', 's,s', 'E,x', 'fet,t'):
        yield ('extend', t, s)
    yield ('normalize', t)
    yield ('clone', t)
    yield ('shallow', t)


# small trees: (setup operations, number of targets, children per target)
TREES = [
    [],
    [('append', 0, 'e')],
    [('append', 0, 't')],
    [('append', 0, 'e'), ('append', 0, 't')],
    [('append', 0, 't'), ('append', 0, 't')],
    [('append', 0, 't'), ('append', 0, 'e'), ('append', 0, 't')],
    [('append', 0, 'E'), ('append', 0, 't')],
    [('append', 0, 'x'), ('append', 0, 'E')],
    [('append', 0, 'a1'), ('append', 0, 't'), ('append', 0, 't')],
    [('append', 0, 'a2'), ('append', 0, 'a3')],
    [('append', 0, 't'), ('append', 0, 'e'), ('append', 0, 'e'), ('append', 0, 't')],
]


def tgt(tree):
    """(targets, children of each) computed on the model side"""
    kids = {0: 0}
    n = 1
    out = {0: 0}
    for op in tree:
        out[0] += 1
        s = op[2]
        if s[0] in 'ea':
            out[n] = 0
            n += 1
        elif s in 'Ex':
            out[n] = 2
            n += 1
            out[n] = 0
            n += 1
    return out


def rnd_ops(r, n):
    out = []
    for _ in range(n):
        k = r.choice(['append', 'append', 'appendChild', 'insert', 'insert', 'before', 'after', 'replace', 'remove', 'pop', 'set', 'set', 'extend', 'extendf',
                      'normalize', 'clone', 'shallow', 'badref', 'poplast', 'mbefore', 'mafter', 'mreplace'])
        t = r.randrange(12)
        s = r.choice(SPECS)
        if s == 'd0':
            s = 'd%d' % r.randrange(6)
        if k in ('append', 'appendChild', 'badref'):
            out.append((k, t, s))
        elif k in ('insert', 'set'):
            out.append((k, t, r.randint(-4, 4), s))
        elif k in ('before', 'after', 'replace'):
            out.append((k, t, r.randrange(8), s))
        elif k in ('mbefore', 'mafter', 'mreplace'):
            out.append((k, t, r.randrange(8), r.randrange(8)))
        elif k in ('remove',):
            out.append((k, t, r.randrange(8)))
        elif k == 'pop':
            out.append((k, t, r.randint(-3, 3)))
        elif k == 'extend':
            out.append((k, t, ','.join(r.choice(['e', 't', 's', 'fet', 'x', 'E']) for _ in range(r.randrange(4)))))
        elif k == 'extendf':
            out.append((k, t, r.choice(['f', 'fe', 'ftt', 'fn', 'ften'])))
        else:
            out.append((k, t))
    return out


def nid(x):
    return str(x).replace(' ', '')


def main(tier):
    C = Check('C06', 'abstract interpretation of the DOM editing code over edit histories (inductive steps from every small tree, exhaustive short '
              'histories, long random histories) with unknown text content, compared after every step with an independent list model')
    C.boot(DRIVER, ['plasTeX.DOM'])
    C.freeze()
    words = ListV([T('<w1>'), T('<w2>'), T('a<w3> '), T('<w4>'), T('b')])
    thorough = tier == 'thorough'

    def add(fam, rule, setup, ops, every=1, limit=40):
        C.expect('%s: %s | %s' % (fam, nid(setup), nid(ops)) if len(ops) < 6 else '%s %s' % (fam, nid(ops[:3])), rule, ANCH, 'play',
                 [words, L(setup), L(ops), every, limit], None, max_steps=20000000, time_limit=100)

    # inductive steps
    for tree in TREES:
        kids = tgt(tree)
        for t, n in kids.items():
            ops = list(allops(t, n, SPECS if thorough or t == 0 else SPECS[:4] + ['f', 'fet', 'd0']))
            for op in ops:
                add('step', RULE_STEP, tree, [op])
            if thorough:
                for op in ops[::3]:
                    for op2 in (('append', 0, 'd0'), ('normalize', 0), ('clone', 0)):
                        add('step2', RULE_STEP, tree, [op, op2])
    # exhaustive short histories on one pool
    pool = [('append', 0, 't'), ('append', 0, 'e'), ('append', 0, 'fte'), ('insert', 0, 0, 'fet'), ('insert', 0, -1, 't'), ('insert', 0, -1, 'fet'),
            ('append', 1, 'd0'), ('append', 1, 't'), ('set', 0, -1, 'fte'), ('set', 0, 0, 't'), ('pop', 0, 0), ('remove', 0, 1), ('replace', 0, 1, 'fet'),
            ('before', 0, 1, 'd0'), ('after', 0, 0, 'ft'), ('normalize', 0), ('clone', 0), ('extend', 0, 't,e'), ('append', 0, 'x'),
            ('mbefore', 0, 0, 2), ('mafter', 0, 0, 1), ('mbefore', 0, 1, 0), ('mreplace', 0, 0, 1)]
    k = 3 if thorough else 2
    for seq in itertools.product(pool, repeat=k):
        add('history', RULE_SHORT, [('append', 0, 'e'), ('append', 0, 't')], list(seq), limit=12)
    r = random.Random(1)
    for i in range(600 if thorough else 0):
        add('history5 %d' % i, RULE_SHORT, [('append', 0, 'e'), ('append', 0, 't')], [r.choice(pool) for _ in range(5)])
    # long histories
    for i in range(400 if thorough else 60):
        add('long %d' % i, RULE_LONG, [], rnd_ops(r, 40 if thorough else 25), every=5, limit=10)
    for i in range(60 if thorough else 24):
        for kind in ('f', 'd'):
            ops = [o for o in rnd_ops(r, 12) if o[0] not in ('normalize', 'clone', 'shallow')]
            C.expect('root %s %d' % (kind, i), RULE_ROOT, ANCH, 'playroot', [words, kind, L(ops)], None, max_steps=20000000, time_limit=100)
    return C.finish(tier)
