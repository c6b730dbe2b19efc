"""C04: scoping and stack balance, against a list-of-frames model and TeX's grouping rules."""
import itertools
import random
from .core import *
from . import minitex

TITLE = ('(a) Every history of push/pop/local and global definition/let/catcode operations up to a bound is interpreted abstractly on the Context '
         'of /repo and every lookup (names, aliases, category codes, depth) is compared with a list-of-frames model. (b) Program schemas nesting '
         'groups, environments, math, cells and command arguments with local/global definitions, aliases, catcode changes, counters and switches '
         'are interpreted and compared with a reference TeX evaluator: text probes inside and after each scope, final category codes and stack depth.')

DRIVER = r'''
import plasTeX as _p
from plasTeX.Context import Context as _C, ContextItem as _I

def run(tex, src, chars):
    ctx = tex.ownerDocument.context
    before = len(ctx.contexts)
    tex.input(src)
    t = tex.parse().textContent
    return (t, len(ctx.contexts) - before, ctx.depth - len(ctx.contexts), ctx.top is ctx.contexts[-1],
            [ctx.whichCode(c) for c in chars], ctx.categories is ctx.contexts[-1].categories)

class _Doc(object):
    pass

def macro(i):
    return type('m%d' % i, (_p.Command,), {'macroName': None})

def bare():
    c = _C(load=False)
    return c

class EnvA(_p.Environment):
    pass
class EnvB(_p.Environment):
    pass
class CmdC(_p.Command):
    pass
ENVS = {'A': EnvA, 'B': EnvB, 'C': CmdC}

def obj(kind, mode, parent):
    o = ENVS[kind]()
    o.macroMode = mode
    o.parentNode = parent
    return o

def look(c, names, chars):
    out = []
    for n in names:
        try:
            v = c.top[n].tag
        except KeyError:
            v = None
        out.append((v, n in c.top, n in list(c.top.keys()), c.top.get(n, None) is not None, n in c))
        g = c.get_let(n)
        out.append(g if type(g) is str and g == n else str(g) + '!')
    out.append([c.whichCode(ch) for ch in chars])
    out.append(len(c.contexts))
    out.append(c.depth)
    return out

def mk(name, tag):
    return type(name, (_p.Definition,), {'tag': tag, 'args': [], 'definition': []})

def history(c, ops, names, chars):
    """apply the operations to a context; observation after each one"""
    stack = []
    out = []
    k = 0
    for op in ops:
        k += 1
        o = op[0]
        if o == 'push':
            c.push()
            stack.append(None)
        elif o == 'begin':
            parent = None
            for s in stack:
                if s is not None:
                    parent = s
            e = obj(op[1], _p.Macro.MODE_BEGIN, parent)
            c.push(e)
            stack.append(e)
        elif o == 'pop':
            e = stack.pop()
            if e is None:
                c.pop()
            else:
                parent = None
                for s in stack:
                    if s is not None:
                        parent = s
                if op[1]:
                    c.pop(e)
                else:
                    c.pop(obj(type(e).__name__[-1], _p.Macro.MODE_END, parent))
        elif o == 'local':
            c.addLocal(op[1], mk(op[1], k))
        elif o == 'global':
            c.addGlobal(op[1], mk(op[1], k))
        elif o == 'set':
            c[op[1]] = mk(op[1], k)
        elif o == 'newdef':
            c.newdef(op[1], [], [Letter('d')], local=True)
            c.top[op[1]].tag = k
        elif o == 'gnewdef':
            c.newdef(op[1], [], [Letter('d')], local=False)
            c.top[op[1]].tag = k
        elif o == 'let':
            c.let(EscapeSequence(op[1]), EscapeSequence(op[2]))
        elif o == 'glet':
            c.let(EscapeSequence(op[1]), EscapeSequence(op[2]), local=False)
        elif o == 'letc':
            c.let(EscapeSequence(op[1]), Letter('t%d' % k))
        elif o == 'gletc':
            c.let(EscapeSequence(op[1]), Letter('t%d' % k), local=False)
        elif o == 'cat':
            c.catcode(op[1], op[2])
        elif o == 'verb':
            c.setVerbatimCatcodes()
        out.append(look(c, names, chars))
    return out

def histories(tex, seqs, names, chars):
    out = []
    for ops in seqs:
        out.append(history(_C(load=False), ops, names, chars))
    return out
'''
A_CTX = ['plasTeX/Context.py:Context.push', 'plasTeX/Context.py:Context.pop', 'plasTeX/Context.py:ContextItem.__getitem__', 'plasTeX/Context.py:Context.catcode',
         'plasTeX/Context.py:Context.addLocal', 'plasTeX/Context.py:Context.addGlobal', 'plasTeX/Context.py:Context.let', 'plasTeX/Context.py:Context.get_let',
         'plasTeX/Context.py:Context.newdef', 'plasTeX/Context.py:Context.createContext', 'plasTeX/Context.py:Context.mapMethods']
A_PRG = ['plasTeX/Base/TeX/Text.py:bgroup.invoke', 'plasTeX/Base/TeX/Text.py:egroup.invoke', 'plasTeX/__init__.py:Macro.invoke', 'plasTeX/__init__.py:Environment.invoke',
         'plasTeX/Base/TeX/Primitives.py:MathShift.invoke', 'plasTeX/Base/LaTeX/Arrays.py:Array.CellDelimiter.invoke', 'plasTeX/Base/LaTeX/Arrays.py:Array.EndRow.invoke',
         'plasTeX/TeX.py:TeX.createSubProcess', 'plasTeX/TeX.py:TeX.endSubProcess'] + A_CTX[:2]

CHARS = '!@?{%a'
BASECAT = {'!': 12, '@': 12, '?': 12, '{': 1, '%': 14, 'a': 11}


class Model(object):
    """frames of (definitions, aliases, category table)"""

    def __init__(self):
        self.fr = [({}, {}, dict(BASECAT))]
        self.k = 0

    def find(self, n):
        for f in reversed(self.fr):
            if n in f[0]:
                return f[0][n]
        return None

    def alias(self, n):
        for f in reversed(self.fr):
            if n in f[1]:
                return f[1][n] + '!'
            if n in f[0]:
                break
        return n

    def apply(self, op):
        self.k += 1
        o = op[0]
        if o in ('push', 'begin'):
            self.fr.append(({}, {}, self.fr[-1][2]))
        elif o == 'pop':
            self.fr.pop()
        elif o == 'local':
            self.fr[-1][0][op[1]] = self.k
        elif o in ('global', 'set'):
            self.fr[0][0][op[1]] = self.k
        elif o in ('newdef', 'gnewdef'):
            if o[0] == 'g':
                for f in self.fr:
                    f[0].pop(op[1], None)
                    f[1].pop(op[1], None)
            f = self.fr[0 if o[0] == 'g' else -1]
            f[0][op[1]] = self.k
            f[1].pop(op[1], None)
        elif o in ('let', 'glet'):
            v = self.find(op[2])
            if v is None:
                raise minitex.Bad('let of undefined')
            if o[0] == 'g':
                for f in self.fr:
                    f[0].pop(op[1], None)
                    f[1].pop(op[1], None)
            f = self.fr[0 if o[0] == 'g' else -1]
            f[1].pop(op[1], None)
            f[0][op[1]] = v
        elif o in ('letc', 'gletc'):
            if o[0] == 'g':
                for f in self.fr:
                    f[1].pop(op[1], None)
                    if f is not self.fr[0]:
                        f[0].pop(op[1], None)
            self.fr[0 if o[0] == 'g' else -1][1][op[1]] = 't%d' % self.k
        elif o == 'cat':
            d, l, c = self.fr[-1]
            c = dict(c)
            c[op[1]] = op[2]
            self.fr[-1] = (d, l, c)
        elif o == 'verb':
            d, l, c = self.fr[-1]
            self.fr[-1] = (d, l, {ch: (11 if ch == 'a' else 12) for ch in CHARS})

    def look(self, names):
        out = []
        for n in names:
            v = self.find(n)
            out.append((v, v is not None, v is not None, v is not None, v is not None))
            out.append(self.alias(n))
        out.append([self.fr[-1][2][c] for c in CHARS])
        out.append(len(self.fr))
        out.append(len(self.fr))
        return out


def truthy(x):
    return bool(x)


def hist_want(seqs, names):
    out = []
    for ops in seqs:
        m = Model()
        res = []
        for op in ops:
            m.apply(op)
            res.append(m.look(names))
        out.append(res)

    def pred(got, facts):
        if not isinstance(got, list):
            return 'UNDECIDED'
        for ops, g, w in zip(seqs, got, out):
            for i, (a, b) in enumerate(zip(g, w)):
                a2 = norm(a)
                b2 = norm(b)
                if a2 != b2:
                    for x, y, what in zip(a2, b2, labels(names)):
                        if x != y:
                            return 'history %s\nafter operation %d (%s): %s is %s, prescribed %s' % (
                                ' '.join('-'.join(map(str, o)) for o in ops), i + 1, '-'.join(map(str, ops[i])), what, x, y)
        return None
    return pred


def labels(names):
    out = []
    for n in names:
        out += ['lookup of \\%s (definition number, in top, in keys, get, in context)' % n, 'alias of \\%s' % n]
    return out + ['category codes of ' + CHARS, 'len(contexts)', 'depth']


def norm(o):
    return [tuple([x[0]] + [bool(y) for y in x[1:]]) if isinstance(x, tuple) else x for x in o]


def valid(ops):
    st = []
    m = Model()
    for op in ops:
        try:
            if op[0] == 'pop':
                if not st:
                    return False
                if st.pop() is None and op[1]:
                    return False
            elif op[0] == 'push':
                st.append(None)
            elif op[0] == 'begin':
                st.append(op[1])
            m.apply(op)
        except minitex.Bad:
            return False
    return True


# ------------------------------------------------------------------------------------------------ programs
SETUP = (r'\makeatletter\def\pp{<P>.}\def\pp@x{<Q>.}\makeatother\def\pa{<a0>}\newcommand\pb{<b0>}\def\pc#1{(#1)}\newcounter{cn}\newif\ifsw\def\pg{<g0>}\let\pd=+'
         r'\newenvironment{ev}{<eb>\def\pa{<ea>}}{<ee>\pa}\newenvironment{ew}[2][<eo>]{(#1#2)\def\pb{#1}}{\pb\gdef\pg{<eg>}}\newcommand\pid[1]{#1}')
PROBE = r'/\pa.\pb.\pc{<q>}\pp@x?\pg.\ifsw <t>\else <f>\fi.\arabic{cn}\pd/'
PROBEM = PROBE      # in math

KINDS = {
    'brace': '{%s}', 'begingroup': r'\begingroup %s\endgroup ', 'bgroup': r'\bgroup %s\egroup ', 'center': r'\begin{center}%s\end{center}', 'quote': r'\begin{quote}%s\end{quote}',
    'ev': r'\begin{ev}%s\end{ev}', 'ew': r'\begin{ew}[<k>]{<l>}%s\end{ew}', 'ew0': r'\begin{ew}{<l>}%s\end{ew}', 'math': '$%s$', 'dollars': '$$%s$$', 'paren': r'\(%s\)', 'brack': r'\[%s\]',
    'equation': r'\begin{equation}%s\end{equation}', 'itemize': r'\begin{itemize}\item %s\item <i>\end{itemize}', 'itemize2': r'\begin{enumerate}\item <i>\item %s\end{enumerate}',
    'cell': r'\begin{tabular}{cc}%s&<c>\\<d>&<e>\end{tabular}', 'cell2': r'\begin{tabular}{ll}<c>&%s\\<d>&<e>\end{tabular}', 'cell3': r'\begin{tabular}{ll}<c>&<d>\\%s&<e>\\\end{tabular}',
    'cell4': r'\begin{tabular}{ll}<c>&<d>\\<e>&%s\end{tabular}', 'textbf': r'\textbf{%s}', 'mbox': r'\mbox{%s}', 'emph': r'\emph{%s}', 'id': r'\pid{%s}',
}
MATH = ('math', 'dollars', 'paren', 'brack', 'equation')
ARG = ('textbf', 'mbox', 'emph', 'id')
CELL = ('cell', 'cell2', 'cell3', 'cell4')
BLOCK = ('center', 'quote', 'itemize', 'itemize2', 'equation', 'dollars', 'brack') + CELL


def ops(r, n, inarg):
    """one state change; n makes fresh words"""
    w = '<n%d>' % n
    o = [r'\def\pa{%s}' % w, r'\gdef\pa{%s}' % w, r'\global\def\pb{%s}' % w, r'\renewcommand\pb{%s}' % w, r'\let\pa\pb ', r'\global\let\pa\pg ', r'\def\pc#1{%s#1}' % w, r'\stepcounter{cn}',
         r'\addtocounter{cn}{3}', r'\swtrue ', r'\swfalse ', r'\catcode`\@=11 ', r'\catcode`\@=12 ', r'\makeatletter ', r'\makeatother ', r'\catcode`\?=9 ', r'\catcode`\?=12 ', r'\def\pg{%s}' % w,
         r'\newcommand\pn%s{%s}\pn%s{}' % (letters(n), w, letters(n)), r'\renewenvironment{ev}{%s}{%s}' % (w, w.replace('n', 'z')), r'\newenvironment{zq%s}{\def\pa{%s}}{}\begin{zq%s}\pa\end{zq%s}' % (letters(n), w, letters(n), letters(n)),
         r'\setcounter{cn}{%d}' % (n % 7), r'\let\pg\pp ', r'\renewcommand\pc[1]{%s[#1]}' % w]
    return o


def letters(n):
    return ''.join(chr(97 + int(c)) for c in str(n))


class Gen(object):
    def __init__(self, r):
        self.r, self.n = r, 0

    def op(self, inarg):
        self.n += 1
        return self.r.choice(ops(self.r, self.n, inarg))

    def seq(self, depth, math, arg, cell=False):
        r = self.r
        s = ''
        for _ in range(r.choice((1, 2, 2, 3, 4))):
            k = r.random()
            if k < .4:
                s += self.op(arg)
            elif k < .6 or depth == 0:
                s += PROBE if r.random() < .8 else '<s>'
            else:
                while True:
                    kind = r.choice(list(KINDS))
                    if math and kind in MATH + BLOCK + ('ev', 'ew', 'ew0'):
                        continue
                    if (arg or cell) and kind in BLOCK and kind not in CELL:
                        continue
                    break
                body = self.seq(depth - 1, (math or kind in MATH) and kind != 'mbox', arg or kind in ARG, cell or kind in CELL)
                s += KINDS[kind] % body
        return s + PROBE

    def program(self):
        return SETUP + self.seq(self.r.choice((2, 3, 3, 4)), False, False)


def main(tier):
    C = Check('C04', TITLE)
    C.boot(DRIVER)
    ready = C.prepare(SETUP)
    C.freeze()
    thorough = tier == 'thorough'
    V = os.environ.get('VERIF_VERBOSE')
    names = ['nx', 'ny', 'nz']
    # ---- (a) histories
    base = [('push',), ('begin', 'A'), ('pop', True), ('local', 'nz'), ('global', 'nz'), ('newdef', 'nx'), ('gnewdef', 'nx'), ('let', 'ny', 'nx'), ('letc', 'nx'), ('gletc', 'nx'),
            ('cat', '!', 13), ('cat', '!', 11), ('pop', False)]
    n = 4 if thorough else 3
    groups = {}
    for L in (n,):
        for seq in itertools.product(base, repeat=L):
            if valid(seq):
                groups.setdefault(seq[:1 if L < 4 else 2], []).append(list(seq))

    def addh(tag, rule, seqs):
        C.expect('%s' % tag, rule, A_CTX, 'histories', [C.tex, ListV([ListV([op for op in s]) for s in seqs]), ListV(names), CHARS], hist_want(seqs, names), max_steps=30000000, time_limit=200)
    for pre, seqs in groups.items():
        for i in range(0, len(seqs), 40):
            addh('histories %s #%d' % (pre, i), 'context operations against the frame model', seqs[i:i + 40])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    full = base + [('push',), ('push',), ('begin', 'B'), ('begin', 'C'), ('set', 'nz'), ('local', 'nw'), ('local', 'nz'), ('global', 'nz'), ('let', 'nx', 'nz'), ('glet', 'ny', 'nz'), ('newdef', 'ny'), ('gnewdef', 'ny'), ('let', 'nx', 'ny'), ('glet', 'nx', 'ny'),
                   ('glet', 'ny', 'nx'), ('letc', 'ny'), ('gletc', 'ny'), ('cat', '@', 11), ('cat', '?', 9), ('cat', '{', 12), ('cat', '%', 12), ('cat', 'a', 12), ('cat', '!', 12), ('verb',), ('pop', True), ('pop', False)]
    r = random.Random('h%d' % seed)
    batch = []
    for _ in range(3000 if thorough else 300):
        while True:
            s = []
            m = Model()
            st = []
            L = r.choice((6, 8, 10, 14))
            while len(s) < L:
                op = r.choice(full)
                if op[0] == 'pop' and not st:
                    continue
                if op[0] == 'pop' and st[-1] is None and op[1]:
                    op = ('pop', False)
                try:
                    m.apply(op)
                except minitex.Bad:
                    continue
                if op[0] == 'pop':
                    st.pop()
                elif op[0] in ('push', 'begin'):
                    st.append(None if op[0] == 'push' else op[1])
                s.append(op)
            break
        batch.append(s)
    for i in range(0, len(batch), 10):
        addh('random histories %d.%d' % (seed, i), 'context operations against the frame model', batch[i:i + 10])
    # ---- (b) programs
    seen = set()

    def prog(rule, src, tag=''):
        if src in seen:
            return False
        seen.add(src)
        try:
            want, cats = evaluate(src)
        except (minitex.Bad, RecursionError) as e:
            if V and rule != 'r':
                print('   not a schema (%s): %s' % (e, src.replace(SETUP, '')))
            return False
        C.expect('%s%s: %s' % (rule.split()[0], tag, src.replace(SETUP, '').replace(PROBE, '@P')), rule, A_PRG, 'run',
                 [ready, T(src[len(SETUP):]), '!@?'] if not isinstance(ready, Broken) else [C.tex, T(src), '!@?'], prog_is(want, cats, src.replace(SETUP, '')))
        return True
    i = 0
    nops = len(ops(None, 1, False))
    for k in KINDS:
        for j in range(nops):
            op = ops(None, 5, False)[j]
            if k in ARG and j >= len(ops(None, 5, True)):
                continue
            prog('scope %s' % ('restores what was in force before it'), SETUP + '<b>' + KINDS[k] % (PROBE + op + PROBE) + '<m>' + PROBE + '<z>')
    for k1 in KINDS:
        for k2 in KINDS:
            if k1 in MATH and k2 in MATH + BLOCK + ('ev', 'ew', 'ew0') or k1 in ARG + CELL and k2 in BLOCK and k2 not in CELL:
                continue
            arg = k1 in ARG or k2 in ARG
            for rep in range(6 if thorough else 1):
                i += 1
                o1, o2, o3 = (ops(None, 10 + d, arg) for d in range(3))
                prog('nested scopes restore', SETUP + o3[(i * 7) % len(o3)] + KINDS[k1] % (o1[(i * 5) % len(o1)] + KINDS[k2] % (o2[(i * 3 + 1) % len(o2)] + PROBE) + PROBE) + PROBE)
    # deep nests
    for ks in (('brace',) * 9, ('begingroup', 'brace') * 4, ('ev', 'brace', 'quote', 'begingroup'), ('itemize', 'ev', 'cell', 'brace', 'math', 'mbox', 'math'), ('textbf', 'emph', 'mbox', 'math', 'mbox', 'brace'),
               ('cell', 'brace', 'cell2', 'math', 'brace'), ('itemize', 'itemize2', 'itemize', 'center', 'ew', 'brace')):
        s = PROBE
        for d, k in enumerate(reversed(ks)):
            o = ops(None, 20 + d, True)
            s = PROBE + KINDS[k] % (o[(d * 5) % len(o)] + s) + PROBE
        prog('deep nests restore', SETUP + s)
    count = 6000 if thorough else 350
    k = made = 0
    while made < count and k < 6 * count:
        k += 1
        if prog('r', Gen(random.Random('%d/%d' % (seed, k))).program(), ' %d.%d' % (seed, k)):
            made += 1
    # ---- (c) aliases of characters
    for cid, src in (('alias-of-a-character-redefined-by-let', r'\let\pd=+<a>\pd{\let\pd=z\pd}\pd'), ('alias-of-a-character-redefined-by-def', r'\let\pd=+<a>\pd{\def\pd{<n>}\pd}\pd'),
                     ('alias-of-a-character-used-in-a-body', r'\let\pd=+\def\pq{\pd <a>}{\let\pd=z\pq}\pq')):
        want, cats = evaluate(src)
        C.expect(cid, 'an alias of a character can be redefined inside a group and is back afterwards', A_PRG, 'run', [C.tex, T(src), '!@?'], prog_is(want, cats, src))
    return C.finish(tier)


def evaluate(src):
    t = minitex.TeX()
    s = t.run(src)
    return minitex.squash(s), [t.cat(c) for c in '!@?']


def prog_is(want, cats, src):
    def check(out, facts):
        if not isinstance(out, tuple) or not isinstance(out[0], str):
            return 'UNDECIDED'
        got = minitex.squash(out[0])
        if got != want:
            return 'program    %s\nprescribed %s\ncomputed   %s' % (src, want, got)
        if out[1] != 0:
            return 'program    %s\nleaves %+d frames on the context stack' % (src, out[1])
        if out[2] != 0 or not out[3] or not out[5]:
            return 'program    %s\ndepth, top or categories do not belong to the last frame' % src
        if out[4] != cats:
            return 'program    %s\ncategory codes of !@? afterwards %s, prescribed %s' % (src, out[4], cats)
        return None
    return check
