"""C01: tokenizer as a finite transducer over category classes."""
from .core import *

TITLE = ('Tokenizer.__iter__/iterchars and Context.whichCode/catcode/setVerbatimCatcodes are evaluated abstractly on input made of '
         'unknown characters (each carrying a (co)finite set of possible values that path conditions refine), from each of the three '
         'tokenizer states; every abstract path yields a class of inputs together with the tokens emitted, which are compared with a '
         'reference transducer for TeX lexical rules. whichCode is decided for arbitrary tables (16 unknown strings).')

DRIVER = r'''
def lex(ctx, src, state):
    tok = Tokenizer(src, ctx)
    tok.state = state
    out = []
    for t in tok:
        out.append((t.__class__.__name__, t.catcode, t))
    return (out, tok.state)

def lex_push(ctx, src, state, pre, toks):
    """tokens pushed back come first and unchanged"""
    tok = Tokenizer(src, ctx)
    tok.state = state
    out = []
    n = 0
    for t in tok:
        out.append((t.__class__.__name__, t.catcode, t))
        n += 1
        if n == pre:
            tok.pushTokens(toks)
    return (out, tok.state)

def lex_recat(ctx, src, state, n, char, code):
    """change one category between the n-th and the next token"""
    tok = Tokenizer(src, ctx)
    tok.state = state
    out = []
    i = 0
    for t in tok:
        out.append((t.__class__.__name__, t.catcode, t))
        i += 1
        if i == n:
            ctx.catcode(char, code)
    return (out, tok.state)

def which(ctx, table, char):
    ctx.categories = table
    return ctx.whichCode(char)

def setcode(ctx, char, code, other):
    before = ctx.categories
    b = list(before)
    was = ctx.whichCode(other)
    ctx.catcode(char, code)
    return (ctx.whichCode(char), ctx.whichCode(other) == was, ctx.categories is ctx.contexts[-1].categories, list(before) == b)

def setcode2(ctx, char, code1, code2):
    ctx.catcode(char, code1)
    ctx.catcode(char, code2)
    n = 0
    for c in ctx.categories:
        n += c.count(char)
    return (ctx.whichCode(char), n)

def verbcat(ctx, char):
    before = ctx.categories
    b = list(before)
    ctx.setVerbatimCatcodes()
    return (ctx.whichCode(char), ctx.categories is ctx.contexts[-1].categories, list(before) == b)

def classes(Tk):
    return [(i, None if c is None else c.catcode) for i, c in enumerate(Tk.tokenClasses)]

def letstream(ctx, src, name, alias):
    ctx.let(EscapeSequence(name), alias)
    tok = Tokenizer(src, ctx)
    return [(t.__class__.__name__, t.catcode, t) for t in tok]
'''

F = 'plasTeX/Tokenizer.py'
NAMES = {0: 'EscapeSequence', 1: 'BeginGroup', 2: 'EndGroup', 3: 'MathShift', 4: 'Alignment', 6: 'Parameter', 7: 'Superscript',
         8: 'Subscript', 10: 'Space', 11: 'Letter', 12: 'Other'}
TABLE = ['\\!', '{', '}', '$', '&', '\n|', '#', '^', '_', '\x00\x01', ' \t\r\f', None, '', '~', '%', '\x7f']
LET = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'


class Skip(Exception):
    pass


def reference(units, state, table, prevpar=False):
    """units: list of (class, printable unit, is_newline).  TeX's rules; returns (tokens, state)"""
    out = []
    i = 0
    n = len(units)
    N, M, S = 1, 2, 4

    def trig(i):
        """^^X ?"""
        return i + 1 < n and units[i][0] == 7 and units[i + 1][0] == 7 and units[i][1] == units[i + 1][1]
    while i < n:
        c, u, nl = units[i]
        if trig(i):
            raise Skip()
        i += 1
        if c in (9, 15):
            continue
        if c == 10:
            if state == M:
                out.append(('Space', 10, ' '))
                state = S
            continue
        if c == 5:
            if not nl:
                while i < n and not units[i][2]:
                    i += 1
                i += 1
            if state == M:
                out.append(('Space', 10, ' '))
            elif state == N:
                out.append(('EscapeSequence', 0, 'par'))
            state = N
            continue
        if c == 14:
            while i < n and not units[i][2]:
                i += 1
            i += 1
            state = N
            continue
        if c == 0:
            if i >= n:
                out.append(('EscapeSequence', 0, ''))
                state = M
                continue
            if trig(i):
                raise Skip()
            c2, u2, nl2 = units[i]
            if c2 == 11:
                name = ''
                while i < n and units[i][0] == 11:
                    name += units[i][1]
                    i += 1
                if i < n and trig(i):
                    raise Skip()
                out.append(('EscapeSequence', 0, name))
                state = S
            elif c2 == 5:
                i += 1
                if not nl2:
                    while i < n and not units[i][2]:
                        i += 1
                    i += 1
                out.append('CSNL')
                state = N
            else:
                i += 1
                out.append(('EscapeSequence', 0, u2))
                state = S if c2 == 10 else M
            continue
        if c == 13:
            out.append(('EscapeSequence', 0, 'active::' + u))
            state = M
            continue
        out.append((NAMES[c], c, u))
        state = M
    return out, state


def collapse(ts):
    out = []
    for t in ts:
        if t == ('EscapeSequence', 0, 'par') and out and out[-1] == t:
            continue
        out.append(t)
    return out


def match(got, want):
    got = collapse([tuple(x) for x in got])
    want = collapse(want)
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w == 'CSNL':
            if g not in (('Space', 10, ' '), ('EscapeSequence', 0, ' '), ('EscapeSequence', 0, '\n'), ('EscapeSequence', 0, '\r')):
                return False
        elif g != w:
            return False
    return True


def classify(table, m_facts, chs):
    """category class of each unit from its domain; None when the domain is not uniform"""
    full = {}
    for k, s in enumerate(table):
        for ch in s:
            full[ch] = k
    units = []
    for c in chs:
        if isinstance(c, str):
            units.append((full.get(c, 12), c, c == '\n'))
            continue
        neg, D = m_facts.get(('dom', c), (True, frozenset()))
        if neg:
            rest = set(full) - D
            cls = set(full[x] for x in rest) | {12}
            nls = {x == '\n' for x in rest} | {False}
        else:
            cls = set(full.get(x, 12) for x in D)
            nls = {x == '\n' for x in D}
        name = '<%s>' % c.name if neg or len(D) != 1 else next(iter(D))
        units.append((cls, name, nls))
    # split non-uniform units into alternatives
    alts = [[]]
    for u in units:
        if isinstance(u[0], set):
            opts = []
            for k in u[0]:
                if k == 5 or (k == 12 and True in u[2] and False):
                    for nl in u[2]:
                        opts.append((k, u[1], nl))
                else:
                    opts.append((k, u[1], False if k != 5 else True))
        else:
            opts = [u]
        alts = [a + [o] for a in alts for o in opts]
        if len(alts) > 9000:
            return None
    return alts


def main(tier):
    C = Check('C01', TITLE)
    m = C.boot(DRIVER)
    ctx = m.eval(m.compile_driver('def f(tex):\n    return tex.ownerDocument.context\n')['f'], [C.tex])
    drv = m.compile_driver('def f(ctx, t):\n    ctx.categories = t\n    ctx.contexts[-1].categories = t\n')['f']
    DEF = list(m.modules['plasTeX.Tokenizer'].dict['DEFAULT_CATEGORIES'].items)
    tables = {}
    base = [x for x in TABLE]
    base[11] = LET + '@'
    tables['ext'] = base
    std = ['\\', '{', '}', '$', '&', '\n', '#', '^', '_', '\x00', ' \t\r\f', LET, '', '~', '%', '']
    C.add('default-table', 'the initial category table is the standard one', F + ':Tokenizer', lambda m: default_table(m, DEF))
    tables['std'] = std
    states = {'N': None, 'M': None, 'S': None}
    tk = m.modules['plasTeX.Tokenizer'].dict['Tokenizer']
    st = {}
    for s in states:
        v = tk.dict.get('STATE_' + s)
        st[s] = v
    code = {'N': 1, 'M': 2, 'S': 4}
    back = {v: code[k] for k, v in st.items()}
    C.freeze()
    lex = C.g['lex']

    def lexob(id, tname, state, chs, entry='lex', extra=(), post=None, max_paths=60000, pin=None, tl=200):
        table = tables[tname]

        def want(out, facts):
            got, end = out
            u2 = chs
            alts = classify(table, facts, chs)
            if alts is None:
                return 'UNDECIDED'
            for a in alts:
                try:
                    ref, rend = reference(a, code[state], table)
                except Skip:
                    continue
                if post:
                    ref, rend = post(a, ref, rend)
                    if ref is None:
                        continue
                if not match(got, ref):
                    return 'input %s in state %s: tokens %s, TeX prescribes %s' % (
                        ' '.join('%s[cat %s]' % (x[1] if x[1] != '\n' else '\\n', x[0]) for x in a), state, [t[2] if t[0] == 'EscapeSequence' and 0 else t for t in got], ref)
                if rend is not None and back.get(end) != rend and chs:
                    return 'input %s in state %s: final state %s, TeX prescribes %s' % (
                        ' '.join('%s[cat %s]' % (x[1], x[0]) for x in a), state, end, {v: k for k, v in code.items()}[rend])
            return None

        def run(m):
            m.eval(drv, [ctx, ListV(table)])
            rs = m.explore(C.g[entry], [ctx, mkstr(chs) if chs else '', st[state]] + list(extra), None,
                           lambda m, k, v: obs(m, v) if k == 'return' else None, max_paths=max_paths, init_facts=pin, max_steps=400000, time_limit=tl)
            return judge(m, rs, want)
        C.add(id, 'token stream from state %s equals TeX\'s for every character class sequence' % state,
              [F + ':Tokenizer.__iter__', F + ':Tokenizer.iterchars'], run)

    # --- all class sequences of length n, split by the class of the first character
    maxn = 4 if tier == 'quick' else 5
    classes = {}
    for k in range(16):
        s = tables['ext'][k]
        if s:
            for piece in ([s] if k != 5 else ['\n', '|']):
                classes['%d%s' % (k, 'x' if piece == '|' else '')] = (False, frozenset(piece))
    classes['12'] = (True, frozenset(''.join(tables['ext'])))
    for s in 'NMS':
        lexob('empty/%s' % s, 'ext', s, [])
        for n in range(1, maxn + 1):
            for k, d in classes.items():
                chs = [Ch('x%d' % i) for i in range(n)]
                if n < 4:
                    lexob('len%d/%s/cat%s' % (n, s, k), 'ext', s, chs, pin={('dom', chs[0]): d})
                else:
                    for k2, d2 in classes.items():
                        lexob('len%d/%s/cat%s,%s' % (n, s, k, k2), 'ext', s, chs, pin={('dom', chs[0]): d, ('dom', chs[1]): d2}, tl=300)
        # standard table, two unknown characters
        lexob('std/len2/%s' % s, 'std', s, [Ch('x0'), Ch('x1')])
    # --- longer schemas around the multi-character rules
    A, B, D = Ch('a'), Ch('b'), Ch('c')
    schemas = {
        'cw': ['\\', 'f', 'o', A, B], 'cw-at': ['\\', 'f', '@', A, B], 'cw-esc2': ['!', 'f', A, '!', 'g', B],
        'cw-blank': ['\\', 'f', ' ', ' ', '\n', A], 'cw-blank2': ['\\', 'f', '\n', '\n', A], 'cw-blank3': ['\\', 'f', '\n', ' ', '\n', A],
        'par': [A, '\n', '\n', '\n', B], 'par-blank': [A, '\n', ' ', '\t', '\n', B], 'par-explicit': ['\\', 'p', 'a', 'r', A, '\n', B],
        'comment': [A, '%', B, D, '\n', ' ', 'z'], 'comment2': ['a', '%', '\n', '\n', A], 'comment3': ['%', A, '\n', '%', B, '\n', D],
        'comment-cw': ['\\', 'f', '%', A, '\n', ' ', B], 'comment-noeol': ['%', A, B, D],
        'runs': ['a', ' ', '\t', ' ', A, ' ', '\n', ' ', 'b', B], 'eol2': ['a', '|', A, B, '\n', D], 'eol2n': ['\n', '|', A, '\n', B],
        'cs': ['\\', A, ' ', ' ', B], 'cs2': ['\\', A, '\n', B, '\n', D], 'cs-eol': ['\\', '\n', A, B], 'cs-eol-par': ['\\', '\n', '\n', A],
        'ignored': ['a', '\x01', ' ', '\x01', ' ', A, B], 'ignored-cw': ['\\', 'f', '\x01', 'g', A], 'ignored-cs': ['\\', '\x01', A, B],
        'invalid': ['a', '\x7f', '\n', '\x7f', '\n', A], 'active': ['~', ' ', A, '~', B], 'esc-eof': [A, '\\'],
    }
    for nm, chs in schemas.items():
        for s in 'NMS':
            lexob('schema/%s/%s' % (nm, s), 'ext', s, chs)
    # --- ^^X notation
    def decoded(x):
        o = ord(x)
        return chr(o - 64) if o >= 64 else chr(o + 64)
    for o in range(128):
        x = chr(o)
        for s in ('N', 'M') if tier == 'quick' else 'NMS':
            for ctxn, pre, suf in (('plain', [], [A]), ('afterspace', ['a', ' '], [' ', A]), ('cs', ['\\'], [A])):
                if tier == 'quick' and ctxn == 'afterspace' and o % 4:
                    continue
                hexd = x in '0123456789abcdef'
                hatob(C, m, ctx, drv, tables['ext'], st, code, back, 'hat/%s/%d/%s' % (ctxn, o, s), s, pre, x, decoded(x), suf,
                      exclude_hex=hexd)
    for s in 'NMS':
        for nm, chs in (('eof1', ['a', '^']), ('eof2', ['a', '^', '^']), ('eof3', ['^', '^'])):
            noraise(C, m, ctx, drv, tables['ext'], st, 'hat/%s/%s' % (nm, s), s, chs, nm)
        noraise(C, m, ctx, drv, tables['ext'], st, 'total/hat/%s' % s, s, ['^', '^', '^', '^', A, '^'], 'any')
        noraise(C, m, ctx, drv, tables['ext'], st, 'total/hathigh/%s' % s, s, ['^', '^', '\u20ac', A], 'any')
        noraise(C, m, ctx, drv, tables['ext'], st, 'total/hathigh2/%s' % s, s, ['\\', '^', '^', '\U0001d400', A], 'any')
    # --- whichCode for arbitrary tables
    which_obs(C, m, ctx)
    # --- catcode / verbatim
    c, c2 = Ch('c'), Ch('d')
    for k in range(16):
        def want(out, facts, k=k):
            return None if same(out, (k, True, True, True)) else 'after catcode(c, %d): (whichCode(c), other unchanged, frame table is current table, old table untouched) = %r' % (k, out)
        C.expect('catcode/set%d' % k, 'catcode(c,k) makes c category k and nothing else', 'plasTeX/Context.py:Context.catcode', 'setcode',
                 [ctx, c, k, c2], want, init_facts={('dom', c): (True, frozenset(' '))}, setup=lambda m: m.eval(drv, [ctx, ListV(tables['ext'])]), max_paths=6000,
                 observe=lambda m, kind, v: distinct_obs(m, v, c, c2))
        for k2 in range(16):
            C.expect('catcode/set%d-%d' % (k, k2), 'the last catcode assignment wins and the table stays a partition', 'plasTeX/Context.py:Context.catcode', 'setcode2',
                     [ctx, c, k, k2], lambda out, facts, k2=k2: None if same(out, (k2, 0 if k2 == 12 else 1)) else 'whichCode, occurrences = %r' % (out,),
                     setup=lambda m: m.eval(drv, [ctx, ListV(tables['ext'])]), max_paths=6000)
    C.expect('verbatim-table', 'in verbatim mode every character is Letter or Other', 'plasTeX/Context.py:Context.setVerbatimCatcodes', 'verbcat',
             [ctx, c], lambda out, facts: None if out[0] in (11, 12) and out[1:] == (True, True) else 'whichCode=%r' % (out,),
             setup=lambda m: m.eval(drv, [ctx, ListV(tables['ext'])]))
    # --- category change between tokens, push-back
    for s in 'NMS':
        for k in range(16):
            for nm, chs, n in (('cw', ['\\', 'f', ';', 'b', ' '], 1), ('plain', ['a', ';', 'b', ' '], 1), ('cs', ['\\', '$', ';', 'b'], 1)):
                tname = 'ext'
                tb = [x.replace(';', '') for x in tables['ext']]
                tb[k] += ';'
                tables['re%d' % k] = tb

                def post(a, ref, rend, nm=nm, k=k, chs=chs, s=s, tb=tb):
                    # reference: lex the first token under the old table, the rest under the new one
                    full = {}
                    for i, x in enumerate(tb):
                        for y in x:
                            full[y] = i
                    cut = {'cw': 2, 'plain': 1, 'cs': 2}[nm]
                    if s == 'N' and False:
                        pass
                    first, st1 = reference(a[:cut], code[s], tb)
                    rest, st2 = reference([(full.get(u[1], 12), u[1], u[1] == '\n') for u in a[cut:]], st1, tb)
                    return first + rest, st2
                lexob('recat/%s/%s/%d' % (nm, s, k), 'ext', s, chs, 'lex_recat', [n, ';', k], post)
    esc = m.modules['plasTeX.Tokenizer'].dict['EscapeSequence']
    C.expect('token-classes', 'each token class carries the category of its table index', F + ':Tokenizer', 'classes', [tk],
             lambda out, facts: None if out and all(c is None and i in (0, 5, 9, 10, 13, 14, 15) or c == i or (i == 13 and c == 0) for i, c in out) else 'tokenClasses: %r' % (out,))
    mk = m.compile_driver('from plasTeX.Tokenizer import *\ndef f():\n    return [Letter("p"), EscapeSequence("q"), Space(" ")]\n')['f']
    toks = m.eval(mk)
    for s in 'NMS':
        for n in (1, 2):
            def post(a, ref, rend, n=n):
                if len(collapse(ref)) != len(ref) or len(ref) < n:
                    return None, None
                return ref[:n] + [('Letter', 11, 'p'), ('EscapeSequence', 0, 'q'), ('Space', 10, ' ')] + ref[n:], rend
            lexob('pushback/%d/%s' % (n, s), 'ext', s, ['x', A, 'y', B], 'lex_push', [n, toks], post)
    # --- \let aliases are resolved when the control sequence is read
    for nm, cls in (('bgroup', 'BeginGroup'), ('egroup', 'EndGroup'), ('sp', 'Space'), ('lt', 'Letter')):
        mk1 = m.compile_driver('from plasTeX.Tokenizer import *\ndef f():\n    return %s("{")\n' % cls)['f']
        al = m.eval(mk1)
        C.expect('let/%s' % nm, 'a control sequence let to a character token is read as that token', 'plasTeX/Context.py:Context.get_let', 'letstream',
                 [ctx, mkstr(['\\' + nm + ' ', A]), nm, al],
                 lambda out, facts, cls=cls: None if out and out[0][0] == cls else 'tokens %r' % (out,),
                 setup=lambda m: m.eval(drv, [ctx, ListV(tables['ext'])]))
    return C.finish(tier)


def distinct_obs(m, v, c, c2):
    if type(v) is not tuple:
        return None
    o = obs(m, v)
    d1, d2 = absdom.ch_dom(m, c), absdom.ch_dom(m, c2)
    if not d1[0] and not d2[0] and d1[1] == d2[1] and len(d1[1]) == 1:
        return (o[0], True, o[2], o[3])      # same character: the 'other' clause does not apply
    k = ('eq', frozenset([c, c2]))
    if m.facts.get(k) is True:
        return (o[0], True, o[2], o[3])
    return o


def default_table(m, DEF):
    std = ['\\', '{', '}', '$', '&', '\n', '#', '^', '_', '\x00', ' \t\r\f', LET, '', '~', '%', '']
    for i in range(16):
        if set(DEF[i]) != set(std[i]) and i not in (9, 15, 10):
            return {'status': 'viol', 'detail': 'category %d is %r' % (i, DEF[i]), 'paths': 1}
    allc = ''.join(DEF)
    if len(set(allc)) != len(allc):
        return {'status': 'viol', 'detail': 'a character is in two categories', 'paths': 1}
    return {'status': 'ok', 'paths': 1}


def hatob(C, m, ctx, drv, table, st, code, back, id, state, pre, x, dec, suf, exclude_hex):
    chs = pre + ['^', '^', x] + suf

    def want(out, facts):
        got, end = out
        # exclude inputs where ^^ab is hexadecimal notation
        alts = classify(table, facts, pre + [dec] + suf)
        if alts is None:
            return 'UNDECIDED'
        sfx = suf[0]
        if exclude_hex and isinstance(sfx, Ch):
            neg, D = facts.get(('dom', sfx), (True, frozenset()))
            if neg or D & frozenset('0123456789abcdef'):
                return None
        for a in alts:
            if dec == '^' and len(a) > len(pre) + 1 and a[len(pre) + 1][0] == 7:
                continue
            if dec == '\n':
                continue        # an end-of-line produced by ^^J ends the physical line
            try:
                ref, rend = reference(a, code[state], table)
            except Skip:
                continue
            if not match(got, ref):
                return 'input %r in state %s: tokens %s, prescribed %s' % (chs, state, got, ref)
        return None

    def run(m):
        m.eval(drv, [ctx, ListV(table)])
        rs = m.explore(C.g['lex'], [ctx, mkstr(chs), st[state]], None, lambda m, k, v: obs(m, v) if k == 'return' else None, max_paths=3000, max_steps=400000)
        return judge(m, rs, want)
    C.add(id, '^^X denotes the character 64 away from X, with its own category', F + ':Tokenizer.iterchars', run)


def noraise(C, m, ctx, drv, table, st, id, state, chs, kind):
    def run(m):
        m.eval(drv, [ctx, ListV(table)])
        rs = m.explore(C.g['lex'], [ctx, mkstr(chs), st[state]], None, lambda m, k, v: True, max_paths=3000, max_steps=400000)
        return judge(m, rs, True)
    C.add(id, 'tokenizing terminates without raising', F + ':Tokenizer.iterchars', run)


def which_obs(C, m, ctx):
    c = Sym('char', 'str', 'nonempty')
    tab = [Sym('cat%d' % k, 'str') for k in range(16)]

    def run(m):
        rs = m.explore(C.g['which'], [ctx, ListV(tab), c], None, lambda m, k, v: obs(m, v), max_paths=40000)

        def want(out, facts):
            ins = [k for k in range(16) if facts.get(('in', c, tab[k])) is True]
            outs = [k for k in range(16) if facts.get(('in', c, tab[k])) is False]
            if len(ins) > 1 or 12 in ins:
                return None          # not a partition
            if ins:
                return None if out == ins[0] else 'character of category %d classified as %r' % (ins[0], out)
            rest = [k for k in range(16) if k not in outs and k != 12]
            if rest:
                return 'classified as %r without looking at categories %r' % (out, rest)
            return None if out == 12 else 'character in no category classified as %r' % (out,)
        return judge(m, rs, want)
    C.add('whichCode/all-tables', 'whichCode returns the unique category containing the character, else 12', 'plasTeX/Context.py:Context.whichCode', run)
