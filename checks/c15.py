"""C15: abstract interpretation of the filename generator over request histories, against a model of the template grammar.

The template parser, the generator and the extension rule are interpreted from source on templates of the documented
grammar and request sequences whose variable values contain unknown words; the sequence of names (or errors) is compared
with the model."""
import random
import posixpath
import re

from .core import Check, T, short, ListV, DictV, mkstr

DRIVER = r'''
from plasTeX.Filenames import Filenames as _F


def names(spec, bad, sub, initial, ext, reserved, requests):
    inv = {}
    for r in reserved:
        inv[r] = None
    init = {}
    for k, v in initial:
        init[k] = v
    if inv:
        f = _F(spec, (bad, sub), init, ext, inv)
    else:
        f = _F(spec, (bad, sub), init, ext)
    out = []
    for req in requests:
        for k, v in req:
            f.variables[k] = v
        try:
            out.append(f())
        except ValueError:
            out.append('!error')
    return out


def parsed(spec):
    return _F(spec).files


def ext(name, e):
    return _F('a', extension=e).addExtension(name)
'''

ANCH = ['plasTeX/Filenames.py:Filenames._newFilename', 'plasTeX/Filenames.py:Filenames.parseFilenames', 'plasTeX/Filenames.py:Filenames.addExtension',
        'plasTeX/Filenames.py:Filenames.__next__']
RULE = {
    'doc': 'documented templates produce the documented names',
    'num': '$num runs from 1, advances only for numbered candidates issued or skipped as taken, padded to the requested width',
    'alt': 'each request gets the first alternative whose variables are all bound and whose name is free',
    'words': '$name(n) is limited to the first n words of the value, then forbidden characters are replaced',
    'taken': 'no name is issued twice or equal to a reserved name; when none can be formed an error is reported, and only then',
    'reset': 'variables bound for one request are not seen by the next',
    'hist': 'the sequence of names of a request history is the one the template prescribes',
    'ext': 'the extension is added exactly when the name has none',
    'norm': 'spacing inside the template and the spelling $x / ${x} do not matter',
}


# ------------------------------------------------------------ model
# template: (statics, wildcard); a name is a list of parts ('lit', text) | ('var', name, width or None)
def spell(name, r=None):
    out = []
    for i, p in enumerate(name):
        if p[0] == 'lit':
            out.append(p[1])
        else:
            k = '$' + p[1]
            nxt = name[i + 1] if i + 1 < len(name) else None
            brace = p[2] is None and nxt and nxt[0] == 'lit' and re.match(r'\w', nxt[1]) or (r and r.random() < .3)
            if brace:
                k = '${%s}' % p[1] if not r or r.random() < .6 else '${ %s }' % p[1]
            if p[2] is not None:
                k += '(%d)' % p[2] if not r or r.random() < .7 else '( %d )' % p[2]
            out.append(k)
    return ''.join(out)


def spell_template(t, r=None):
    statics, (pre, alts, post) = t
    sp = ' ' if not r else r.choice([' ', '  ', '\n'])
    out = [spell(s, r) for s in statics]
    if pre is not None:
        c = (lambda: ', ') if not r else (lambda: r.choice([', ', ',', ' , ']))
        w = spell(pre, r) + '[' + (r.choice(['', ' ']) if r else '')
        for i, a in enumerate(alts):
            w += (c() if i else '') + spell(a, r)
        w += (r.choice(['', ' ']) if r else '') + ']' + spell(post, r)
        out.append(w)
    return sp.join(out)


class Gen(object):
    def __init__(self, t, bad, sub, initial, ext, reserved):
        statics, (pre, alts, post) = t
        self.statics = list(statics)
        if pre is None:
            self.wild = [self.statics.pop()]
        else:
            self.wild = [pre + a + post for a in alts]
        self.bad, self.sub, self.initial, self.ext = bad, sub, dict(initial), ext
        self.taken = set(reserved)
        self.num = 1

    def form(self, name, vars):
        out = ''
        numbered = False
        for p in name:
            if p[0] == 'lit':
                out += p[1]
            elif p[1] == 'num':
                numbered = True
                out += str(self.num).zfill(p[2] or 0)
            elif p[1] not in vars:
                return None, False
            else:
                v = vars[p[1]]
                if p[2] is not None:
                    v = ' '.join(v.split()[:p[2]])
                out += re.sub(r'(<w\d+>)|(.)', lambda k: k.group(1) or (self.sub if k.group(2) in self.bad else k.group(2)), v, flags=re.S)
        if not posixpath.splitext(out)[1]:
            out += self.ext
        return out, numbered

    def next(self, vars):
        vars = dict(self.initial, **dict(vars))
        while self.statics:
            s = self.statics.pop(0)
            n, numbered = self.form(s, vars)
            assert n is not None
            if numbered:
                self.num += 1
            if n not in self.taken:
                self.taken.add(n)
                return n
        while True:
            again = False
            for w in self.wild:
                n, numbered = self.form(w, vars)
                if n is None:
                    continue
                if numbered:
                    self.num += 1
                if n not in self.taken:
                    self.taken.add(n)
                    return n
                again = again or numbered
            if not again:
                return '!error'


def L(s):
    return ('lit', s)


def V(n, w=None):
    return ('var', n, w)


def build(text):
    """a template in the documented spelling -> model"""
    def name(s):
        out = []
        i = 0
        for m in re.finditer(r'\$\{?([A-Za-z]+)\}?(?:\((\d+)\))?', s):
            if m.start() > i:
                out.append(L(s[i:m.start()]))
            out.append(V(m.group(1), int(m.group(2)) if m.group(2) else None))
            i = m.end()
        if s[i:]:
            out.append(L(s[i:]))
        return out
    m = re.match(r'^([^\[\]]*?)(?:(\S*)\[(.*)\](\S*))?$', text, re.S)
    statics = [name(x) for x in (m.group(1) or '').split()]
    if m.group(3) is None:
        return statics, (None, [], [])
    return statics, (name(m.group(2)), [name(x.strip()) for x in m.group(3).split(',')], name(m.group(4)))


DEFBAD = ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.'
WORDS = ['Alpha', 'beta', 'x1', 'Intro']
EVIL = ['a:b', 'c/d', 'e.f', 'A & B', 'x?', "it's", 'p~q', 'a  b', 'C++ (draft)', '<1>', '50% off', 'one two three four', 'n,m', 'q"r']


def run_want(t, bad, sub, init, ext, reserved, reqs):
    g = Gen(t, bad, sub, init, ext, reserved)
    return [g.next(r) for r in reqs]


def mk(m, v):
    if isinstance(v, (list, tuple)):
        return ListV([mk(m, x) for x in v])
    return T(v) if '<w' in v else v


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C15', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    C.boot(DRIVER, ['plasTeX.Filenames'])
    C.freeze()

    def hist(fam, key, t, reqs, bad='', sub='', init=(), ext='.html', reserved=(), spec=None):
        want = run_want(t, bad, sub, init, ext, reserved, reqs)
        s = spec if spec is not None else spell_template(t)
        C.expect('%s: %s' % (fam, key), RULE[fam], ANCH, 'names',
                 [s, bad, sub, mk(None, [list(x) for x in init]), ext, mk(None, list(reserved)), mk(None, [[list(kv) for kv in r] for r in reqs])],
                 want, max_steps=20000000)

    def req(**k):
        return sorted(k.items())

    # --- documented templates
    docs = [
        ('index [$id, sect$num(4)]', [req(), req(id='<w1>'), req(), req(id='<w2>'), req(id='<w1>'), req()]),
        ('sect$num(4) $title(5)', [req(), req(title='<w1> <w2> <w3> <w4> <w5> <w6> <w7>'), req(title='<w1> <w2>')]),
        ('$jobname_[$id, $title, sect$num(4)]', [req(), req(id='<w1>'), req(title='<w2>'), req(id='<w3>', title='<w4>'), req()]),
        ('$jobname_[$id, $title, sect$num(4)].html', [req(), req(id='<w1>'), req(title='<w2>'), req()]),
        ('index $name-[$ref, sect$num(4)]', [req(name='document'), req(name='chapter', ref='1'), req(name='section', ref='1.1'), req(name='section'), req(name='chapter', ref='2'), req(name='section', ref='2.1')]),
        ('index.html toc.html file1.html file2.html', [req()] * 5),
        ('sect$num(4).html $title(5).html', [req(), req(title='<w1> <w2> <w3> <w4> <w5> <w6>'), req(title='<w8>'), req()]),
        ('images/img-$num(4).png', [req()] * 12),
        ('index', [req(), req(), req(id='<w1>')]),
        ('${jobname}.html', [req(), req()]),
        ('$id', [req(id='<w1>'), req(), req(id='<w2>'), req(id='<w1>'), req(id='<w3>')]),
    ]
    for i, (s, rs) in enumerate(docs):
        for ext in ('.html', ''):
            hist('doc', '%d-%s' % (i, ext), build(s), rs, DEFBAD, '-', [('jobname', '<w9>')], ext, spec=s)

    # --- numbering
    for w in (None, 1, 2, 3, 4, 6, 9, 10, 12, 25):
        t = ([], ([L('s')], [[V('num', w)]], []))
        hist('num', 'plain-%s' % w, t, [req()] * 12)
        t = ([], ([], [[V('id')], [L('s'), V('num', w)]], []))
        hist('num', 'skipid-%s' % w, t, [req(id='<w1>'), req(), req(id='<w2>'), req(), req(id='<w3>'), req(), req(id='<w1>'), req()])
        t = ([], ([], [[V('id'), L('-'), V('num', w)], [L('s'), V('num', w)]], []))
        hist('num', 'unboundnum-%s' % w, t, [req(), req(id='<w1>'), req(), req(id='<w1>'), req(id='<w2>'), req()])
        t = ([[L('a'), V('num', w)], [L('b')], [L('c'), V('num', w)]], ([L('d')], [[V('num', w)]], []))
        hist('num', 'static-%s' % w, t, [req()] * 6)
        hist('num', 'reserved-%s' % w, t, [req()] * 6, reserved=('b.html', 'd%s.html' % str(3).zfill(w or 0), 'd%s.html' % str(5).zfill(w or 0)))
        t = ([[L('s'), V('num', w)]], (None, [], []))
        hist('num', 'single-%s' % w, t, [req()] * 12)
        t = ([], ([V('num'), L('-')], [[V('num', w)]], []))
        hist('num', 'two-%s' % w, t, [req()] * 3)
    t = ([], ([L('s')], [[V('num', 3)]], []))
    for n in (99, 100, 101, 120, 250):
        hist('taken', 'manyreserved-%d' % n, t, [req()] * 2, reserved=['s%03d.html' % i for i in range(1, n + 1)])
    for n in (99, 100, 101, 105):
        hist('taken', 'manyrequests-%d' % n, t, [req()] * (n + 3), reserved=['s%03d.html' % n, 's%03d.html' % (n + 2)])
        t2 = ([], ([], [[V('id')], [L('s'), V('num')]], []))
        hist('taken', 'manyids-%d' % n, t2, [req(id='u%d' % i) for i in range(n)] + [req(id='u3'), req(id='u3'), req()], reserved=['s1.html'])

    # --- alternatives
    alts4 = [[V('id')], [V('title')], [V('ref'), L('-'), V('name')], [L('x'), V('num')]]
    vals = {'id': '<w1>', 'title': '<w2>', 'ref': '<w3>', 'name': '<w4>'}
    for k in range(1, 5):
        t = ([], ([L('p')], alts4[4 - k:], [L('.htm')]))
        tn = ([], ([L('p')], alts4[:k], [L('.htm')]))
        seq = []
        for mask in range(16):
            seq.append(req(**{v: vals[v] for j, v in enumerate(('id', 'title', 'ref', 'name')) if mask >> j & 1}))
        hist('alt', 'masks-%d' % k, t, seq[:8])
        hist('alt', 'masksb-%d' % k, t, seq[8:])
        hist('alt', 'nonum-%d' % k, tn, seq[:8])
        hist('alt', 'nonumb-%d' % k, tn, seq[:7:-1])
    # a taken name falls through to the next alternative whose variables are bound
    t = ([], ([], [[V('title')], [V('id')], [L('s'), V('num')]], []))
    hist('taken', 'fallthrough', t, [req(title='<w1>', id='<w2>'), req(title='<w1>', id='<w3>'), req(title='<w1>', id='<w2>'), req(title='<w1>'), req()])
    t = ([[L('index')], [L('toc-'), V('id')]], ([], [[V('title')], [V('id')], [V('ref')]], []))
    hist('taken', 'fallthrough2', t, [req(), req(id='<w2>', title='<w1>'), req(id='<w2>', title='<w1>'), req(id='<w2>', title='<w1>', ref='<w3>'), req(id='<w2>', title='<w1>', ref='<w3>'), req(id='<w2>', title='<w1>', ref='<w3>'), req(ref='<w4>')])
    hist('taken', 'staticreserved', t, [req(id='<w2>'), req(id='<w5>', title='<w1>'), req(id='<w6>')], reserved=('index.html',))
    hist('taken', 'staticdup', ([[L('a')], [L('a')], [L('b')]], ([], [[L('a')], [L('s'), V('num')]], [])), [req()] * 4)
    hist('taken', 'staticdupvar', ([[L('a')], [L('a')], [V('id')]], ([], [[L('a')], [L('s'), V('num')]], [])), [req(), req(id='<w1>'), req()])
    hist('taken', 'error', ([], ([], [[V('id')], [V('title')]], [])), [req(), req(id='<w1>'), req(id='<w1>'), req(), req(title='<w1>'), req(title='<w2>'), req(id='<w1>', title='<w2>'), req(id='<w3>')])
    hist('taken', 'errorstatic', ([[L('a')], [L('b')]], (None, [], [])), [req()] * 4)
    hist('taken', 'charsub', ([], ([], [[V('id')], [L('s'), V('num')]], [])), [req(id='a:b'), req(id='a-b'), req(id='a/b'), req(id='a;b'), req(id='c')], DEFBAD, '-')
    hist('taken', 'extdup', ([], ([], [[V('id')], [L('s'), V('num')]], [])), [req(id='a'), req(id='a.html'), req(id='b.html'), req(id='b')])
    hist('reset', 'id', ([], ([], [[V('id')], [V('title')], [L('s'), V('num')]], [])), [req(id='<w1>'), req(title='<w2>'), req(), req(id='<w3>', title='<w4>'), req()])
    hist('reset', 'init', ([], ([V('jobname'), L('-')], [[V('id')], [L('s'), V('num')]], [])), [req(id='<w1>', jobname='<w2>'), req(), req(id='<w3>')], init=[('jobname', '<w9>'), ('ref', '<w8>')])
    hist('reset', 'taken', ([], ([], [[V('id')], [V('title')], [L('s'), V('num')]], [])), [req(id='<w1>'), req(id='<w1>', title='<w1>'), req(), req(title='<w5>'), req()])

    # --- words and characters
    for n in (1, 2, 3, 5):
        for key, v in (('five', '<w1> <w2> <w3> <w4> <w5>'), ('one', '<w1>'), ('wide', '<w1>   <w2>\n<w3>'), ('evil', 'Why? (a, b) & c: "d" <w1>'), ('pad', '  <w1> <w2> ')):
            for bad, sub in (('', ''), (DEFBAD, '-'), (DEFBAD, '_'), (':/', ''), (' ', '+'), ('"?&', 'zz')):
                t = ([], ([L('p-')], [[V('title', n)], [V('title')]], []))
                hist('words', '%s-%d-%s%s' % (key, n, len(bad), sub), t, [req(title=v), req(title=v)], bad, sub)
    many = ' '.join('<w%d>' % i for i in range(1, 15))
    for n in (4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 100):
        for bad, sub in (('', ''), (DEFBAD, '-'), (' ', '+')):
            hist('words', 'many-%d-%s%s' % (n, len(bad), sub), ([], ([L('p-')], [[V('title', n)], [V('title'), L('z')]], [])), [req(title=many), req(title=many), req(title='<w1>')], bad, sub)
        hist('words', 'manystatic-%d' % n, ([[L('p'), V('title', n)], [L('q'), V('num', n)]], ([L('p')], [[V('ref', n), L('-'), V('num', n)], [L('s'), V('num', n)]], [])),
             [req(title=many), req(), req(ref=many), req(), req(ref=many)], ' ', '_')
    t = ([], ([], [[V('title', 1), L('-'), V('title', 2)], [V('title')], [L('s'), V('num')]], []))
    hist('words', 'twowidths', t, [req(title='<w1> <w2> <w3>')] * 3, ' ', '_')
    for n in (1, 3):
        hist('words', 'empty-%d' % n, ([], ([L('p')], [[V('title', n)], [L('s'), V('num')]], [])), [req(title=''), req(title=' '), req(title='<w1>')])
        hist('words', 'static-%d' % n, ([[L('p'), V('title', n)], [L('q')]], ([L('p')], [[V('title', n)], [L('s'), V('num')]], [])), [req(title='<w1> <w2> <w3>'), req(), req(title='<w1> <w2> <w3>'), req(title='<w2>')], ' ', '_')
    for i, v in enumerate(EVIL):
        for bad, sub in ((DEFBAD, '-'), (DEFBAD, ''), ('', '-'), (DEFBAD, '_x_')):
            hist('words', 'char-%d-%d%s' % (i, len(bad), sub), ([], ([], [[V('title')], [V('id'), L('.x')]], [])), [req(title=v), req(title=v + ' <w1>'), req(id=v)], bad, sub, init=[('jobname', v)])

    # --- extension
    for ext in ('.html', '.xhtml', '', '.tar'):
        for n in ('a', 'a.b', 'a.html', 'd/a', 'd/a.png', 'd.x/a', 'a-b_c', 'a.b.c', 'd.x/a.b'):
            want = n if re.search(r'[^./]\.[^./]*$', n) else n + ext
            C.expect('ext: %s%s' % (n.replace('/', '|'), ext), RULE['ext'], ANCH[2:3], 'ext', [n, ext], want)

    # --- random histories
    r = random.Random(15)
    for i in range(20000 if thorough else 2500):
        def part(vars, num):
            c = r.random()
            if c < .45:
                return L(r.choice(['a', 'b-', 'sec', 'x_', 'n.q', 'doc']))
            if num and c < .6:
                return V('num', r.choice([None, 2, 4]))
            return V(r.choice(vars), r.choice([None, None, None, 1, 2, 3]))

        def nm(vars, num=True):
            out = []
            for _ in range(r.randint(1, 3)):
                p = part(vars, num)
                if out and out[-1][0] == 'lit' and p[0] == 'lit':
                    continue
                if out and out[-1][0] == 'var' and p[0] == 'var':
                    out.append(L('-'))
                out.append(p)
            # a literal after a variable must not continue the variable's name
            for j in range(1, len(out)):
                if out[j][0] == 'lit' and out[j - 1][0] == 'var' and re.match(r'\w', out[j][1]):
                    out[j] = L('-' + out[j][1])
            return out
        vs = ['id', 'title', 'ref', 'name', 'jobname']
        statics = [nm(['jobname'], True) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        if r.random() < .85 or not statics:
            pre = [L(r.choice(['p', 'q-', 'z.z']))] if r.random() < .3 else []
            post = [L(r.choice(['.html', '-e', '.x.y']))] if r.random() < .3 else []
            if r.random() < .15 and not pre:
                pre = [V('jobname'), L('-')]
            alts = [nm(vs, r.random() < .4) for _ in range(r.randint(1, 3))]
            if r.random() < .8:
                alts.append([L('s'), V('num', r.choice([None, 2, 4]))])
            wild = (pre, alts, post)
        else:
            wild = (None, [], [])
        t = (statics, wild)
        reqs = []
        vals = ['<w%d>' % k for k in range(1, 5)] + ['<w1> <w2>', '<w3> <w1> <w2> <w4>', 'a:b <w1>', '1.2', '', 'A & B']
        for _ in range(r.randint(1, 12)):
            d = {}
            for v in vs[:4]:
                if r.random() < .45:
                    d[v] = r.choice(vals[:8] + (vals if r.random() < .3 else []))
            reqs.append(sorted(d.items()))
        init = [('jobname', r.choice(['<w7>', 'my job', '<w7> <w8> <w1>']))] if r.random() < .97 or any(p[:2] == ('var', 'jobname') for s in statics for p in s) else []
        bad, sub = r.choice([(DEFBAD, '-'), (DEFBAD, '-'), (' :', '_'), ('', ''), (DEFBAD, '')])
        ext = r.choice(['.html', '.html', '', '.x'])
        g = run_want(t, bad, sub, init, ext, (), reqs)
        res = []
        if r.random() < .4:
            res = sorted(set(r.choice([x for x in g if x != '!error'] or ['zz']) for _ in range(r.randint(1, 3))))
        hist('norm' if i % 5 == 0 else 'hist', str(i), t, reqs, bad, sub, init, ext, res, spec=spell_template(t, r if i % 5 == 0 else None))
    return C.finish(tier)
