"""C16: abstract interpretation of the configuration layers against a model of defaults, files and command line.

Option tables, type conversion, file reading, command-line registration and read-back and interpolation are interpreted from
source for every option and every combination of layers (ini files and argument lists are given to models of ConfigParser and
ArgumentParser); the values read back are compared with those the layers prescribe."""
import itertools
import random

from .core import Check, T, short, ListV
from am.values import ItV

DRIVER = r'''
import configparser as _cp
import plasTeX.client as _client
from plasTeX.Config import defaultConfig as _dc
from argparse import ArgumentParser as _AP

_got = []


def _rec(filename, config):
    _got.append((filename, config))


_client.run = _rec


def _files(files):
    names = []
    n = 0
    for f in files:
        n += 1
        name = 'conf%d.ini' % n
        _cp.ConfigParser.FILES[name] = f
        names.append(name)
    return names


def conf():
    c = _dc()
    _client.collect_renderer_config(c)
    return c


def snap(v):
    if isinstance(v, dict):
        return [(k, snap(v[k])) for k in sorted(v.keys())]
    if isinstance(v, list):
        return [snap(x) for x in v]
    return v


def read(c, wanted):
    return [snap(c[s][k]) for s, k in wanted]


def layered(files, argv, wanted):
    c = conf()
    names = _files(files)
    if len(names) == 1:
        c.read(names[0])
    elif names:
        c.read(names)
    p = _AP('x')
    c.registerArgparse(p)
    c.updateFromDict(vars(p.parse_args(argv)))
    return read(c, wanted)


def main(files, argv, wanted):
    del _got[:]
    args = ['doc.tex']
    for n in _files(files):
        args += ['--config', n]
    _client.main(args + argv)
    if len(_got) != 1 or _got[0][0] != 'doc.tex':
        return 'processing was not started once on the file'
    return read(_got[0][1], wanted)


def default(wanted):
    return read(conf(), wanted)


def fresh(files, argv, wanted):
    layered(files, argv, wanted)
    return read(conf(), wanted)


def assigned(pairs, wanted):
    c = conf()
    for s, k, v in pairs:
        c[s][k] = v
    return read(c, wanted)


def reassigned(files, pairs, wanted):
    c = conf()
    for n in _files(files):
        c.read(n)
    a = read(c, wanted)
    for s, k, v in pairs:
        c[s][k] = v
    return [a, read(c, wanted)]


def missing(s, k):
    c = conf()
    return c[s].get(k, 'none')


def inventory():
    c = conf()
    return sorted([s + '.' + k for s in c for k in c[s].keys()])
'''

M = 'plasTeX/ConfigManager.py:'
ANCH = {
    'str': [M + 'ConfigOption.setFromString', M + 'ConfigOption.updateFromDict', M + 'ConfigOption.registerArgparse'],
    'int': [M + 'ConfigOption.setFromString', M + 'ConfigOption.updateFromDict', M + 'ConfigOption.registerArgparse'],
    'float': [M + 'ConfigOption.setFromString', M + 'ConfigOption.updateFromDict', M + 'ConfigOption.registerArgparse'],
    'bool': [M + 'BooleanOption.registerArgparse', M + 'BooleanOption'],
    'list': [M + 'MultiStringOption.setFromString', M + 'MultiStringOption.updateFromDict', M + 'MultiStringOption.registerArgparse'],
    'dict': [M + 'DictOption.setFromString', M + 'DictOption.set', M + 'DictOption.updateFromDict', M + 'ConfigManager.read'],
    'interp': [M + 'ConfigSection.__getitem__', M + 'InterpolationWrapper.__getitem__'],
    'main': ['plasTeX/client.py:main', M + 'ConfigManager.read', M + 'ConfigManager.updateFromDict'],
    'default': ['plasTeX/Config.py:defaultConfig', 'plasTeX/Renderers/HTML5/Config.py:addConfig'],
}
RULE = {
    'default': 'an option nothing sets has its documented default',
    'file': 'a value in a configuration file is converted to the type of the option and replaces (lists, dictionaries: extends) the default',
    'cli': 'a value on the command line is converted to the type of the option and replaces (extends) the default',
    'layers': 'later files override earlier ones and the command line overrides files',
    'mixed': 'options do not interfere: every option has the value its layers prescribe',
    'dictkey': 'keys of dictionary options are kept as written',
    'interp': '%(name)s is replaced by the current value of the named option and %% by a percent sign',
    'fresh': 'a new configuration has the defaults again',
    'set': 'reading back an option gives the value that was assigned',
    'main': 'the command line program applies the configuration files and then the command line',
}

S, I, F, B, L, D = 'str', 'int', 'float', 'bool', 'list', 'dict'
MINLEVEL = object()
# section, key, type, default, command line option, negative option
OPTIONS = [
    ('general', 'renderer', S, 'HTML5', '--renderer'), ('general', 'theme', S, 'default', '--theme'), ('general', 'extra-templates', L, [], '--extra-templates'),
    ('general', 'copy-theme-extras', B, True, '--copy-theme-extras', '--no-theme-extras'), ('general', 'kpsewhich', S, 'kpsewhich', '--kpsewhich'), ('general', 'xml', B, False, '--xml'),
    ('general', 'debug', B, False, '--debug'), ('general', 'paux-dirs', L, [], '--paux-dirs'), ('general', 'plugins', L, [], '--plugins'),
    ('general', 'load-tex-packages', B, True, '--load-tex-packages', '--no-load-tex-packages'), ('general', 'tex-packages', L, [], '--tex-packages'), ('general', 'packages-dirs', L, [], '--packages-dirs'),
    ('links', 'links', D, {}, '--link'), ('counters', 'counters', D, {}, '--counter'),
    ('files', 'input-encoding', S, 'utf-8', '--input-encoding'), ('files', 'output-encoding', S, 'utf-8', '--output-encoding'), ('files', 'escape-high-chars', B, False, '--escape-high-chars'),
    ('files', 'split-level', I, 2, '--split-level'), ('files', 'log', B, False, '--log'), ('files', 'filename', S, 'index [$id, sect$num(4)]', '--filename'),
    ('files', 'bad-chars', S, ': #$%^&*!~`"\'=?/{}[]()|<>;\\,.', '--bad-filename-chars'), ('files', 'bad-chars-sub', S, '-', '--bad-filename-chars-sub'), ('files', 'directory', S, '$jobname', '--dir'),
    ('images', 'scales', D, {}, '--scales'), ('images', 'base-url', S, '', '--image-base-url'), ('images', 'enabled', B, True, '--enable-images', '--disable-images'),
    ('images', 'imager', S, 'gspdfpng pdftoppm dvipng dvi2bitmap gsdvipng OSXCoreGraphics', '--imager'), ('images', 'vector-imager', S, 'pdf2svg dvisvgm', '--vector-imager'),
    ('images', 'filenames', S, 'images/img-$num(4)', '--image-filenames'), ('images', 'baseline-padding', I, 0, '--image-baseline-padding'), ('images', 'scale-factor', F, 1.0, '--image-scale-factor'),
    ('images', 'vector-compiler', S, '', '--vector-image-compiler'), ('images', 'compiler', S, '', '--image-compiler'), ('images', 'cache', B, False, '--enable-image-cache', '--disable-image-cache'),
    ('images', 'save-file', B, False, '--save-image-file', '--delete-image-file'), ('images', 'transparent', B, False, '--transparent-images', '--opaque-images'), ('images', 'resolution', I, 0, '--image-resolution'),
    ('document', 'base-url', S, '', '--base-url'), ('document', 'title', S, '', '--title'), ('document', 'toc-depth', I, 3, '--toc-depth'), ('document', 'toc-non-files', B, False, '--toc-non-files'),
    ('document', 'sec-num-depth', I, 2, '--sec-num-depth'), ('document', 'index-columns', I, 2, '--index-columns'), ('document', 'lang-terms', L, [], '--lang-terms'), ('document', 'disable-charsub', L, [], '--disable-charsub'),
    ('logging', 'logging', D, {}, '--logging'),
    ('html5', 'extra-css', L, [], '--extra-css'), ('html5', 'extra-js', L, [], '--extra-js'), ('html5', 'theme-css', S, 'white', '--theme-css'), ('html5', 'use-theme-css', B, True, '--use-theme-css', '--no-theme-css'),
    ('html5', 'use-theme-js', B, True, '--use-theme-js', '--no-theme-js'), ('html5', 'display-toc', B, True, '--display-toc', '--no-display-toc'), ('html5', 'localtoc-level', I, None, '--localtoc-level'),
    ('html5', 'breadcrumbs-level', I, 10, '--breadcrumbs-level'), ('html5', 'use-mathjax', B, True, '--use-mathjax', '--no-mathjax'),
    ('html5', 'mathjax-url', S, 'https://cdn.jsdelivr.net/npm/mathjax@3/es5/tex-chtml.js', '--mathjax-url'), ('html5', 'mathjax-dollars', B, False, '--dollars', '--no-dollars'), ('html5', 'filters', L, [], '--filters'),
    ('mathjax-macros', 'macros', D, {}, '--mj-macros'),
]
DICTS = {'links': S, 'counters': I, 'scales': F, 'logging': S, 'macros': S}


def copy(v):
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


class Value(object):
    """a value of an option: how it is written in a file and on the command line, and how it changes the value"""

    def __init__(self, file, cli, result, extend=False):
        self.file, self.cli, self.result, self.extend = file, cli, result, extend

    def apply(self, v):
        if not self.extend:
            return self.result
        if isinstance(v, list):
            return v + self.result
        return dict(v, **self.result)


def values(o, r=None, n=4):
    """distinct values of the option"""
    t, flag = o[2], o[4]
    if t == S:
        vs = ['<w1>', '<w2>-x', 'a b', '<w3>/<w4>.q', 'x=y', 'a:b', '1', 'no', 'C:\\d', '\u00e9<w1>', 'A,B', 'a#b', '[q]', '$<w1>']
        return [Value([(o[1], v)], [flag, v], v) for v in vs]
    if t == I:
        return [Value([(o[1], s)], [flag, s], v) for s, v in (('5', 5), ('0', 0), ('-3', -3), ('17', 17), ('1', 1), ('-10', -10), ('100', 100))]
    if t == F:
        return [Value([(o[1], s)], [flag, s], v) for s, v in (('1.5', 1.5), ('2', 2.0), ('0.25', 0.25), ('-0.5', -0.5), ('1e1', 10.0), ('0', 0.0))]
    if t == B:
        out = []
        for s, v in (('yes', True), ('no', False), ('true', True), ('false', False), ('on', True), ('off', False), ('Yes', True), ('No', False), ('TRUE', True), ('False', False), ('ON', True), ('Off', False)):
            out.append(Value([(o[1], s)], [flag] if v else [o[5]] if len(o) > 5 else None, v))
        return out
    if t == L:
        return [Value([(o[1], s)], [flag] + c, v, True) for s, c, v in (
            ('a', ['a'], ['a']), ('b c', ['b', 'c'], ['b', 'c']), ('"d e" f', ['d e', 'f'], ['d e', 'f']), ('g.html', ['g.html', flag, 'h'], None), ("'it' x", ['it', 'x'], ['it', 'x']), ('a a', ['a', flag, 'a'], ['a', 'a']))
                if v is not None]
    name = o[1]
    if name == 'links':
        return [Value([('next-url', 'http://q/<w1>'), ('next-title', '<w1> t')], ['--link', 'next', 'http://q/<w1>', '<w1> t'], {'next-url': 'http://q/<w1>', 'next-title': '<w1> t'}, True),
                Value([('next-title', '<w2>')], ['--link', 'next', '<w2>'], {'next-title': '<w2>'}, True),
                Value([('k-title', 'a b')], ['--link', 'k', 'a b'], {'k-title': 'a b'}, True),
                Value([('links', 'p-title=<w3>, p-url = http://x/?a=<w1>&b=c')], ['--link', 'p', 'http://x/?a=<w1>&b=c', '<w3>'], {'p-title': '<w3>', 'p-url': 'http://x/?a=<w1>&b=c'}, True),
                Value([('links', 'p-title=<w3>, p-url = u')], ['--link', 'p', 'u', '<w3>'], {'p-title': '<w3>', 'p-url': 'u'}, True)]
    pool = {'counters': [('chapter', '4', 4), ('part', '2', 2), ('chapter', '-1', -1), ('my_c', '0', 0), ('enumi', '7', 7)],
            'scales': [('equation', '1.5', 1.5), ('tabular', '2', 2.0), ('equation', '0.5', 0.5), ('picture', '3.25', 3.25)],
            'logging': [('parse.environments', 'DEBUG', 'DEBUG'), ('status', 'INFO', 'INFO'), ('parse.environments', 'ERROR', 'ERROR')],
            'macros': [('rr', '\\mathbb{R}', '\\mathbb{R}'), ('norm', '["\\\\|#1\\\\|", 1]', '["\\\\|#1\\\\|", 1]'), ('rr', '<w1>', '<w1>'), ('q', 'a=b', 'a=b')]}[name]
    out = [Value([(k, s)], [flag, k, s], {k: v}, True) for k, s, v in pool]
    k, s, v = pool[0]
    k2, s2, v2 = pool[1]
    if ',' not in s + s2 and '=' not in s + s2:
        out.append(Value([(o[1], '%s=%s, %s = %s' % (k, s, k2, s2))], [flag, k, s, flag, k2, s2], {k: v, k2: v2}, True))
    if name == 'macros':
        out.append(Value([(o[1], 'q=<w1>=<w2>, r = x==y=z')], [flag, 'q', '<w1>=<w2>', flag, 'r', 'x==y=z'], {'q': '<w1>=<w2>', 'r': 'x==y=z'}, True))
        out.append(Value([(o[1], 'q==<w1>')], [flag, 'q', '=<w1>'], {'q': '=<w1>'}, True))
    out.append(Value([(k, s), (k2, s2)], [flag, k, s, flag, k2, s2], {k: v, k2: v2}, True))
    return out


def norm(v):
    if isinstance(v, dict):
        return [(k, norm(v[k])) for k in sorted(v)]
    if isinstance(v, list):
        return [norm(x) for x in v]
    return v


def mk(v):
    if isinstance(v, (list, tuple)):
        return ListV([mk(x) for x in v])
    return T(v) if isinstance(v, str) and '<w' in v else v


def mkfiles(files):
    """[{section: [(k, v)]}] -> argument"""
    return mk([[[s, [list(kv) for kv in items]] for s, items in f] for f in files])


def main(tier):
    thorough = tier == 'thorough'
    C = Check('C16', __doc__.split('\n')[0] + ' ' + ' '.join(__doc__.split('\n')[2:]))
    from .core import REPO
    import os

    def boot():
        C.boot('', ['plasTeX.ConfigManager', 'plasTeX.Config'])
        m = C.m
        root = os.path.join(REPO, 'plasTeX')
        m.hooks['os.path.realpath'] = m.hooks['os.path.abspath'] = lambda mm, a, k: a[0]

        def walk(mm, a, k):
            p = a[0]
            top = next(os.walk(p), None) if isinstance(p, str) and p.startswith(REPO) else None
            return ItV(() if top is None else ((top[0], ListV(sorted(x for x in top[1] if not x.startswith('__'))), ListV(sorted(top[2]))),), 'snap')
        m.hooks['os.walk'] = walk
        from . import drivers
        C.g = m.compile_driver(drivers.SRC + '\n' + DRIVER)
    boot()
    C.freeze()
    minlevel = None
    r = random.Random(16)

    def want1(o):
        return [[o[0], o[1]]]

    # --- defaults
    for o in OPTIONS:
        if o[3] is None:
            continue
        C.expect('default: %s.%s' % o[:2], RULE['default'], ANCH['default'], 'default', [mk(want1(o))], [norm(o[3])])
    C.expect('default: html5.localtoc-level', RULE['default'], ANCH['default'], 'default', [mk([['html5', 'localtoc-level']])],
             lambda o, f: None if type(o[0]) is int and o[0] < -10 ** 9 else 'the default %r of localtoc-level is not below the level of every section' % (o,))

    # --- one value, from a file / from the command line
    for o in OPTIONS:
        d = copy(o[3]) if o[3] is not None else 0
        for i, v in enumerate(values(o)):
            C.expect('file: %s.%s-%d' % (o[0], o[1], i), RULE['file'], ANCH[o[2]], 'layered', [mkfiles([[(o[0], v.file)]]), mk([]), mk(want1(o))], [norm(v.apply(d))])
            if v.cli is not None:
                C.expect('cli: %s.%s-%d' % (o[0], o[1], i), RULE['cli'], ANCH[o[2]], 'layered', [mk([]), mk(v.cli), mk(want1(o))], [norm(v.apply(d))])
        vs = values(o)
        cli = [v for v in vs if v.cli is not None]
        # all subsets of layers, distinct values
        for mask in range(1, 16):
            if bin(mask).count('1') < 2:
                continue
            for rep in range(2 if not thorough else 5):
                pick = [r.choice(vs), r.choice(vs), r.choice(vs), r.choice(cli)]
                if o[2] == B and mask & 8:
                    pick[2] = [x for x in vs if x.result != pick[3].result][r.randint(0, 5)]
                files, v = [], copy(d)
                for k in range(3):
                    if mask >> k & 1:
                        files.append([(o[0], pick[k].file)])
                        v = pick[k].apply(v)
                    else:
                        files.append([('general', [])] if r.random() < .5 else [])
                argv = []
                if mask & 8:
                    argv = pick[3].cli
                    v = pick[3].apply(v)
                C.expect('layers: %s.%s-%x-%d' % (o[0], o[1], mask, rep), RULE['layers'], ANCH[o[2]] + ANCH['main'][1:], 'layered' if rep % 2 else 'main', [mkfiles(files), mk(argv), mk(want1(o))], [norm(v)])
    # --- last one of two flags wins
    for o in OPTIONS:
        if o[2] == B and len(o) > 5:
            for argv, v in (([o[4], o[5]], False), ([o[5], o[4]], True)):
                C.expect('cli: %s.%s-both-%s' % (o[0], o[1], v), RULE['cli'], ANCH['bool'], 'layered', [mk([]), mk(argv), mk(want1(o))], [v])
    C.expect('cli: short-dir', RULE['cli'], ANCH['str'], 'layered', [mk([]), mk(['-d', '<w1>']), mk([['files', 'directory']])], ['<w1>'])

    # --- many options at once
    keys = [[o[0], o[1]] for o in OPTIONS if o[3] is not None]
    opts = [o for o in OPTIONS if o[3] is not None]
    for i in range(150 if thorough else 24):
        cur = {o[:2]: copy(o[3]) for o in opts}
        files = []
        for k in range(r.randint(0, 3)):
            f = []
            for s in sorted(set(o[0] for o in opts)):
                items, used = [], set()
                for o in opts:
                    if o[0] == s and r.random() < .35:
                        v = r.choice(values(o))
                        items += v.file
                        cur[o[:2]] = v.apply(cur[o[:2]])
                if items:
                    f.append((s, items))
            files.append(f)
        argv = []
        for o in opts:
            if r.random() < .3:
                v = r.choice([x for x in values(o) if x.cli is not None])
                argv += v.cli
                cur[o[:2]] = v.apply(cur[o[:2]])
        C.expect('mixed: %d' % i, RULE['mixed'], ANCH['main'], 'main' if i % 2 else 'layered', [mkfiles(files), mk(argv), mk(keys)], [norm(cur[o[:2]]) for o in opts], max_steps=20000000)
        if i % 3 == 0:
            C.expect('fresh: %d' % i, RULE['fresh'], ANCH['default'], 'fresh', [mkfiles(files), mk(argv), mk(keys)], [norm(o[3]) for o in opts], max_steps=20000000)
    # --- keys of dictionaries
    for o in OPTIONS:
        if o[2] != D:
            continue
        for i, k in enumerate(['RR', 'myThm', 'Mixed-Case.x', 'a_b', 'UPPER', 'i', 'with space', 'split-level']):
            t = DICTS[o[1]]
            s, v = ('3', 3) if t == I else ('2.5', 2.5) if t == F else ('<w1>', '<w1>')
            C.expect('dictkey: %s-%d' % (o[1], i), RULE['dictkey'], ANCH['dict'], 'layered', [mkfiles([[(o[0], [(k, s)])]]), mk([]), mk(want1(o))], [[(k, v)]])
            if o[1] != 'links':
                C.expect('dictkey: %s-cli-%d' % (o[1], i), RULE['dictkey'], ANCH['dict'], 'layered', [mkfiles([[(o[0], [(k, s)])]]), mk([o[4], k, s, o[4], k + 'x', s]), mk(want1(o))], [[(k, v), (k + 'x', v)]])
            else:
                C.expect('dictkey: %s-cli-%d' % (o[1], i), RULE['dictkey'], ANCH['dict'], 'layered', [mk([]), mk([o[4], k, '<w1>', '<w2>']), mk(want1(o))], [[(k + '-title', '<w2>'), (k + '-url', '<w1>')]])
    # --- option names in files are not case sensitive
    for s, k, v, w in (('files', 'Split-Level', '4', 4), ('general', 'THEME', '<w1>', '<w1>'), ('images', 'Enabled', 'No', False), ('counters', 'COUNTERS', 'a=1', [('a', 1)])):
        C.expect('file: case-%s' % k, RULE['file'], ANCH['main'][1:], 'layered', [mkfiles([[(s, [(k, v)])]]), mk([]), mk([[s, k.lower()]])], [w])
    # --- interpolation
    G, FI, IM, DO = 'general', 'files', 'images', 'document'
    IT = [
        ([(G, 'theme', '%(renderer)s')], [(G, 'theme')], ['HTML5']),
        ([(G, 'renderer', '<w1>'), (G, 'theme', '%(renderer)s-x')], [(G, 'theme')], ['<w1>-x']),
        ([(G, 'theme', '%(renderer)s-x'), (G, 'renderer', '<w1>')], [(G, 'theme')], ['<w1>-x']),
        ([(G, 'theme', '100%%')], [(G, 'theme')], ['100%']),
        ([(G, 'theme', '%%(renderer)s')], [(G, 'theme')], ['%(renderer)s']),
        ([(G, 'theme', '%%%(renderer)s%%')], [(G, 'theme')], ['%HTML5%']),
        ([(G, 'theme', 'a%(split-level)sb')], [(G, 'theme')], ['a2b']),
        ([(FI, 'directory', '%(renderer)s/%(theme)s')], [(FI, 'directory')], ['HTML5/default']),
        ([(FI, 'directory', '%(theme)s'), (G, 'theme', '%(renderer)s+%(input-encoding)s')], [(FI, 'directory')], ['HTML5+utf-8']),
        ([(FI, 'directory', '%(theme)s%%'), (G, 'theme', '50%%')], [(FI, 'directory')], ['50%%']),
        ([(DO, 'title', '%(theme-css)s %(mathjax-dollars)s %(scale-factor)s')], [(DO, 'title')], ['white False 1.0']),
        ([(G, 'theme', '%(renderer)s%(renderer)s')], [(G, 'theme')], ['HTML5HTML5']),
        ([(IM, 'compiler', '<w1> %(vector-compiler)s'), (IM, 'vector-compiler', '<w2>')], [(IM, 'compiler')], ['<w1> <w2>']),
    ]
    for i, (st, wanted, res) in enumerate(IT):
        C.expect('interp: set-%d' % i, RULE['interp'], ANCH['interp'], 'assigned', [mk(st), mk(wanted)], res)
        C.expect('interp: file-%d' % i, RULE['interp'], ANCH['interp'], 'layered', [mkfiles([[(s, [(k, v)]) for s, k, v in st]]) if len(set(s for s, k, v in st)) == len(st) else mkfiles([[(s, [(k, v)])] for s, k, v in st]), mk([]), mk(wanted)], res)
        flags = {o[:2]: o[4] for o in OPTIONS}
        C.expect('interp: cli-%d' % i, RULE['interp'], ANCH['interp'], 'layered', [mk([]), mk([x for s, k, v in st for x in (flags[s, k], v)]), mk(wanted)], res)
    for i, (v, w) in enumerate([(['%(renderer)s'], ['HTML5']), (['a%%', '<w1>'], ['a%', '<w1>']), (['x', '%(theme)s-%(split-level)s', '%%'], ['x', 'default-2', '%']), (['%(base-url)s|'], ['|']), ([], [])]):
        for o in (('general', 'plugins'), ('document', 'disable-charsub'), ('html5', 'filters')):
            flag = [x[4] for x in OPTIONS if x[:2] == o][0]
            C.expect('interp: list-%s-%d' % (o[1], i), RULE['interp'], ANCH['interp'], 'assigned', [mk([[o[0], o[1], v]]), mk([o])], [w])
            C.expect('interp: listcli-%s-%d' % (o[1], i), RULE['interp'], ANCH['interp'], 'layered', [mk([]), mk([flag] + v), mk([o])], [w])
    C.expect('interp: reassign', RULE['interp'], ANCH['interp'], 'reassigned', [mkfiles([[('general', [('theme', '%(renderer)s!')])]]), mk([['general', 'renderer', '<w5>']]), mk([['general', 'theme'], ['general', 'renderer']])],
             [['HTML5!', 'HTML5'], ['<w5>!', '<w5>']])
    # --- assignment
    for o in OPTIONS:
        for i, v in enumerate({S: ['<w1>', '', 'x y'], I: [7, 0, -2], F: [0.5, 3.0], B: [True, False], L: [['<w1>', 'b'], []], D: []}[o[2]]):
            C.expect('set: %s.%s-%d' % (o[0], o[1], i), RULE['set'], [M + 'ConfigSection.__setitem__', M + 'ConfigSection.__getitem__'], 'assigned', [mk([[o[0], o[1], v]]), mk(want1(o))], [norm(v)])
    C.expect('set: get-missing', RULE['set'], [M + 'ConfigSection.get'], 'missing', ['general', 'nosuch'], 'none')
    C.expect('set: get-present', RULE['set'], [M + 'ConfigSection.get'], 'missing', ['general', 'theme'], 'default')
    # --- unknown sections and keys do not stop processing
    C.expect('main: unknown', RULE['main'], ANCH['main'], 'main', [mkfiles([[('nosuch', [('a', 'b')]), ('general', [('nokey', 'x'), ('theme', '<w1>')])]]), mk(['--split-level', '1']), mk([['general', 'theme'], ['files', 'split-level']])], ['<w1>', 1])
    return C.finish(tier)
