"""shared driver of the renderer checks: the renderer of plasTeX is interpreted with templates written as small functions, on in-memory files"""
from am import fs
from am import builtins_ as B

SRC = r'''
import plasTeX.Imagers as _imagers
import plasTeX.Renderers as _rend
from plasTeX.Renderers import Renderer as _Renderer
from plasTeX.DOM import Node as _Node
from plasTeX.Config import defaultConfig as _defaultConfig
import plasTeX.Compile as _compile


class _NoImager(object):
    fileExtension = '.png'
    imageAttrs = imageUnits = ''

    def __init__(self, document, imageTypes=None):
        pass

    def verify(self):
        return True

    def close(self):
        pass

    def getImage(self, node):
        return None


_imagers.Imager = _imagers.VectorImager = _NoImager


def config(opts):
    c = _defaultConfig()
    c['images']['imager'] = 'none'
    c['images']['vector-imager'] = 'none'
    for s, k, v in opts:
        c[s][k] = v
    return c


def newdoc(opts, job):
    doc = TeXDocument(config=config(opts))
    doc.userdata['jobname'] = job
    doc.userdata['working-dir'] = '.'
    return doc


def reset(files=()):
    _FS.files.clear()
    del _FS.dirs[:]
    del _FS.log[:]
    for k, v in files:
        _FS.files[k] = v


def output(skip=()):
    out = []
    for k in _FS.files:
        if not k.endswith('.paux'):
            out.append([k, _FS.files[k]])
    return out
'''


def boot(C, driver, mods=()):
    from . import core
    old = core.image.make

    def make(repo):
        m = old(repo)
        fs.install(m)
        return m
    core.image.make = make
    try:
        C.boot(SRC + driver, ['plasTeX.Renderers', 'plasTeX.Config', 'plasTeX.Compile', 'plasTeX.Imagers'] + list(mods))
    finally:
        core.image.make = old
    for n in ('_FS', '_Pickled', '_Garbage', '_UnpicklingError', '_PicklingError'):
        C.g[n] = B.prelude[n]


HTML = r'''
import sys
import plasTeX.Renderers.PageTemplate as _pt
import plasTeX.Renderers.HTML5 as _h5
import plasTeX.Renderers.HTML5.Config as _h5c
sys.modules['plasTeX.Renderers.PageTemplate'] = _pt
sys.modules['plasTeX.Renderers.HTML5'] = _h5
_loaded = {}


def hconfig(opts):
    c = _defaultConfig()
    _h5c.addConfig(c)
    c['images']['imager'] = 'none'
    c['images']['vector-imager'] = 'none'
    c['general']['copy-theme-extras'] = False
    c['html5']['use-mathjax'] = False
    for s, k, v in opts:
        c[s][k] = v
    return c


def hdoc(opts, job):
    doc = TeXDocument(config=hconfig(opts))
    doc.userdata['jobname'] = job
    doc.userdata['working-dir'] = '.'
    return doc


def preload(theme):
    """run the template loader of the renderer for a theme"""
    doc = hdoc([['general', 'theme', theme]], 'x')
    r = _h5.Renderer()
    r.loadTemplates(doc)
    _loaded[theme] = (r, dict(r))


class _Images(object):
    pass


def hrenderer(theme):
    r0, d = _loaded[theme]
    r = _h5.Renderer()
    r.update(d)
    r.loadedTheme = r0.loadedTheme

    def load(document):
        rd = document.rendererdata.setdefault('html5', dict())
        rd['css'] = []
        rd['js'] = []
    r.loadTemplates = load
    return r


class _NoImages(_NoImager):
    def __init__(self, document, imageTypes=None):
        self.images = {}
        self.staticimages = {}


def html(src, opts, job='doc', theme='default'):
    """process and render a document; its files"""
    reset()
    _imagers.Imager = _imagers.VectorImager = _NoImages
    doc = hdoc(opts + [['general', 'theme', theme]], job)
    t = TeX(doc)
    t.input(src)
    t.parse()
    r = hrenderer(theme)
    r.render(doc)
    return output()
'''


def boot_html(C, driver, mods=(), themes=('default', 'minimal')):
    from am import jinja
    from . import core
    old = core.image.make

    def make(repo):
        m = old(repo)
        jinja.install(m)
        fs.tree(m)
        return m
    core.image.make = make
    try:
        boot(C, HTML + driver, ['plasTeX.Renderers.HTML5'] + list(mods))
    finally:
        core.image.make = old
    for t in themes:
        C.m.eval(C.g['preload'], [t])
