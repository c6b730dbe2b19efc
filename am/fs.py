"""In-memory files for the analysed program: open, os, glob and tempfile are given to a model (prelude _FS)."""
from . import builtins_ as B
from .values import IntrV, SStr, mkstr
from .machine import Unsupported


def install(m):
    P = B.prelude

    def call(name):
        def f(mm, a, k):
            return mm.call(P[name], list(a), k) or B.PUSHED
        return f
    m.hooks['open'] = call('_fs_open')

    def encoded(mm, a, k):
        s, enc, errs = [B.unwrap(x) for x in a]
        if not isinstance(enc, str) or errs is not None and not isinstance(errs, str):
            raise Unsupported('unknown encoding')
        if enc.lower().replace('_', '-') in ('utf-8', 'utf8', 'utf-16', 'utf-32'):
            return a[0]

        def one(x):
            try:
                return x.encode(enc, errs or 'strict').decode(enc) if isinstance(x, str) else x
            except LookupError as e:
                mm.throw('LookupError', str(e))
            except UnicodeEncodeError as e:
                mm.throw('UnicodeEncodeError', str(e))
        if isinstance(s, SStr):
            return mkstr([one(x) for x in s.parts])
        return one(s)
    P['_fs_open'].globals['_encoded'] = IntrV('_encoded', encoded, False)
    for n, f in (('os.remove', 'remove'), ('os.unlink', 'remove'), ('os.rename', 'rename'), ('os.replace', 'rename'), ('os.makedirs', 'makedirs'), ('os.mkdir', 'makedirs'), ('os.listdir', 'listdir'),
                 ('os.fdopen', 'fdopen'), ('glob.glob', 'glob'), ('tempfile.mkstemp', 'mkstemp'), ('tempfile.NamedTemporaryFile', 'tempfile'), ('shutil.copy', 'copy'), ('shutil.copyfile', 'copy'), ('shutil.move', 'rename')):
        m.hooks[n] = call('_fs_' + f)
    for n in ('os.fsync', 'os.close'):
        m.hooks[n] = lambda mm, a, k: None
    if hasattr(m, 'tree_hooks'):
        m.hooks['open.model'], m.hooks['os.listdir.model'] = m.hooks['open'], m.hooks['os.listdir']
        m.hooks['open'], m.hooks['os.listdir'] = m.tree_hooks
    m.hooks['os.getpid'] = lambda mm, a, k: 4242
    for n in ('exists', 'isfile', 'isdir'):
        old = m.hooks['os.path.' + n]

        def q(mm, a, k, old=old, n=n):
            if old(mm, a, k) is True:
                return True
            return call('_fs_' + n)(mm, a, k)
        m.hooks['os.path.' + n] = q


def tree(m):
    """the analysed tree itself can be read (templates of the renderers)"""
    import os
    from .values import ListV
    P = B.prelude
    root = m.repo + os.sep
    oopen, olist = m.hooks['open'] if 'open' in m.hooks else None, m.hooks.get('os.listdir')
    cache = {}

    def op(mm, a, k):
        p = B.unwrap(a[0])
        if isinstance(p, str) and p.startswith(root) and (len(a) < 2 or a[1] in ('r', 'rb')):
            if p not in cache:
                with open(p, encoding='utf-8') as fh:
                    cache[p] = fh.read()
            return mm.call(P['_fs_text'], [cache[p]], {}) or B.PUSHED
        return mm.hooks['open.model'](mm, a, k)

    def ls(mm, a, k):
        p = B.unwrap(a[0]) if a else '.'
        if isinstance(p, str) and p.startswith(root):
            return ListV(sorted(os.listdir(p)))
        return mm.hooks['os.listdir.model'](mm, a, k)
    m.tree_hooks = (op, ls)
