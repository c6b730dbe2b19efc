"""regular expressions applied to unknown strings"""
from .values import *


def call(m, n, a, k):
    from .machine import Unsupported
    from . import absdom
    B = m.B
    a = [B.unwrap(x) for x in a]
    pat = a[0]
    if type(pat) is HostV or hasattr(pat, 'v'):
        pat = pat.v.pattern
    if n == 'compile':
        return Term('re.compile', (pat,))
    s = a[1] if n not in ('sub', 'subn') else a[2]
    if n == 'escape':
        s = a[0]
        return mkstr([__import__('re').escape(p) if isinstance(p, str) else p for p in (s.parts if isinstance(s, SStr) else [s])])
    raise Unsupported('re.%s(%r) on unknown string %r' % (n, pat, s))
