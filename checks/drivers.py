"""analysis harness: interpreted by the abstract machine together with the analysed sources"""
SRC = r'''
from plasTeX.TeX import TeX
from plasTeX import TeXDocument
import plasTeX
from plasTeX.Tokenizer import *
from plasTeX.Context import Context


def new():
    return TeX()


def prepare(src):
    tex = TeX()
    tex.input(src)
    for t in tex:
        pass
    return tex


def parse(tex, src):
    tex.input(src)
    return tex.parse()


def ptext(tex, src):
    """visible text of the document"""
    tex.input(src)
    return tex.parse().textContent


def tokens(tex, src):
    """expanded token stream"""
    tex.input(src)
    return [t for t in tex]


def toktext(tex, src):
    tex.input(src)
    out = []
    for t in tex:
        if t.nodeType == t.ELEMENT_NODE:
            out.append(('E', t.nodeName))
        else:
            out.append((t.catcode, str(t)))
    return out


def dump(n, attrs=True):
    """tree as nested tuples: text, or (name, attributes, children)"""
    if n is None or isinstance(n, (int, float, bool)):
        return n
    if isinstance(n, (list, tuple)) and not hasattr(n, 'nodeType'):
        return [dump(x, attrs) for x in n]
    if isinstance(n, dict) and not hasattr(n, 'nodeType'):
        return [(k, dump(n[k], attrs)) for k in n]
    if isinstance(n, str):
        return str(n)
    a = []
    if attrs and n.nodeType == n.ELEMENT_NODE and n.attributes:
        for k, v in n.attributes.items():
            if v is n.childNodes or k == 'self':
                continue
            a.append((k, dump(v, attrs)))
    return (n.nodeName, a, [dump(c, attrs) for c in n.childNodes])
'''
