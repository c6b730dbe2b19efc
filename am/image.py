"""Base image: plasTeX loaded in the abstract machine with logging opaque."""
import sys
from .machine import Machine
from .values import *
from .absdom import Opq

def make(repo='/repo'):
    m = Machine(repo)
    lg = ModuleV('plasTeX.Logging', {'__name__': 'plasTeX.Logging',
        'getLogger': IntrV('getLogger', lambda m, a, k: Opq('log.'), False),
        'updateLogLevels': IntrV('u', lambda m, a, k: None, False),
        'disableLogging': IntrV('u', lambda m, a, k: None, False),
        'fileLogging': IntrV('u', lambda m, a, k: None, False)})
    m.stubs['plasTeX.Logging'] = lg
    import os

    def isfile(m, a, k):
        p = a[0]
        return isinstance(p, str) and p.startswith(m.repo + os.sep) and os.path.isfile(p)

    def exists(m, a, k):
        p = a[0]
        return isinstance(p, str) and p.startswith(m.repo + os.sep) and os.path.exists(p)
    m.hooks['os.path.isfile'] = isfile
    m.hooks['os.path.exists'] = exists
    m.hooks['os.path.isdir'] = exists
    m.hooks['os.getcwd'] = lambda m, a, k: '/work'
    m.hooks['os.path.abspath'] = lambda m, a, k: a[0] if isinstance(a[0], str) and a[0].startswith('/') else mkstr(['/work/', a[0]])
    m.hooks['os.path.realpath'] = m.hooks['os.path.abspath']
    import configparser
    m.hooks['configparser.RawConfigParser'] = lambda m, a, k: HostV(configparser.RawConfigParser())

    def kpse(m, a, k):
        m.throw('FileNotFoundError', 'not found')
    m.summaries[('plasTeX.TeX', 'TeX.kpsewhich')] = kpse
    m.summaries[('plasTeX.Context', 'Context.loadLanguage')] = lambda m, a, k: None
    return m
