"""Obligation runner shared by all checks.

An obligation is an abstract input schema (unknown words, characters, numbers, objects), an analysed entry point of
/repo's source, and the result the property prescribes.  The abstract machine (am/) computes every abstract path of the
entry point; an obligation is
  discharged  every abstract path ends in a result equal to the prescribed one,
  violated    some feasible abstract path ends in a different exact result (or in an exception),
  undecided   the abstraction is too coarse on some path (never reported as a violation).
"""
import json
import multiprocessing
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from am.values import *          # noqa
from am.machine import Unsupported, PyRaise, Fork   # noqa
from am import image             # noqa
from am import absdom            # noqa

REPO = os.environ.get('VERIF_REPO', '/repo')


# ---------------------------------------------------------------- abstract text
def T(s):
    """template text: <name> stands for an unknown word (one or more letters), distinct names are distinct words"""
    parts = re.split(r'<([A-Za-z]\w*)>', s)
    return mkstr([p if i % 2 == 0 else Sym(p, 'str', 'word') for i, p in enumerate(parts)])


def text(v):
    """printable form of an abstract string"""
    if isinstance(v, str):
        return v
    if isinstance(v, SStr):
        return ''.join(text(p) for p in v.parts)
    if isinstance(v, Sym):
        return '<%s>' % v.name
    return '<%r>' % (v,)


def obs(m, v, depth=0):
    """abstract result -> comparable host structure"""
    if depth > 60:
        return '...'
    if v is None or type(v) in (bool, int, float, str, bytes):
        return v
    t = type(v)
    if t is tuple:
        return tuple(obs(m, x, depth + 1) for x in v)
    if t is ListV:
        return [obs(m, x, depth + 1) for x in v.items]
    if t is DictV:
        return {_k(obs(m, k, depth + 1)): obs(m, x, depth + 1) for k, x in v.data.values()}
    if t is SetV:
        return set(_k(obs(m, x, depth + 1)) for x in v.data.values())
    if t is Obj:
        if v.payload is not None and (type(v.payload) in (str, int, float) or isinstance(v.payload, Abs)):
            return obs(m, v.payload, depth + 1)
        return '<obj %s>' % v.cls.name
    if isinstance(v, Ch):
        d = absdom.ch_dom(m, v)
        if not d[0] and len(d[1]) == 1:
            return next(iter(d[1]))
        return '<%s>' % v.name
    if isinstance(v, SStr):
        return ''.join(x if isinstance(x, str) else str(obs(m, x, depth + 1)) for x in v.parts)
    if isinstance(v, Sym):
        return '<%s>' % v.name
    if isinstance(v, Abs):
        return v
    if t is ClassV:
        return '<class %s>' % v.name
    return '<%s>' % t.__name__


def _k(x):
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


class Ob(object):
    __slots__ = ('id', 'rule', 'anchor', 'run', 'weight')

    def __init__(self, id, rule, anchor, run):
        self.id, self.rule, self.anchor, self.run = id, rule, anchor, run


class Broken(object):
    """a starting state that could not be computed"""
    def __init__(self, status, detail):
        self.status, self.detail = status, detail


class Check(object):

    def __init__(self, pid, title):
        self.pid, self.title = pid, title
        self.obs = []
        self.rules = {}
        self.m = None
        self.g = None
        self.t0 = time.time()
        self.tier = 'quick'
        self.samples = []
        self.ids = set()

    # ------------------------------------------------ image
    def boot(self, driver='', extra_modules=()):
        m = image.make(REPO)
        for n in ('plasTeX.TeX',) + tuple(extra_modules):
            m.load(n)
        self.m = m
        from . import drivers
        self.g = m.compile_driver(drivers.SRC + '\n' + driver)
        self.tex = m.eval(self.g['new'])
        return m

    def prepare(self, src):
        """a TeX object that has processed src, or None when the analysed code cannot process it"""
        try:
            return self.m.eval(self.g['prepare'], [T(src)])
        except PyRaise as e:
            v = e.exc
            return Broken('viol', 'the preamble raises %s(%s)' % (v.cls.name, ', '.join(repr(obs_safe(x)) for x in (v.attrs.get('args') or ()))))
        except (Unsupported, Fork, RecursionError) as e:
            return Broken('und', 'the preamble cannot be analysed: %s' % e)

    def freeze(self):
        self.m.freeze()

    def fn(self, modname, qual):
        """the analysed function/class/attribute, or None when it is gone"""
        mod = self.m.modules.get(modname)
        if mod is None:
            self.m.load(modname)
            mod = self.m.modules[modname]
        parts = qual.split('.')
        v = mod.dict.get(parts[0])
        for p in parts[1:]:
            if type(v) is not ClassV:
                return None
            v = v.dict.get(p)
        return v

    # ------------------------------------------------ obligations
    def add(self, id, rule, anchor, run):
        if id in self.ids:
            n = 2
            while '%s#%d' % (id, n) in self.ids:
                n += 1
            id = '%s#%d' % (id, n)
        self.ids.add(id)
        self.rules[rule] = self.rules.get(rule, 0) + 1
        self.obs.append(Ob(id, rule, anchor, run))

    def expect(self, id, rule, anchor, func, args, want, init_facts=None, max_paths=400, max_steps=3000000, time_limit=60,
               observe=None, kwargs=None, setup=None):
        """obligation: every abstract path of func(*args) returns `want` (a value, or predicate(obs, facts)->error or None)"""
        f = self.g[func] if isinstance(func, str) else func

        broken = [x for x in args if isinstance(x, Broken)]

        def run(m):
            if broken:
                return {'status': broken[0].status, 'detail': broken[0].detail, 'paths': 0}

            def ob(m, kind, value):
                return obs(m, value) if kind == 'return' else None
            a = [T(x) if isinstance(x, str) and '<' in x and False else x for x in args]
            if setup:
                setup(m)
            rs = m.explore(f, a, kwargs, observe or ob, max_paths=max_paths, init_facts=init_facts, max_steps=max_steps, time_limit=time_limit)
            return judge(m, rs, want)
        self.add(id, rule, anchor, run)

    # ------------------------------------------------ run
    def finish(self, tier):
        self.tier = tier
        budget = float(os.environ.get('VERIF_BUDGET', '780'))
        n = len(self.obs)
        results = [None] * n
        order = list(range(n))
        nproc = min(int(os.environ.get('VERIF_JOBS', '8')), os.cpu_count() or 1, max(1, n // 4))
        global _C
        _C = self
        deadline = self.t0 + budget
        self.deadline = deadline
        if nproc > 1:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(nproc) as pool:
                for i, r in pool.imap_unordered(_work, order, chunksize=max(1, min(8, n // (nproc * 8)))):
                    results[i] = r
        else:
            for i in order:
                results[i] = _work(i)[1]
        return self.report(results)

    def report(self, results):
        viol, und, ok = [], [], 0
        paths = 0
        funcs = set()
        for ob, r in zip(self.obs, results):
            paths += r.get('paths', 0)
            funcs.update(r.get('funcs', ()))
            if r['status'] == 'ok':
                ok += 1
            elif r['status'] == 'viol':
                viol.append((ob, r))
            else:
                und.append((ob, r))
        known = load_known(self.pid)
        rep_dir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rep_dir, exist_ok=True)
        new = []
        kf = []
        for ob, r in viol:
            k = [x for x in known if x['key'] == ob.id or x['key'].endswith('*') and ob.id.startswith(x['key'][:-1])]
            if k:
                kf.append((ob, r, k[0]))
            else:
                new.append((ob, r))
        seenk = set()
        for ob, r, k in kf:
            if k['key'] not in seenk:
                seenk.add(k['key'])
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k['key'], k['what']))
        for i, (ob, r) in enumerate(new[:25]):
            path = os.path.join(rep_dir, '%s-%d.json' % (self.pid, i + 1))
            with open(path, 'w') as fh:
                json.dump({'property': self.pid, 'obligation': ob.id, 'rule': ob.rule, 'anchor': anchors(ob.anchor), 'detail': r['detail'],
                           'where': r.get('where'), 'path': r.get('trace')}, fh, indent=1, default=repr)
            print('%s: [%s] %s' % (r.get('where') or '; '.join(anchors(ob.anchor).split('; ')[:3]), ob.id, ob.rule))
            print('    ' + r['detail'].replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        if os.environ.get('VERIF_BRIEF'):
            for ob, r in new:
                print('  ## %s\n     %s' % (ob.id, r['detail'].replace('\n', '\n     ')))
        wall = time.time() - self.t0
        nob = len(self.obs)
        repo_funcs = sorted(funcs)
        cov = {
            'explanation': self.title,
            'obligations': nob, 'discharged': ok, 'undecided': len(und), 'known_findings': len(kf), 'violations': len(new),
            'abstract_paths': paths,
            'analysed_functions': len(repo_funcs),
            'functions': repo_funcs[:400],
            'rules': {k: v for k, v in sorted(self.rules.items())},
            'anchors': sorted(set(a for ob in self.obs for a in anchors(ob.anchor).split('; '))),
            'undecided_list': ['%s: %s' % (ob.id, r.get('detail', '')[:200]) for ob, r in und[:60]],
            'samples': [ob.id for ob in self.obs[:: max(1, nob // 12)]][:14],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': cov, 'wall_s': round(wall, 2)}
        if new:
            ev['violations'] = len(new)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=repr)
        print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d abstract paths, %d functions, %.1fs' % (
            self.pid, nob, ok, len(und), len(kf), len(new), paths, len(repo_funcs), wall))
        if os.environ.get('VERIF_VERBOSE'):
            for ob, r in und:
                print('  undecided %s: %s' % (ob.id, r.get('detail', '')[:300]))
        if new:
            return 1
        if nob == 0 or ok + len(kf) == 0:
            print('ANALYSIS-BROKEN: no obligation of %s could be decided' % self.pid)
            return 2
        return 0


def _work(i):
    C = _C
    ob = C.obs[i]
    m = C.m
    if time.time() > C.deadline:
        return i, {'status': 'und', 'detail': 'time budget exhausted', 'paths': 0}
    try:
        if m is not None:
            m.visited = set()
        r = ob.run(m)
        if m is not None:
            r['funcs'] = sorted('%s:%s' % (os.path.relpath(c.co_filename, REPO), c.co_qualname) for c in m.visited
                                if c.co_filename.startswith(REPO)) + list(r.get('funcs', ()))
    except Exception as e:
        r = {'status': 'und', 'detail': 'analysis error: %s' % traceback.format_exc(limit=-3), 'paths': 0}
    if r['status'] == 'viol':
        r['detail'] = str(r['detail'])
    return i, r


def judge(m, rs, want, trace_all=False):
    """compare path results with the prescribed result"""
    und = None
    n = 0
    for r in rs:
        if r.kind == 'prune':
            continue
        n += 1
        if r.kind == 'undecided':
            und = und or str(r.value)
            continue
        if r.kind == 'raise':
            if callable(want) and getattr(want, 'raises', False):
                err = want(r, r.facts)
                if err is None:
                    continue
            else:
                err = 'raises %s(%s)' % (r.value.cls.name, ', '.join(repr(obs_safe(x)) for x in (r.value.attrs.get('args') or ())))
        elif callable(want):
            try:
                err = want(r if getattr(want, 'raises', False) else r.out, r.facts)
            except Exception as e:
                und = und or 'oracle: %r' % e
                continue
            if err == 'UNDECIDED':
                und = und or 'oracle cannot decide'
                continue
        else:
            err = None if same(r.out, want) else 'computed %s\nprescribed %s' % (short(r.out), short(want))
        if err is not None:
            has_abs = r.kind != 'raise' and containsabs(r.out)
            if has_abs:
                und = und or 'inexact result: ' + err
                continue
            return {'status': 'viol', 'detail': err + trace_txt(r), 'where': relwhere(r.where), 'paths': n, 'trace': [repr(x) for x in r.trace[-30:]]}
    if und:
        return {'status': 'und', 'detail': und, 'paths': n}
    if n == 0:
        return {'status': 'und', 'detail': 'no path', 'paths': 0}
    return {'status': 'ok', 'paths': n}


def relwhere(w):
    return w


def obs_safe(x):
    return text(x) if isinstance(x, (str, Abs)) else x


def trace_txt(r):
    out = []
    for fn, line, upd in r.trace[-12:]:
        for k, v in upd.items():
            out.append('%s:%s %.60r = %.60r' % (os.path.relpath(fn, REPO) if fn.startswith(REPO) else fn, line, k, v))
    return ('\nunder: ' + '; '.join(out)) if out else ''


def containsabs(x):
    if isinstance(x, Abs):
        return not isinstance(x, (Lin,))
    if isinstance(x, (list, tuple, set)):
        return any(containsabs(y) for y in x)
    if isinstance(x, dict):
        return any(containsabs(y) or containsabs(k) for k, y in x.items())
    return False


def same(a, b):
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return abs(a - b) <= 1e-6 * max(1, abs(b))
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            pass
        else:
            return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float):
        return abs(a - b) <= 1e-6 * max(1.0, abs(b))
    return a == b


def short(x, n=900):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- anchors -> file:line
_idx = {}


def _index(rel):
    if rel in _idx:
        return _idx[rel]
    import ast
    d = {}
    try:
        with open(os.path.join(REPO, rel), encoding='utf-8') as fh:
            tree = ast.parse(fh.read())

        def walk(n, pre):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    q = pre + c.name
                    d[q] = c.lineno
                    walk(c, q + '.')
                else:
                    walk(c, pre)
        walk(tree, '')
    except (OSError, SyntaxError):
        pass
    _idx[rel] = d
    return d


def anchors(a):
    out = []
    for x in ([a] if isinstance(a, str) else a):
        rel, _, q = x.partition(':')
        ln = _index(rel).get(q)
        out.append('%s:%s (%s)' % (rel, ln if ln else '?', q) if q else rel)
    return '; '.join(out)


# ---------------------------------------------------------------- known findings
def load_known(pid):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            mo = re.match(r'known: property=(\S+) key=(\S+) (.*)$', l.rstrip('\n'))
            if mo and mo.group(1) == pid:
                out.append({'key': mo.group(2), 'what': mo.group(3)})
    return out
