"""C30: object references, in worlds of modules made up for each case."""
import importlib
import os
import shutil
import sys
import tempfile
import types

import build as _build
from cases_fields import PHASE, TZ
from facts import Facts
from gen import Gen
from nodes import codes, enc, nd, text
from project import DETAIL, SPECIAL, outcome

from scheme import fields as F

OBJS = {}           # number -> object of the case at hand
store = types.ModuleType('vpreg')
store.OBJS = OBJS
sys.modules['vpreg'] = store


class World(object):
    """modules in a scratch folder, and what is in them"""

    def __init__(self, g, top):
        self.g, self.top = g, top
        self.mods, self.objs, self.src, self.plain = [], [], [], {}
        r = g.r
        p = self.module([top], 1)
        names = ['one', 'two', 'sub', 'Deep', 'x_y', 'été']
        r.shuffle(names)
        for n in names[:g.pick(1, 2, 2, 3)]:
            m = self.module([top, n], g.pick(0, 0, 1))
            if self.mods[m]['pkg'] and g.chance(0.7):
                self.module([top, n, g.pick('inner', 'leaf')], 0)
        if g.chance(0.4):
            self.module([top + 'b'], g.pick(0, 0, 1))
        for m in range(1, len(self.mods)):
            md = self.mods[m]
            md['load'] = g.pick(*(['ok'] * 7 + ['gone', 'fail']))
        self.fill()

    def module(self, path, pkg):
        self.mods.append(dict(path=path, pkg=pkg, load='ok', needs=[], attrs=[]))
        self.src.append([])
        return len(self.mods) - 1

    def obj(self, kind, mod, qual, **kw):
        o = dict(kind=kind, mod=mod, qual=qual, attrs=[])
        o.update(kw)
        self.objs.append(o)
        return len(self.objs)

    def attr(self, m, n, o):
        self.mods[m]['attrs'] = [a for a in self.mods[m]['attrs'] if a[0] != n] + [[n, o]]

    def fill(self):
        g = self.g
        for m in range(len(self.mods)):
            md, out = self.mods[m], self.src[m]
            path = md['path']
            out.append('# -*- coding: utf-8 -*-\nfrom vpreg import OBJS')
            # what it imports itself: earlier modules which load, whose parents do not need this one
            for k in range(m):
                if g.chance(0.15) and self.loads(k) and self.mods[k]['path'] != path[:len(self.mods[k]['path'])]:
                    md['needs'].append(self.mods[k]['path'])
                    out.append('import %s' % '.'.join(self.mods[k]['path']))
                    here = [a for a in self.mods[k]['attrs'] if a[1] > 0]
                    if here and g.chance(0.7):
                        a = g.r.choice(here)
                        sub = self.mods[k]['path'] + [a[0]]
                        if not any(x['path'] == sub for x in self.mods):
                            n = g.pick('borrowed', a[0])
                            out.append('from %s import %s as %s' % ('.'.join(self.mods[k]['path']), a[0], n))
                            self.attr(m, n, a[1])
            subs = [x['path'][-1] for x in self.mods if x['path'][:-1] == path]
            for _ in range(g.r.randint(1, 5)):
                kind = g.pick('class', 'class', 'func', 'func', 'lambda', 'inst', 'inst', 'local', 'gone', 'alias', 'moved', 'equal', 'attr')
                n = g.pick('A', 'B', 'f', 'thing', 'Éa', *subs) if g.chance(0.9) else g.pick('one', 'two', '_x')
                if kind == 'class':
                    c = self.obj('class', path, [n])
                    out.append('class %s(object):\n    pass\n%s.__qualname__ = %r\nOBJS[%d] = %s' % (n, n, n, c, n))
                    self.attr(m, n, c)
                    if g.chance(0.5):
                        d = self.obj('class', path, [n, 'N'])
                        e = self.obj('inst', path, [])
                        out.append('class N(object):\n    pass\nN.__qualname__ = %r\n%s.N = N\nOBJS[%d] = N\n'
                                   'N.deep = N()\nOBJS[%d] = N.deep\ndel N' % (n + '.N', n, d, e))
                        self.objs[c - 1]['attrs'].append(['N', d])
                        self.objs[d - 1]['attrs'].append(['deep', e])
                        self.mods[m]['attrs'] = [a for a in self.mods[m]['attrs'] if a[0] != 'N']
                elif kind in ('func', 'lambda', 'moved', 'gone', 'local'):
                    o = self.obj('class' if kind == 'local' else 'func', path, ['maker', '<locals>', 'L'] if kind == 'local' else [])
                    if kind == 'lambda':
                        out.append('%s = lambda: %d\nOBJS[%d] = %s' % (n, o, o, n))
                        self.attr(m, n, o)
                    elif kind == 'local':
                        out.append('def maker():\n    class L(object):\n        pass\n    return L\nOBJS[%d] = maker()\ndel maker' % o)
                        self.mods[m]['attrs'] = [a for a in self.mods[m]['attrs'] if a[0] != 'maker']
                    else:
                        out.append('def %s(): pass\nOBJS[%d] = %s' % (n, o, n))
                        self.attr(m, n, o)
                        if kind == 'moved':
                            other = g.r.choice(self.mods)['path'] if g.chance(0.7) else ['nowhere', 'at', 'all']
                            out.append('%s.__module__ = %r' % (n, '.'.join(other)))
                            self.objs[o - 1]['mod'] = other
                        if kind == 'gone':
                            out.append('del %s' % n)
                            self.mods[m]['attrs'] = [a for a in self.mods[m]['attrs'] if a[0] != n]
                elif kind in ('inst', 'equal', 'attr'):
                    # an object of a class of this module, at module level
                    o = self.obj('inst', path, [])
                    eq = ('    def __eq__(self, other): return True\n    def __hash__(self): return 7\n' if kind == 'equal'
                          else '    __hash__ = None\n' if kind == 'attr' and g.chance(0.3) else '    pass\n')
                    out.append('class _I(object):\n%s%s = _I()\nOBJS[%d] = %s' % (eq, n, o, n))
                    self.attr(m, n, o)
                    if kind == 'equal' and g.chance(0.7):       # its equal, which has no name
                        o2 = self.obj('inst', path, [])
                        out.append('OBJS[%d] = _I()' % o2)
                    if kind == 'attr':
                        o3 = self.obj('inst', path, [])
                        out.append('%s.x = _I()\nOBJS[%d] = %s.x' % (n, o3, n))
                        self.objs[o - 1]['attrs'].append(['x', o3])
                    out.append('del _I')
                elif kind == 'alias' and self.mods[m]['attrs']:
                    a = g.r.choice(self.mods[m]['attrs'])
                    if a[0] not in subs:
                        out.append('alias = %s' % a[0])
                        self.attr(m, 'alias', a[1])
            if md['load'] == 'gone':
                out.append('import %s_missing' % self.top)
            elif md['load'] == 'fail':
                out.append(g.pick('raise ValueError("no")', 'raise ImportError("cannot")', '1 / 0', 'raise Exception()', 'raise KeyError(1)'))

    def loads(self, k):
        md = self.mods[k]
        return all(x['load'] == 'ok' and all(self.loads(self.find(n)) for n in x['needs'])
                   for x in self.mods if md['path'][:len(x['path'])] == x['path'])

    def find(self, path):
        return [i for i, x in enumerate(self.mods) if x['path'] == path][0]

    def write(self, root):
        for md, src in zip(self.mods, self.src):
            d = os.path.join(root, *md['path'])
            if md['pkg']:
                os.makedirs(d, exist_ok=True)
                fn = os.path.join(d, '__init__.py')
            else:
                fn = d + '.py'
            with open(fn, 'w', encoding='utf-8') as f:
                f.write('\n'.join(src) + '\n')

    def model(self):
        cp = lambda p: [codes(x) for x in p]
        return dict(mods=[dict(path=cp(m['path']), pkg=m['pkg'], load=m['load'], needs=[cp(n) for n in m['needs']],
                               attrs=[dict(n=codes(a), o=o) for a, o in m['attrs']]) for m in self.mods],
                    objs=[dict(kind=o['kind'], key=codes('o%d' % (i + 1)), mod=cp(o['mod']), qual=cp(o['qual']),
                               attrs=[dict(n=codes(a), o=x) for a, x in o['attrs']]) for i, o in enumerate(self.objs)])

    def special(self, v):
        if isinstance(v, types.ModuleType):
            return nd('obj', codes('m:' + v.__name__))
        for k, o in OBJS.items():
            if o is v:
                return nd('obj', codes('o%d' % k))

    def paths(self):
        """every module and attribute chain, right or not quite"""
        out = []

        def chain(base, o, deep):
            for a, x in (self.mods[-o - 1] if o < 0 else self.objs[o - 1])['attrs']:
                out.append((base, [a]) if not deep else (base[0], base[1] + [a]))
                if deep < 3:
                    chain(out[-1], x, deep + 1)
        for i, m in enumerate(self.mods):
            out.append((m['path'], []))
            n = len(out)
            for a, x in m['attrs']:
                out.append((m['path'], [a]))
                self.descend(out, m['path'], [a], x)
        return out

    def descend(self, out, base, names, o):
        if o > 0 and len(names) < 4:
            for a, x in self.objs[o - 1]['attrs']:
                out.append((base, names + [a]))
                self.descend(out, base, names + [a], x)


def path_text(g, w):
    base, names = g.r.choice(w.paths())
    if g.chance(0.15):
        names = names + [g.pick('nope', 'A', 'x', '')]
    if g.chance(0.1):
        base = base[:-1] + [g.pick('nope', w.top, 'inner')]
    if g.chance(0.1) and len(base) > 1:
        names, base = [base[-1]] + names, base[:-1]
    t = '.'.join(base) + ((g.pick('.', '.', ':') + '.'.join(names)) if names else '')
    if g.chance(0.12):
        t = g.pick('', '.', ':', '..', t + '.', '.' + t, t + ':', ':' + t, t + ':x:y', ' ' + t, t + ' ', t.replace('.', ':'), 'nope', 'nope.nope',
                   'nope:nope', t.replace('.', '..'), t + '\n', '%s', '1.2', t.upper(), '\x00', w.top + '\x00')
    if t.startswith('.') or ':.' in t:      # the interpreter's own reading of ".name" is not claimed
        t = 'nope' + t
    return t


def c30(key, i, tier, rec):
    g = Gen(key, nan=False)
    OBJS.clear()
    top = 'vp%dq%d' % (os.getpid(), i)
    w = World(g, top)
    root = tempfile.mkdtemp(prefix='vpobj')
    try:
        w.write(root)
        sys.path.insert(0, root)
        importlib.invalidate_caches()
        steps(g, rec, w)
    finally:
        if root in sys.path:
            sys.path.remove(root)
        for n in list(sys.modules):
            if n == top or n == top + 'b' or n.startswith(top + '.') or n.startswith(top + 'b.'):
                del sys.modules[n]
        shutil.rmtree(root, ignore_errors=True)


def steps(g, rec, w):
    out = []
    DETAIL[0], SPECIAL[0] = True, w.special
    f = g.base('object', name=g.pick([], [codes('thing')], [codes('été')]), pre='none', required=0)
    f.update(pre='none', constant=[])
    kw = dict(name=text(f['name'][0])) if f['name'] else {}
    fld = F.Object(nonnull=True, **kw) if f['nonnull'] else F.Object(**kw)
    base = dict(op='process', f=f, v=enc(None), ph='in', ser=1, trip=0, path=[], out=outcome(lambda: None)[0], cx=Facts(TZ).cx())

    def use(v, ph, ser, trip=0):
        res, val = outcome(lambda: fld.process(v, PHASE[ph], bool(ser)), special=w.special)
        fx = Facts(TZ)
        if isinstance(v, str):
            fx.add('repr', enc(v), [enc(repr(v))])
        out.append(dict(base, cx=fx.cx(), v=enc(v, w.special), ph=ph, ser=int(ser), out=res, trip=trip))
        return res, val
    for _ in range(g.r.randint(3, 10)):
        what = g.pick('path', 'path', 'path', 'load', 'name', 'name', 'name', 'odd')
        if what == 'load':
            m = g.r.choice(w.mods)
            try:
                importlib.import_module('.'.join(m['path']))
            except Exception:
                pass
            out.append(dict(base, op='load', path=[codes(x) for x in m['path']]))
        elif what == 'path':
            use(path_text(g, w), g.pick('in', 'in', 'in', 'in', 'out'), g.pick(1, 1, 1, 0))
        elif what == 'name':
            mods = [sys.modules['.'.join(m['path'])] for m in w.mods if '.'.join(m['path']) in sys.modules]
            have = sorted(OBJS) + mods * (1 if g.chance(0.4) else 0)
            if have:
                k = g.r.choice(have)
                o = OBJS[k] if isinstance(k, int) else k
                res, val = use(o, 'out', 1)
                if res['r'] == 'ok' and isinstance(val, str) and g.chance(0.7):
                    use(val, 'in', 1)
        else:
            v = g.pick(None, 5, 1.5, [], {}, (), b'x', [1], True, 10 ** 30)
            use(v, g.pick('in', 'out'), g.pick(0, 1))
    rec('objects', w=w.model(), steps=out)


CASES = {'C30': c30}
