"""C31: nested mappings."""
from collections import OrderedDict

from gen import Gen
from nodes import codes, enc

from scheme.util import recursive_merge, set_nested_value, traverse_to_key

KEYS = ['a', 'b', 'c', 'a', 'b']
ODD = ['', 'a b', 'é', '0', 'a.b', 1, None, True, (1, 2)]
LEAVES = [0, 1, 'x', None, [1], [], (1,), True, '', [{'a': 1}], 1.5]


def small(n):
    """the nth small mapping: keys a and b, two levels"""
    leaf = [None, 0, 1]
    inner = [None, 0] + [dict((k, v) for k, v in (('a', x), ('b', y)) if v is not None) for x in leaf for y in leaf]
    x, y = inner[n % 11], inner[n // 11 % 11]
    copy = lambda v: dict(v) if isinstance(v, dict) else v
    return dict((k, copy(v)) for k, v in (('a', x), ('b', y)) if v is not None)


def nested(g, depth):
    out = g.pick(dict, dict, dict, OrderedDict)()
    for _ in range(g.r.randint(0, 3)):
        k = g.r.choice(KEYS) if g.chance(0.93) else g.r.choice(ODD)
        out[k] = nested(g, depth - 1) if depth and g.chance(0.55) else leaf(g)
    return out


def leaf(g):
    v = g.r.choice(LEAVES)
    return list(v) if isinstance(v, list) else v


def inside(x, y):
    """does y occur in x"""
    return x is y or isinstance(x, dict) and any(inside(v, y) for v in x.values())


class Mappings(object):
    def __init__(self):
        self.hs, self.steps = [], []

    def do(self, op, fn, h=0, ref=0, path='', v=None):
        st = dict(op=op, h=h, ref=ref, path=[enc(k) for k in path.split('.')], v=enc(v), r='ok', out=enc(None), self=1)
        try:
            res = fn()
            if op == 'new':
                self.hs.append(res)
            elif op == 'get':
                st['out'] = enc(res)
            elif op == 'merge':
                st['self'] = int(res is self.hs[h - 1])
        except KeyError:
            st['r'] = 'key'
        except TypeError:
            st['r'] = 'type'
        except Exception as e:
            st['r'] = type(e).__name__
        st['obs'] = [enc(x) for x in self.hs]
        self.steps.append(st)

    def new(self, v):
        self.do('new', lambda: v, v=v)

    def set(self, h, path, v=None, ref=0):
        val = self.hs[ref - 1] if ref else v
        self.do('set', lambda: set_nested_value(self.hs[h - 1], path, val), h, ref, path, v)

    def get(self, h, path):
        self.do('get', lambda: traverse_to_key(self.hs[h - 1], path), h, 0, path)

    def merge(self, h, ref):
        self.do('merge', lambda: recursive_merge(self.hs[h - 1], self.hs[ref - 1]), h, ref)


def c31(key, i, tier, rec):
    g = Gen(key)
    m = Mappings()
    if i % 2 == 0:          # small mappings, pair after pair
        n = i // 2 * 7919 + g.r.randrange(11 ** 4)
        m.new(small(n))
        m.new(small(n // 121))
        m.merge(1, 2)
        for p in ('a', 'b', 'a.a', 'b.a', 'a.b.a'):
            m.get(1, p)
        p = g.pick('a', 'b', 'a.a', 'a.b', 'b.a', 'b.b', 'a.a.a', 'c', 'c.a')
        m.set(1, p, 7)
        m.get(1, p)
    else:
        for _ in range(g.r.randint(1, 3)):
            m.new(nested(g, g.pick(1, 2, 3)))
        for _ in range(g.r.randint(2, 7)):
            h = g.r.randint(1, len(m.hs))
            path = '.'.join(g.r.choice(KEYS) if g.chance(0.95) else g.pick('', 'é', '0', 'zz')
                            for _ in range(g.pick(1, 1, 2, 2, 3, 4)))
            what = g.pick('set', 'set', 'merge', 'merge', 'get', 'new')
            if what == 'new':
                m.new(nested(g, 2))
            elif what == 'get':
                m.get(h, path)
            elif what == 'set':
                ref = g.r.randint(1, len(m.hs)) if g.chance(0.3) else 0
                if ref and inside(m.hs[ref - 1], m.hs[h - 1]) or ref and shares(m.hs[ref - 1], m.hs[h - 1]):
                    ref = 0
                v = nested(g, 1) if g.chance(0.4) else leaf(g)
                m.set(h, path, None if ref else v, ref)
                m.get(h, path)
            else:
                ref = g.r.randint(1, len(m.hs))
                if ref != h and not shares(m.hs[ref - 1], m.hs[h - 1]):
                    m.merge(h, ref)
    rec('nested', steps=m.steps)


def maps(x, out):
    if isinstance(x, dict) and id(x) not in out:
        out.add(id(x))
        for v in x.values():
            maps(v, out)
    return out


def shares(x, y):
    return bool(maps(x, set()) & maps(y, set()))


CASES = {'C31': c31}
