"""C09: accepted values through serialization and back."""
from build import Builder
from cases_fields import TZ, build
from cases_ops import accepted, has
from facts import Facts
from gen import Gen, STRUCTURAL
from nodes import dec, enc
from project import outcome


class TGen(Gen):
    ENUMS = [x for x in Gen.ENUMS if not any(isinstance(y, (tuple, dict)) for y in x)]

    def junk(self, deep=0):
        return self.pick(None, True, 1, 1.5, 'a', [], {}, ['a', 1], {'a': None})

    def member(self, depth):
        """defaults are values the field accepts as they are; null never stands for a required value"""
        f = super(TGen, self).member(depth)
        if f['required'] or f.get('ign'):
            f['ignull'] = 0
        if f['default'] and (f['ignull'] or not steady(f, f['default'][0])):
            f['default'] = []
        return f

    def spec(self, depth=2, types=None):
        f = super(TGen, self).spec(depth, types)
        if f['constant'] and not steady(dict(f, default=[]), f['constant'][0]):
            f['constant'] = []
        return f


def steady(f, node):
    """does f accept this value as it is"""
    try:
        return enc(Builder().build(dict(f, default=[])).process(dec(node), 'inbound')) == node
    except Exception:
        return False


def c09(key, i, tier, rec):
    g = TGen(key, pre=0, nan=False, aware_time=False, subsec=False, oddkeys=0)
    if g.chance(0.8):
        g.p['structural'] = [t for t in STRUCTURAL if t != 'union']
    if i % 4 == 0:
        g.p['structural'] = ['structure', 'sequence', 'map', 'tuple', 'union']
    trips(g, rec)


def trips(g, rec, outside=lambda x: False):
    f = g.spec(g.pick(0, 1, 1, 2, 2, 3))
    if outside(f):
        return
    b, fld = build(rec, f)
    dom = not has(f, lambda h: h['ty'] == 'union')
    # binary serializes to base64 bytes; enumerations accept any equal value, such as a decimal
    native = not has(f, lambda h: h['ty'] == 'binary' or h['ty'] == 'enumeration' and any(
        n['t'] != 'str' for n in h['enum']))
    # in a polymorphic structure an opaque member may be given what was meant for another variant
    native = native and not (has(f, lambda h: h.get('poly')) and has(f, lambda h: h['ty'] == 'field'))
    for j in range(4):
        if fld is None:
            return
        got = accepted(g, f, fld)
        if not got or outside(enc(got[0])):
            continue
        v = got[0]
        if v is None and g.chance(0.7):
            continue
        node, before = enc(v), enc(v)
        s, sv = outcome(lambda: fld.serialize(v))
        b_, bv = outcome(lambda: fld.unserialize(sv)) if s['r'] == 'ok' else (s, None)
        again, _ = outcome(lambda: fld.process(v, 'inbound'))
        out, _ = outcome(lambda: fld.process(v, 'outbound'))
        fx = Facts(TZ).collect(f, node, s['v'], b_['v'], again['v'], out['v'])
        rec('trip', f=f, v=node, cx=fx.cx(), s=s, b=b_, again=again, out=out, dom=int(dom), native=int(native),
            mut=[] if enc(v) == before else ['value'])


CASES = {'C09': c09}
