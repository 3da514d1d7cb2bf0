"""C01-C08: processing of scalars and structural values."""
import os

from build import Builder
from facts import Facts
from gen import Gen, SCALARS
from nodes import enc
from project import DETAIL, outcome

TZ = os.environ.get('VERIF_TZ', 'UTC')
PHASE = {'in': 'inbound', 'out': 'outbound'}


def build(rec, f, env=(), **kw):
    """the real field, or None after recording that it could not be built"""
    try:
        b = Builder(env, **kw)
        return b, b.build(f)
    except Exception as e:
        rec('build', x=type(e).__name__, f=f)
        return None, None


def process(rec, f, fld, v, ph, ser, partial=False, env=(), kf=None, op='process'):
    """calls process and records it"""
    node = enc(v)
    before = enc(v)
    kw = dict(partial=True) if partial else {}
    if op == 'process':
        call = lambda: fld.process(v, PHASE[ph], bool(ser), **kw)
    elif ph == 'in':
        call = lambda: fld.unserialize(v)
    else:
        call = lambda: fld.serialize(v)
    out, res = outcome(call)
    fx = Facts(TZ).collect(f, list(env), node, out['v'])
    if DETAIL[0]:
        fx.reports([f, list(env)]).names(node)
    ev = dict(f=f, v=node, ph=ph, ser=int(ser), partial=int(partial), cx=fx.cx(env), out=out,
              mut=[] if enc(v) == before else ['value'])
    if kf:
        ev['kf'] = kf
    rec('process', **ev)
    return out, res


def c01(key, i, tier, rec):
    g = Gen(key)
    ty = SCALARS[i % len(SCALARS)]
    f = g.spec(0, types=[ty])
    b, fld = build(rec, f)
    for j in range(6):
        if fld is None:
            return
        v = g.candidate(f, False, g.pick(0, 0, 0.3))
        process(rec, f, fld, v, g.pick('in', 'in', 'out'), 0)


def c02(key, i, tier, rec):
    g = Gen(key, pre=0.03)
    ty = SCALARS[i % len(SCALARS)]
    f = g.spec(0, types=[ty])
    b, fld = build(rec, f)
    for j in range(6):
        if fld is None:
            return
        if g.chance(0.3):
            process(rec, f, fld, g.candidate(f, False, 0.1), 'out', 1, op=g.pick('process', 'api'))
        else:
            process(rec, f, fld, g.candidate(f, True, g.pick(0, 0, 0.3)), 'in', 1, op=g.pick('process', 'api'))


def structural(types, depth=2, values=4, bads=(0, 0.03, 0.15), **profile):
    def case(key, i, tier, rec):
        g = Gen(key, **profile)
        f = g.spec(depth, types=types)
        b, fld = build(rec, f)
        for j in range(values):
            if fld is None:
                return
            ser = g.pick(0, 1)
            ph = g.pick('in', 'in', 'out')
            v = g.candidate(f, ser and ph == 'in', g.pick(*bads))
            partial = f['ty'] == 'structure' and g.chance(0.12)
            process(rec, f, fld, v, ph, ser, partial)
    return case


def c07(key, i, tier, rec):
    """many and deeply nested failures"""
    g = Gen(key, pre=0.02, default=0.1, nonnull=0.4)
    if i % 40 == 7:        # long lists of failures: numbering goes past 9 and 99
        n = g.pick(9, 10, 11, 99, 100, 101, 130)
        f = g.base('sequence', pre='none', minl=[], maxl=[], unique=0)
        f['pre'] = 'none'
        f['item'] = g.spec(0, types=['integer', 'text', 'boolean'])
        v = [g.candidate(f['item'], False, 0.7) for _ in range(n)]
        b, fld = build(rec, f)
        if fld:
            process(rec, f, fld, v, 'in', 0)
        return
    depth = g.pick(1, 2, 2, 3)
    f = g.spec(depth, types=['structure', 'sequence', 'tuple', 'map', 'structure'])
    b, fld = build(rec, f)
    for j in range(4):
        if fld is None:
            return
        ser = g.pick(0, 1)
        v = g.candidate(f, ser, g.pick(0.2, 0.4, 0.8))
        process(rec, f, fld, v, 'in', ser)


def c08(key, i, tier, rec):
    g = Gen(key, pre=0.1, discs=0.2)
    f = g.spec(g.pick(0, 1, 2))
    b, fld = build(rec, f)
    for j in range(4):
        if fld is None:
            return
        ser = g.pick(0, 1, 1)
        ph = g.pick('in', 'in', 'out')
        v = g.hostile(f) if g.chance(0.6) else g.candidate(f, ser and ph == 'in', 0.5)
        process(rec, f, fld, v, ph, ser)


def c32(key, i, tier, rec):
    """what failures say of themselves"""
    DETAIL[0] = True
    g = Gen(key, pre=0.03, default=0.1, nonnull=0.4, named=0.3)
    f = g.spec(0, types=[SCALARS[i // 2 % len(SCALARS)]]) if i % 2 else \
        g.spec(g.pick(1, 1, 2), types=['structure', 'sequence', 'tuple', 'map', 'union', 'structure'])
    b, fld = build(rec, f)
    for j in range(5):
        if fld is None:
            return
        ser = g.pick(0, 1)
        ph = g.pick('in', 'in', 'in', 'out')
        v = g.hostile(f) if g.chance(0.1) else g.candidate(f, ser and ph == 'in', g.pick(0.2, 0.5, 0.8))
        process(rec, f, fld, v, ph, ser, op=g.pick('process', 'process', 'api') if ser else 'process')


CASES = {
    'C32': c32,
    'C01': c01,
    'C02': c02,
    'C03': structural(['structure'], poly=0.03, korder=0.3),
    'C04': structural(['sequence', 'tuple', 'map'], depth=2),
    'C05': structural(['union'], depth=2, bads=(0, 0.1, 0.4)),
    'C06': structural(['structure'], poly=1.0, depth=2, bads=(0, 0.05, 0.2), discs=0.3),
    'C07': c07,
    'C08': c08,
}
