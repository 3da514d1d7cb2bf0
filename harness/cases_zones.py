"""C27: datetimes in processes of several local timezones."""
import calendar
import time
from datetime import datetime, timedelta

from cases_fields import TZ, build, process
from cases_ops import describe, equivalent, valid_defaults, spec_of
from cases_trip import TGen, trips
from facts import Facts, ZONES
from gen import Gen
from nodes import enc, dec, nd, tz
from scheme.field import Field

ZONE = ZONES[TZ]
EPOCH = datetime(1970, 1, 1)


def changes():
    """instants, near which clocks change, read in UTC"""
    out = []
    for e in ZONE:
        for y in (1998, 2005, 2011, 2014, 2020, 2024, 2037) if len(ZONE) > 1 else (1971, 1972, 2000, 2019, 2020, 2024, 2038, 2999, 9998):
            for k, r in enumerate(e['rules']):
                first = datetime(y, r['m'], 1)
                day = first + timedelta(days=(r['d'] - first.isoweekday()) % 7)
                days = [day + timedelta(days=7 * n) for n in range(5)]
                day = [d for d in days if d.month == r['m']][r['w'] - 1 if r['w'] < 5 else -1]
                out.append(day + timedelta(seconds=r['s'] - (e['dst'] if k else e['std'])))
        if e['upto']:
            out.append(EPOCH + timedelta(days=e['upto'][0], seconds=e['upto'][1]))
    return out


CHANGES = changes()
STEPS = [0, 1, -1, 900, 1800, -1800, 2700, 3599, 3600, -3600, 5400, -5400, 7199, 7200, -7200, 86400, -86400, 43200]


class Zoned(object):
    """datetimes around what matters in this process"""

    def setup(self):
        r = self.r
        pool = [datetime(2020, 7, 1, 12, 0, 0), datetime(2020, 1, 2, 3, 4, 5), datetime(2019, 12, 31, 23, 59, 59), datetime(2020, 1, 1)]
        if len(ZONE) == 1 and not ZONE[0]["rules"]:      # the C library knows no rules before 1971
            pool += [datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59)] if TZ == 'UTC' else [datetime(1, 1, 3), datetime(9999, 12, 29, 3)]
            pool += [datetime(1970, 1, 1), datetime(1969, 12, 31, 23, 59, 59), datetime(987, 6, 5)]
        for _ in range(6):
            if CHANGES:
                u = r.choice(CHANGES) + timedelta(seconds=r.choice(STEPS))
                # as it reads in UTC, and on one of the local clocks
                pool.append(u + timedelta(seconds=r.choice([0, r.choice([e[k] for e in ZONE for k in ('std', 'dst')])])))
        r.shuffle(pool)
        self.DTS = pool[:4]
        self.OFFS = sorted(set([0, 19800, -28800, 50400, -43200] + [e[k] for e in ZONE for k in ('std', 'dst')]))

    def aware(self, v):
        """sometimes the same instant elsewhere rather than the same reading"""
        o = self.r.choice(self.OFFS)
        if self.chance(0.5):
            try:
                return v.replace(tzinfo=tz(0)).astimezone(tz(o))
            except OverflowError:
                pass
        return v.replace(tzinfo=tz(o))


def skipped(x, aware=False):
    """does anything in x read a local time which the clocks skip"""
    if isinstance(x, dict):
        if x.get('t') == 'dt':
            if x['n'][7] and not (aware and x['n'][8] in [e[k] for e in ZONE for k in ('std', 'dst')]):
                return False
            at = [calendar.timegm(tuple(x['n'][:6]) + (0, 0, 0)) - e[k] for e in ZONE for k in ('std', 'dst')]
            return not any(list(time.localtime(t)[:6]) == x['n'][:6] for t in at)
        return any(skipped(v, aware) for v in x.values())
    return isinstance(x, list) and any(skipped(v, aware) for v in x)


class ZGen(Zoned, Gen):
    pass


class ZTGen(Zoned, TGen):
    pass


def c27(key, i, tier, rec):
    g = ZGen(key, pre=0.02, subsec=True, nan=False, constant=0)
    g.setup()
    if i % 8 == 7:
        t = ZTGen(key, pre=0, nan=False, aware_time=False, subsec=False, oddkeys=0, constant=0)
        t.setup()
        t.p['scalars'] = ['datetime']
        t.p['structural'] = ['structure', 'sequence', 'map', 'tuple']
        return trips(t, rec, lambda x: skipped(x, True))
    f = g.spec(0, types=['datetime'])
    if i % 4 == 3:      # several of them, each with its own bounds and timezone
        g.p['scalars'] = ['datetime', 'datetime', 'date', 'text']
        f = g.spec(g.pick(1, 1, 2))
    valid_defaults(g, f)
    if skipped(f):
        return
    b, fld = build(rec, f)
    if fld is None:
        return
    f2 = g.spec(0, types=['datetime'])
    b2, fld2 = build(rec, f2) if not skipped(f2) else (None, None)
    for j in range(4):
        ph, ser = g.pick('in', 'in', 'out'), g.pick(0, 0, 1)
        v = g.candidate(f, ser and ph == 'in', g.pick(0, 0, 0.1))
        if skipped(enc(v)):
            continue
        out, res = process(rec, f, fld, v, ph, ser)
        # the result again, here and elsewhere
        if out['r'] == 'ok' and fld2 is not None:
            if g.chance(0.6):
                process(rec, f, fld, res, g.pick('in', 'out'), g.pick(0, 1))
            if g.chance(0.6) and f['ty'] == 'datetime':
                process(rec, f2, fld2, res, g.pick('in', 'out', 'out'), g.pick(0, 1, 1))
    d = describe(rec, f, fld, g.pick(False, True))
    if d is not None and not f.get('default'):
        try:
            fld3 = Field.reconstruct(d)
        except Exception as e:
            rec('crash', x='%s: %s' % (type(e).__name__, str(e)[:200]))
            return
        if f['ty'] == 'datetime' and equivalent(f):
            fx = Facts(TZ).collect(f)
            rec('reconstruct', f=f, shape=spec_of(fld3), desc=nd('null'), again=nd('null'), how='plain', x='', cx=fx.cx(), mut=[])
            for j in range(2):
                ph, ser = g.pick('in', 'out'), g.pick(0, 1)
                v = g.candidate(f, ser and ph == 'in', 0)
                if not skipped(enc(v)):
                    process(rec, f, fld3, v, ph, ser)


CASES = {'C27': c27}
