"""C37: timezone objects."""
import copy
import pickle
import time
from datetime import datetime, timedelta

from cases_zones import CHANGES, EPOCH, STEPS, TZ, ZONE, Zoned
from gen import Gen
from nodes import codes, tz

from scheme.timezone import LOCAL, UTC, FixedOffsetTimezone, current_timestamp

NAMES = {
    'UTC': ('UTC', 'UTC'), 'EST5EDT,M3.2.0,M11.1.0': ('EST', 'EDT'), 'CET-1CEST,M3.5.0,M10.5.0/3': ('CET', 'CEST'),
    'NZST-12NZDT,M9.5.0,M4.1.0/3': ('NZST', 'NZDT'), 'LHST-10:30LHDT-11,M10.1.0,M4.1.0': ('LHST', 'LHDT'),
    'IST-1GMT0,M10.5.0,M3.5.0/1': ('IST', 'GMT'), '<+0545>-5:45': ('+0545', '+0545'), '<-12>12': ('-12', '-12'), '<+14>-14': ('+14', '+14'),
}
MINUTES = [0, 1, 5, 9, 30, 59, 60, 61, 90, 330, 345, 840, 1439]


class ZGen(Zoned, Gen):
    pass


def wall(v):
    return [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]


def instant(d):
    return [d.days, d.seconds, d.microseconds]


def seconds(d):
    return d.days * 86400 + d.seconds


def c37(key, i, tier, rec):
    g = ZGen(key)
    g.setup()

    def zone():
        """a timezone object, and what it is"""
        if g.chance(0.5):
            return g.pick(LOCAL, LOCAL, copy.copy(LOCAL), pickle.loads(pickle.dumps(LOCAL))), \
                dict(k='local', min=0, name=[codes(n) for n in NAMES.get(TZ, ())])
        if g.chance(0.2):
            return g.pick(UTC, UTC, copy.deepcopy(UTC), pickle.loads(pickle.dumps(UTC))), dict(k='fixed', min=0, name=[codes('UTC')])
        m = g.r.choice(MINUTES) * g.pick(1, -1)
        n = g.pick(None, None, 'X', '')
        z = FixedOffsetTimezone(m, n) if n is not None else FixedOffsetTimezone(m)
        if g.chance(0.2):
            z = copy.deepcopy(z)
        return z, dict(k='fixed', min=m, name=[codes(n)] if n is not None else [])

    def moment():
        v = g.r.choice(g.DTS)
        if CHANGES and g.chance(0.6):
            v = g.r.choice(CHANGES) + timedelta(seconds=g.r.choice(STEPS)) + timedelta(seconds=g.r.choice([0] + [e[k] for e in ZONE for k in ('std', 'dst')]))
        return v.replace(microsecond=g.pick(0, 0, 1, 999999))

    for _ in range(4):
        z, spec = zone()
        what = g.pick('reading', 'reading', 'convert', 'convert', 'now')
        ev = dict(what=what, z=ZONE, tz=spec, r='ok', out=dict(off=0), w=[], fold=0, named=1, at=[], early=[], late=[])
        try:
            if what == 'reading':
                v = at = moment()
                fold = g.pick(0, 0, 1)
                a = v.replace(tzinfo=z, fold=fold)
                ev.update(w=wall(v), fold=fold, named=int(spec['k'] == 'fixed' or TZ in NAMES))
                ev['out'] = dict(off=seconds(a.utcoffset()), dst=seconds(a.dst()), name=codes(a.tzname()))
                if g.chance(0.3):
                    ev['out'] = dict(off=seconds(z.utcoffset(a)), dst=seconds(z.dst(a)), name=codes(a.strftime('%Z')))
            elif what == 'convert':
                u = at = moment()
                src = tz(g.r.choice(g.OFFS)) if g.chance(0.5) else tz(0)
                v = u.replace(tzinfo=tz(0)).astimezone(src)
                if g.chance(0.3):
                    v = v.astimezone(zone()[0])
                b = v.astimezone(z)
                ev['at'] = instant(u - EPOCH)
                ev['out'] = dict(w=wall(b), off=seconds(b.utcoffset()), fold=b.fold)
            else:
                early = datetime.utcfromtimestamp(time.time()) - timedelta(milliseconds=1)
                if spec['name'] == [codes('UTC')] and g.chance(0.5):
                    v = g.pick(lambda: current_timestamp(), lambda: current_timestamp(None), lambda: current_timestamp('UTC'), lambda: current_timestamp(5))()
                else:
                    v = current_timestamp(z)
                late = datetime.utcfromtimestamp(time.time()) + timedelta(milliseconds=1)
                ev.update(w=wall(v), early=instant(early - EPOCH), late=instant(late - EPOCH), out=dict(off=seconds(v.utcoffset())))
        except Exception as e:
            if what != 'now' and at.year in (1, 9999):      # beyond what a datetime can say
                continue
            ev['r'] = type(e).__name__
        rec('clock', **ev)


CASES = {'C37': c37}
