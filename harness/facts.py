"""Results of Python's own conversions, which the model takes as given."""
import importlib
import re
import time as _time
from base64 import urlsafe_b64decode
from datetime import datetime
from decimal import Decimal

from nodes import enc, dec, nd, text, codes, walk

WORD = re.compile(r'\w')


def nodes_in(x, out):
    """every value node occurring anywhere in a JSON structure"""
    if isinstance(x, dict):
        if set(x) == {'t', 'n', 'c'}:
            for y in walk(x):
                out.append(y)
            return
        for v in x.values():
            nodes_in(v, out)
    elif isinstance(x, list):
        for v in x:
            nodes_in(v, out)


def kinds_in(x, out):
    if isinstance(x, dict):
        if 'ty' in x:
            out.add(x['ty'])
            if x['ty'] == 'map' and x['key']:
                out.add('mapkey')
        if set(x) == {'t', 'n', 'c'}:
            return
        for v in x.values():
            kinds_in(v, out)
    elif isinstance(x, list):
        for v in x:
            kinds_in(v, out)


def attempt(fn, *args):
    try:
        return [enc(fn(*args))]
    except Exception:
        return []


def rule(m, w, d, h=2):
    return dict(m=m, w=w, d=d, s=int(h * 3600))


def era(std, dst=None, *rules, **kw):
    return dict(std=int(std * 3600), dst=int((std if dst is None else dst) * 3600), rules=list(rules), upto=kw.get('upto', []))


def instant(*at):
    d = datetime(*at) - datetime(1970, 1, 1)
    return [d.days, d.seconds]


# what each value of TZ means (see spec/Zones.tla)
ZONES = {
    'UTC': [era(0)],
    'EST5EDT,M3.2.0,M11.1.0': [era(-5, -4, rule(3, 2, 0), rule(11, 1, 0))],
    'CET-1CEST,M3.5.0,M10.5.0/3': [era(1, 2, rule(3, 5, 0), rule(10, 5, 0, 3))],
    'NZST-12NZDT,M9.5.0,M4.1.0/3': [era(12, 13, rule(9, 5, 0), rule(4, 1, 0, 3))],
    'LHST-10:30LHDT-11,M10.1.0,M4.1.0': [era(10.5, 11, rule(10, 1, 0), rule(4, 1, 0))],
    'IST-1GMT0,M10.5.0,M3.5.0/1': [era(1, 0, rule(10, 5, 0), rule(3, 5, 0, 1))],
    '<+0545>-5:45': [era(5.75)],
    '<-12>12': [era(-12)],
    '<+14>-14': [era(14)],
    'Europe/Moscow': [era(3, 4, rule(3, 5, 0), rule(10, 5, 0, 3), upto=instant(2011, 3, 26, 23)),
                      era(4, upto=instant(2014, 10, 25, 22)), era(3)],      # from 1997 on
}


class Facts(object):
    def __init__(self, zone='UTC'):
        self.zone = zone
        self.table = {}
        self.words = set()
        self.lows = {}

    def add(self, fn, node, res):
        self.table.setdefault((fn, repr(node)), dict(f=fn, a=node, r=res))

    def collect(self, *things):
        nodes, kinds = [], set()
        for x in things:
            nodes_in(x, nodes)
            kinds_in(x, kinds)
        seen = {}
        for n in nodes:
            seen.setdefault(repr(n), n)
        for n in seen.values():
            self.node(n, kinds)
        return self

    def node(self, n, kinds):
        t = n['t']
        if t in ('kv', 'other', 'elem', 'at', 'made', 'read', 'neg'):
            return
        if t == 'str':
            for c in n['n']:
                if c > 127:
                    ch = chr(c)
                    if WORD.match(ch):
                        self.words.add(c)
                    if ch.lower() != ch:
                        self.lows[c] = codes(ch.lower())
        if 'integer' in kinds and t not in ('int', 'bool'):
            self.conv('int', n, int)
        if 'float' in kinds and t != 'float':
            r = self.conv('float', n, float)
            if r and 'mapkey' in kinds:
                self.pstr(r[0])
        if 'decimal' in kinds:
            if t != 'dec':
                r = self.conv('dec', n, Decimal)
            else:
                r = [n]
            if r:
                self.add('decstr', r[0], [enc(str(dec(r[0])))])
                self.pstr(r[0])
        if 'binary' in kinds and t == 'bytes':
            self.conv('b64', n, urlsafe_b64decode)
        if ('mapkey' in kinds or 'map' in kinds) and t not in ('str', 'int', 'list', 'dict'):
            self.pstr(n)
        if 'object' in kinds:
            if t == 'str':
                self.add('import', n, self.imported(text(n['n'])))
            else:
                self.add('ident', n, self.identity(n))

    def reports(self, x):
        """what messages about the fields in x are filled with"""
        if isinstance(x, list):
            for y in x:
                self.reports(y)
        elif isinstance(x, dict):
            for k, y in x.items():
                if k in ('min', 'max', 'enum') and isinstance(y, list):
                    for n in y:
                        if isinstance(n, dict) and n.get('t') in ('float', 'int') and set(n) == {'t', 'n', 'c'}:
                            self.add('fmtf', n, [enc('%f' % dec(n))])
                        if isinstance(n, dict) and set(n) == {'t', 'n', 'c'} and k not in ('min', 'max'):
                            self.add('repr', n, [enc(repr(dec(n)))])
                elif k == 'reqkeys':
                    self.names(y)
                self.reports(y)
        return self

    def names(self, x):
        """str() of every key inside"""
        out = []
        nodes_in(x, out)
        for n in out:
            if n['t'] == 'kv':
                n = n['c'][0]
            if n['t'] not in ('str', 'int', 'bool', 'null', 'date', 'kv'):
                self.pstr(n)
        return self

    def texts(self, node):
        """str() of every value inside"""
        for n in walk(node):
            if n['t'] not in ('str', 'kv', 'int', 'bool', 'null', 'other', 'obj', 'inst', 'ns', 'surr', 'neg'):
                self.pstr(n)

    def pstr(self, n):
        if not any(x["t"] in ("elem", "surr", "other", "made", "read") for x in walk(n)):
            self.add('pstr', n, [enc(str(dec(n)))])

    def conv(self, fn, n, op):
        r = attempt(lambda: op(dec(n))) if n['t'] != 'obj' else []
        self.add(fn, n, r)
        return r

    def imported(self, path):
        return []

    def identity(self, n):
        return []

    def cx(self, env=()):
        return dict(facts=list(self.table.values()), words=sorted(self.words),
                    lows=[[k, v] for k, v in sorted(self.lows.items())], env=list(env),
                    tz=ZONES[self.zone])
