"""Seeded generation of field specifications and candidate values."""
import random
from collections import OrderedDict
from datetime import date, datetime, time, timedelta
from decimal import Decimal
from base64 import urlsafe_b64encode

from nodes import enc, dec, codes, text, tz, nd, NULL

SCALARS = ['boolean', 'integer', 'float', 'decimal', 'text', 'email', 'token', 'uuid',
           'enumeration', 'binary', 'date', 'time', 'datetime', 'field']
STRUCTURAL = ['structure', 'sequence', 'tuple', 'map', 'union']

WORDS = ['a', 'b', 'ab', 'abc', 'x y', 'Zed', 'alpha', 'beta', 'a-b', 'a.b', 'a:b', 'x', '0', '7',
         'true', 'null', 'name', 'k1', 'é', 'ñandú', '日本', 'ß', 'İ', 'Ünï']
ODD_TEXT = ['', ' ', '  a  ', '\ta\n', 'a\n', '\na', 'a\nb', '\xa0x\u2003', '\x1fa\x1f', 'a\u200b',
            ' \t\r\n', 'a' * 9, 'q' * 40, '\u3000wide\u3000', "it's", '"q"', '\\', '\x00', '\U0001f600']
NAMES = ['name', 'field1', 'an-item', 'x', 'Value', 'a.b', 'été', 'very_long_field_name']


class Gen(object):
    def __init__(self, seed, **profile):
        self.r = random.Random(seed)
        self.p = dict(scalars=SCALARS, structural=STRUCTURAL, pre=0.06, constant=0.07, default=0.3,
                      named=0.5, nonnull=0.3, errs=0.0, poly=0.2, korder=0.25, nonstr_keys=0.3,
                      nan=True, aware_time=True, subsec=True, inst=0, asp=0, texts=0, ids=0, oddkeys=0.06)
        self.p.update(profile)

    # -- small helpers
    def chance(self, p):
        return self.r.random() < p

    def pick(self, *xs):
        return self.r.choice(xs)

    # ------------------------------------------------------------ specs
    def base(self, ty, **kw):
        r = self.r
        f = dict(ty=ty, tyn=codes(ty), name=[], nonnull=0, required=0, ignull=0, default=[],
                 constant=[], pre='none')
        if self.chance(self.p['named']):
            f['name'] = [codes(r.choice(self.NAMES))]
        if self.chance(self.p['nonnull']):
            f['nonnull'] = 1
        if self.p['inst'] and ty != 'union' and self.chance(self.p['inst']):
            self.tags = getattr(self, 'tags', 0) + 1
            f['inst'] = self.tags
            f['extr'] = self.tags
            if self.chance(self.p.get('unmatched', 0)):
                f['inst'], f['extr'] = r.choice([(0, self.tags), (self.tags, 0), (self.tags, -1), (0, -1)])
        if ty == 'union' and self.p.get('union_extr') and self.chance(self.p['union_extr']):
            self.tags = getattr(self, 'tags', 0) + 1
            f['inst'], f['extr'] = 0, r.choice([self.tags, self.tags, -1])
        if self.p['asp'] and self.chance(self.p['asp']):
            f['asp'] = self.aspects()
        if self.p['ids']:
            self.idn = getattr(self, 'idn', 0) + 1
            f.setdefault('asp', [])
            f['asp'] = f['asp'] + [['id', enc(self.idn), codes('id')]]
        if self.p['texts'] and self.chance(self.p['texts']):
            f['texts'] = [[enc(r.choice(WORDS))] if self.chance(0.4) else [] for _ in range(3)]
        f.update(kw)
        if f['pre'] == 'none' and self.chance(self.p['pre']) and 'pre' not in kw:
            f['pre'] = r.choice(['ident', 'ident', 'raise', 'const'])
        return f

    ASPECTS = {'level': [1, 2, 0, True, 1.0], 'secret': [True, False, True], 'label': ['x', 'y', '', 'été'],
               'group': [['a', 'b'], {'k': 1}, ('t', 1), []]}

    def aspects(self):
        return [[k, enc(self.r.choice(self.ASPECTS[k])), codes(k)]
                for k in self.r.sample(sorted(self.ASPECTS), self.r.randint(1, 2))]

    def spec(self, depth=2, types=None):
        r = self.r
        if types is None:
            if depth <= 0 or not self.p['structural'] or self.chance(0.35):
                types = self.p['scalars']
            else:
                types = self.p['structural']
        ty = r.choice(types)
        f = getattr(self, 'spec_' + ty)(depth) if ty in STRUCTURAL else getattr(self, 'spec_' + ty)()
        if ty not in STRUCTURAL and self.chance(self.p['constant']):
            f['constant'] = [enc(self.native(f))]
            if f['constant'][0]['t'] == 'null' or self.has_nan(f['constant'][0]):
                f['constant'] = []
        if f['pre'] == 'const':
            v = enc(self.native(f))
            if v['t'] == 'null' and ty in STRUCTURAL:
                f['pre'] = 'none'
            else:
                f['prev'] = v
        return f

    @staticmethod
    def has_nan(node):
        if node['t'] == 'float' and node['n'][0] == 3 or node['t'] == 'dec' and node['n'][0] == 3:
            return True
        return any(Gen.has_nan(c) for c in node['c'])

    @staticmethod
    def nanny(node):
        """could become not-a-number, for which Python's own duplicate tests depend on identity"""
        if node['t'] == 'str' and text(node['n']).strip().lower() in ('nan', '+nan', '-nan', 'snan'):
            return True
        return Gen.has_nan(node) or any(Gen.nanny(c) for c in node['c'])

    def bounds(self, f, pool, keep=0.45):
        """minimum and maximum from pool (usually in order)."""
        lo = hi = None
        if self.chance(keep):
            lo = self.r.choice(pool)
        if self.chance(keep):
            hi = self.r.choice(pool)
        if lo is not None and hi is not None and self.chance(0.85):
            try:
                if lo > hi:
                    lo, hi = hi, lo
            except TypeError:
                pass
        f['min'] = [] if lo is None else [enc(lo)]
        f['max'] = [] if hi is None else [enc(hi)]
        return f

    def sizes(self, f, keep=0.4, top=6):
        lo = self.r.randint(0, top) if self.chance(keep) else None
        hi = self.r.randint(0, top) if self.chance(keep) else None
        if lo is not None and hi is not None and lo > hi and self.chance(0.9):
            lo, hi = hi, lo
        f['minl'] = [] if lo is None else [lo]
        f['maxl'] = [] if hi is None else [hi]
        return f

    INTS = [0, 1, -1, 2, 3, 5, 7, 10, 99, 100, -100, 9999, 10000, 10001, 2 ** 31, -2 ** 31, 2 ** 31 - 1,
            2 ** 53, 2 ** 53 + 1, 2 ** 63, 10 ** 20, -10 ** 20]
    FLOATS = [0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 0.1, 3.14159, 100.0, 1e10, 1e-10, 1e300, -1e300, 2.0 ** 53,
              float('inf'), float('-inf')]
    DECS = ['0', '1', '-1', '1.5', '1.50', '0.1', '0.10', '-2.25', '100', '1E+2', '1E-3', '0E+3', '-0',
            '12345678901234567890.123', '9.99', '10', 'Infinity', '-Infinity']
    DATES = [date(1, 1, 1), date(9999, 12, 31), date(1999, 12, 31), date(2000, 1, 1), date(2000, 2, 29),
             date(2020, 1, 2), date(2020, 2, 1), date(2020, 10, 11), date(2021, 1, 1), date(987, 6, 5),
             date(2019, 12, 31), date(1900, 2, 28)]
    TIMES = [time(0, 0, 0), time(23, 59, 59), time(12, 0, 0), time(12, 30, 15), time(1, 2, 3), time(9, 9, 9),
             time(12, 0, 1), time(11, 59, 59)]
    DTS = [datetime(2020, 1, 2, 3, 4, 5), datetime(2020, 1, 2, 0, 0, 0), datetime(2020, 1, 1, 23, 59, 59),
           datetime(1999, 12, 31, 23, 30, 0), datetime(2000, 2, 29, 12, 0, 0), datetime(2020, 7, 1, 12, 0, 0),
           datetime(1, 1, 1, 0, 0, 0), datetime(9999, 12, 31, 23, 59, 59), datetime(987, 6, 5, 4, 3, 2),
           datetime(2020, 1, 2, 3, 4, 6), datetime(1970, 1, 1), datetime(2020, 12, 31, 22, 15, 7)]
    OFFS = [0, 3600, -3600, 19800, -28800, 45900, 50400, -43200, 60]

    def aware(self, v):
        return v.replace(tzinfo=tz(self.r.choice(self.OFFS)))

    def spec_boolean(self):
        return self.base('boolean')

    def spec_integer(self):
        return self.bounds(self.base('integer'), self.INTS[:12] if self.chance(0.7) else self.INTS)

    def spec_float(self):
        return self.bounds(self.base('float'), self.FLOATS)

    def spec_decimal(self):
        pool = [Decimal(x) for x in self.DECS]
        f = self.bounds(self.base('decimal'), pool)
        for k in ('min', 'max'):        # bounds may be given as text
            if f[k] and self.chance(0.3):
                f[k] = [enc(str(dec(f[k][0])))]
        return f

    def spec_text(self):
        f = self.sizes(self.base('text'))
        f['strip'] = 0 if self.chance(0.3) else 1
        f['pat'] = []
        if self.chance(0.25):
            ast, pats = self.regex(2)
            if self.chance(0.6):
                ast, pats = dict(op='cat', a=[ast, dict(op='end')]), pats + r'\Z'
            f['pat'], f['pats'] = [ast], pats
        return f

    def spec_email(self):
        f = self.sizes(self.base('email'), 0.12, 30)
        f['multiple'] = 1 if self.chance(0.35) else 0
        f['extended'] = 1 if not f['multiple'] and self.chance(0.35) else 0
        return f

    def spec_token(self):
        f = self.base('token')
        f['segs'] = [self.r.randint(1, 3)] if self.chance(0.4) else []
        return f

    def spec_uuid(self):
        return self.base('uuid')

    ENUMS = [['a', 'b', 'c'], ['alpha', 'beta'], [1, 2, 3], ['1', '2', 1, 2], [True, False, 'x'], [0, 'zero'],
             [1.5, 2, 'a'], ['', 'a'], ['a b', 'c:d'], [None, 'a'], ['é', 'b'], [[1, 2], 'a'], [(1, 2), {'a': 1}]]
    IGNS = [['', 'none'], ['a'], [0], [''], ['x', 'y'], [False], ['b', 'ignored']]

    def spec_enumeration(self):
        f = self.base('enumeration')
        f['enum'] = [enc(x) for x in self.r.choice(self.ENUMS)]
        f['ign'] = [[enc(x) for x in self.r.choice(self.IGNS)]] if self.chance(0.3) else []
        return f

    def spec_binary(self):
        return self.sizes(self.base('binary'))

    def spec_date(self):
        f = self.bounds(self.base('date'), self.DATES)
        for k in ('min', 'max'):
            if f[k] and self.chance(0.3):
                f[k] = [enc(dec(f[k][0]).isoformat())]
        return f

    def spec_time(self):
        f = self.bounds(self.base('time'), self.TIMES)
        for k in ('min', 'max'):
            if f[k] and self.chance(0.3):
                f[k] = [enc(dec(f[k][0]).isoformat())]
        return f

    def spec_datetime(self):
        pool = [d for d in self.DTS if 1 < d.year < 9999 or self.p.get('extremes')]
        f = self.bounds(self.base('datetime'), pool)
        f['utc'] = 1 if self.chance(0.4) else 0
        for k in ('min', 'max'):
            if f[k]:
                v = dec(f[k][0])
                if not 1 < v.year < 9999:
                    continue
                if self.chance(0.4):
                    f[k] = [enc(self.aware(v))]
                elif self.chance(0.3):
                    f[k] = [enc(v.isoformat() + 'Z')]
        return f

    def spec_field(self):
        return self.base('field')

    KEYS = ['a', 'b', 'c', 'd', 'name', 'type', 'x-y', 'été', 'k 1']

    def keys(self, lo=0, hi=5):
        pool = list(self.KEYS)
        self.r.shuffle(pool)
        return pool[:self.r.randint(lo, hi)]

    def member(self, depth):
        """a field used inside a structure"""
        f = self.spec(depth)
        if self.chance(0.4):
            f['required'] = 1
        if self.chance(0.25):
            f['ignull'] = 1
        if self.chance(self.p['default']):
            v = enc(self.native(f) if self.chance(0.85) else self.junk())
            if v['t'] != 'null':
                f['default'] = [v]
        return f

    def members(self, names, depth):
        return [dict(k=codes(k), f=self.member(depth - 1)) for k in names]

    IDS = ['one', 'two', 'three', 'é', 'x y']
    DISCS = ['auto', 'auto', 'integer', 'enum', 'boolean']

    def spec_structure(self, depth):
        r = self.r
        f = self.base('structure')
        f['strict'] = 0 if self.chance(0.3) else 1
        f['poly'], f['variants'], f['common'], f['struct'] = [], [], [], []
        if self.chance(self.p['poly']):
            disc = r.choice(['type', 'kind', 'a'])
            kind = r.choice(self.DISCS)
            if self.p.get('discs') and self.chance(self.p['discs']):
                kind = r.choice(['date', 'decimal', 'float', 'uuid', 'time', 'datetime', 'text'])
            if kind in ('date', 'decimal', 'float', 'uuid', 'time', 'datetime', 'text'):
                ids = dict(date=[date(2020, 1, 2), date(987, 6, 5)], decimal=[Decimal('1.50'), Decimal('-2'), Decimal('0')],
                           float=[1.5, 2.0, -0.5], uuid=['3d10aaf0-5b6e-4c8c-9f0e-2c9d7a4a1b55', '00000000-0000-0000-0000-00000000000a'],
                           time=[time(1, 2, 3), time(0, 0, 0)], datetime=[datetime(2020, 1, 2, 3, 4, 5, tzinfo=tz(0)), datetime(1999, 12, 31, 23, 30, 0, tzinfo=tz(0))],
                           text=['a', 'A', 'x y', ''])[kind]
                ids = r.sample(ids, r.randint(1, len(ids)))
            elif kind in ('auto', 'enum'):
                ids = r.sample(self.IDS, r.randint(1, 3))
            elif kind == 'boolean':
                ids = [True, False]
            else:
                ids = r.sample([0, 1, 2, 10], r.randint(1, 3))
            if kind == 'auto':
                d = self.base('enumeration', pre='ident', enum=[enc(x) for x in sorted(ids)], ign=[])
                d['nonnull'] = 1
                d['pre'] = 'none'
                f['auto'] = 1
                for k in ('inst', 'extr', 'asp', 'texts'):
                    d.pop(k, None)
            elif kind == 'enum':
                d = self.base('enumeration', pre='ident', enum=[enc(x) for x in ids + ['extra']], ign=[])
                d['pre'] = 'none'
                d['nonnull'] = 0
            elif kind == 'boolean':
                d = self.base('boolean', pre='ident')
                d['pre'] = 'none'
            elif kind != 'integer':
                d = getattr(self, 'spec_' + kind)()
                for k in ('min', 'max', 'minl', 'maxl', 'pat'):
                    if k in d:
                        d[k] = []
                d['pre'], d['constant'] = 'none', []
                if 'utc' in d:
                    d['utc'] = 1
            else:
                d = self.base('integer', pre='ident', min=[], max=[])
                d['pre'] = 'none'
            d['name'], d['required'] = [codes(disc)], 1
            if not self.p.get('disc_inst'):
                d.pop('inst', None)
                d.pop('extr', None)
            f['poly'] = [d]
            for i in ids:
                names = [k for k in self.keys(0, 3) if k != disc]
                f['variants'].append(dict(id=enc(i), s=self.members(names, depth)))
            if self.chance(0.5):
                names = [k for k in self.keys(1, 2) if k != disc]
                f['common'] = self.members(names, depth)
            allnames = [disc] + [text(m['k']) for m in f['common']] + \
                [text(m['k']) for v in f['variants'] for m in v['s']]
        else:
            names = self.keys(0 if self.chance(0.1) else 1, 5)
            f['struct'] = self.members(names, depth)
            allnames = list(names)
        f['korder'] = []
        if self.chance(self.p['korder']):
            ks = sorted(set(allnames))
            r.shuffle(ks)
            if self.chance(0.4):
                ks = ks[:r.randint(0, len(ks))]
            if self.chance(0.2):
                ks.append('elsewhere')
            if ks:
                f['korder'] = [[codes(k) for k in ks]]
        return f

    def spec_sequence(self, depth):
        f = self.sizes(self.base('sequence'), 0.3, 4)
        f['item'] = self.spec(depth - 1)
        f['unique'] = 1 if self.chance(0.3) else 0
        return f

    def spec_tuple(self, depth):
        f = self.base('tuple')
        f['values'] = [self.spec(depth - 1) for _ in range(self.r.randint(1, 3))]
        return f

    MAPKEYS = ['text', 'integer', 'token', 'enumeration', 'date', 'decimal', 'boolean', 'float']
    MAPNAMES = ['a', 'b', 'c', 'name', 'x y', '']
    NAMES = NAMES

    def spec_map(self, depth):
        f = self.base('map')
        f['value'] = self.spec(depth - 1)
        f['key'] = []
        f['reqkeys'] = []
        if self.chance(0.55):
            f['key'] = [self.spec(0, types=[self.r.choice(self.MAPKEYS)])]
            if f['key'][0]['pre'] == 'const' and f['key'][0]['prev']['t'] in ('list', 'dict'):
                f['key'][0]['pre'] = 'none'
        if self.chance(0.3):
            f['reqkeys'] = [[enc(k) for k in self.r.sample(['a', 'b', 'name', 'z'], self.r.randint(1, 2))]]
        return f

    def spec_union(self, depth):
        f = self.base('union')
        f['pre'] = 'none'       # unions do not preprocess
        f['fields'] = [self.spec(depth - 1) for _ in range(self.r.randint(1, 3))]
        return f

    # -------------------------------------------------- regular expressions
    def regex(self, depth):
        r = self.r
        kind = r.choice(['set', 'set', 'lit', 'cat', 'alt', 'rep']) if depth > 0 else r.choice(['set', 'lit'])
        if kind == 'lit':
            c = r.choice('abx01 -')
            return dict(op='set', neg=0, r=[[ord(c), ord(c)]]), ('\\' + c if c == '-' else c)
        if kind == 'set':
            neg = 1 if self.chance(0.2) else 0
            ranges = r.sample([('a', 'f'), ('0', '9'), ('A', 'Z'), ('x', 'x'), (' ', ' ')], r.randint(1, 2))
            pats = '[%s%s]' % ('^' if neg else '', ''.join(a if a == b else '%s-%s' % (a, b) for a, b in ranges))
            return dict(op='set', neg=neg, r=[[ord(a), ord(b)] for a, b in ranges]), pats
        if kind in ('cat', 'alt'):
            parts = [self.regex(depth - 1) for _ in range(r.randint(1, 3))]
            a = [p[0] for p in parts]
            if kind == 'cat':
                return dict(op='cat', a=a), ''.join('(?:%s)' % p[1] for p in parts)
            return dict(op='alt', a=a), '(?:%s)' % '|'.join(p[1] for p in parts)
        lo, hi = r.choice([(0, -1), (1, -1), (0, 1), (2, 3), (1, 2)])
        a, p = self.regex(depth - 1)
        q = {(0, -1): '*', (1, -1): '+', (0, 1): '?'}.get((lo, hi), '{%d,%d}' % (lo, hi))
        return dict(op='rep', lo=lo, hi=hi, a=[a]), '(?:%s)%s' % (p, q)

    # ----------------------------------------------------------- values
    def sized(self, f, top=8):
        """a length at or around the bounds"""
        c = [0, 1, 2, 3, self.r.randint(0, top)]
        for k in ('minl', 'maxl'):
            if f[k]:
                c += [f[k][0] - 1, f[k][0], f[k][0], f[k][0] + 1]
        return max(0, self.r.choice(c))

    def word(self):
        return self.r.choice(WORDS)

    def text_value(self, f):
        r = self.r
        if f.get('pat') and self.chance(0.7):
            return self.match(f['pat'][0])
        if self.chance(0.25):
            return r.choice(ODD_TEXT)
        if self.chance(0.5):
            return self.word()
        n = self.sized(f)
        s = ''.join(r.choice('abcxyz019 -é') for _ in range(n))
        if self.chance(0.3):
            s = r.choice([' ', '\t', '\n', '\xa0', '  ']) + s + r.choice([' ', '\r\n', '\u2003'])
        return s

    def match(self, ast):
        r = self.r
        op = ast['op']
        if op == 'set':
            for _ in range(20):
                c = r.choice('abcdefx0159AZ -é') if ast['neg'] or self.chance(0.1) else chr(r.randint(*r.choice(ast['r'])))
                if (any(a <= ord(c) <= b for a, b in ast['r'])) == (ast['neg'] == 0) or self.chance(0.05):
                    return c
            return 'q'
        if op == 'cat':
            return ''.join(self.match(a) for a in ast['a'])
        if op == 'alt':
            return self.match(r.choice(ast['a']))
        if op == 'rep':
            hi = ast['hi'] if ast['hi'] >= 0 else ast['lo'] + 3
            return ''.join(self.match(ast['a'][0]) for _ in range(r.randint(ast['lo'], hi)))
        return r.choice(['', '', '', '\n', 'a'])

    def email_one(self):
        r = self.r
        local = r.choice(['a', 'first.last', 'A.B', "o'neil", 'x+tag', '"quoted"', '"a b"', '"a\\"b"', '-', 'é',
                          'a..b', '.a', 'a.', '', 'UPPER', '"', 'a b', '!#$%', '_', 'x~y', '"\\\n"'])
        host = r.choice(['example.com', 'EXAMPLE.Org', 'a.b.c.museum', 'localhost', 'x-y.co', 'a.b1', 'a.toolong1',
                         'sub.example.io', '1.2', 'x.c', 'a.abcdef', 'a.abcdefg', '-.com', 'a..com', ''])
        return local + r.choice(['@', '@', '@', '@', '@', '@@', '']) + host

    def email_value(self, f):
        r = self.r
        good = lambda: r.choice(['a', 'b.c', 'x_y', 'UP', 'a+b', '"q s"']) + '@' + r.choice(['ex.com', 'a.b.org', 'Host.NET'])
        one = good() if self.chance(0.6) else self.email_one()
        if not f['extended'] and self.chance(0.2):      # what only an extended field would take
            one = r.choice(['first last <%s>', '"Name, A" <%s>', 'x  <%s>']) % good()
        elif f['extended'] and self.chance(0.6):
            nm = r.choice(['"Name"', 'First Last', '"A <b>"', 'x', '', '"', '<', 'Name '])
            one = nm + r.choice([' ', '  ', '', '\t']) + '<' + one + r.choice(['>', '>', '', '>>'])
        if f['multiple'] or self.chance(0.1):
            n = r.randint(1, 3)
            sep = r.choice([',', ', ', ';', ' ', ':', ' ; ', '\n', ',,', '\xa0'])
            one = sep.join([one] + [good() for _ in range(n - 1)])
        if self.chance(0.25):
            one = r.choice([' ', ',', ';', '\t', '\xa0', '']) + one + r.choice([' ', ',', '\n', ':', ''])
        if self.chance(0.05):
            one = ''
        return one

    def token_value(self, f):
        r = self.r
        seg = lambda: r.choice(['a', 'ab', 'a-b', 'a.b+c', 'x_1', '0', 'é', 'a1', '_'])
        bad = lambda: r.choice(['', '-a', 'a-', 'a b', '+', 'a.', '.a', 'a\n', 'a/b', '²', '€', 'a\u0301'])
        n = f['segs'][0] if f['segs'] and self.chance(0.7) else r.randint(1, 3)
        parts = [seg() if self.chance(0.9) else bad() for _ in range(n)]
        s = ':'.join(parts)
        if self.chance(0.06):
            s += r.choice([':', '\n', ' '])
        return s

    def uuid_value(self):
        r = self.r
        s = '-'.join(''.join(r.choice('0123456789abcdef') for _ in range(n)) for n in (8, 4, 4, 4, 12))
        if self.chance(0.25):
            s = r.choice([s.upper(), s + '\n', ' ' + s, s[:-1], s + '0', s.replace('-', ''), s.replace('-', '_', 1),
                          'g' + s[1:], '{%s}' % s, s[:8] + s[9:] + '0'])
        return s

    def near(self, f, pool, step):
        c = [self.r.choice(pool), self.r.choice(pool)]
        for k in ('min', 'max'):
            if f[k]:
                b = dec(f[k][0])
                if isinstance(b, str):
                    b = step(b, None)
                c += [b, step(b, 1), step(b, -1), b]
        return self.r.choice(c)

    def native(self, f):
        """a native value, usually one f accepts"""
        r = self.r
        ty = f['ty']
        if f['constant'] and self.chance(0.75):
            return dec(f['constant'][0])
        if ty == 'boolean':
            return self.chance(0.5)
        if ty == 'integer':
            return self.near(f, self.INTS, lambda b, d: b + d)
        if ty == 'float':
            v = self.near(f, self.FLOATS, lambda b, d: b + d * max(1e-9, abs(b) * 1e-12))
            if self.p['nan'] and self.chance(0.03):
                v = float('nan')
            return v
        if ty == 'decimal':
            v = self.near(f, [Decimal(x) for x in self.DECS],
                          lambda b, d: Decimal(b) if d is None else (b + d * Decimal('0.001') if b.is_finite() else b))
            if self.p['nan'] and self.chance(0.03):
                v = Decimal('NaN')
            return v
        if ty == 'text':
            return self.text_value(f)
        if ty == 'email':
            return self.email_value(f)
        if ty == 'token':
            return self.token_value(f)
        if ty == 'uuid':
            return self.uuid_value()
        if ty == 'enumeration':
            if f['ign'] and self.chance(0.25):
                return dec(r.choice(f['ign'][0]))
            return dec(r.choice(f['enum']))
        if ty == 'binary':
            return bytes(r.randint(0, 255) for _ in range(self.sized(f)))
        if ty == 'date':
            def step(b, d):
                if d is None:
                    return date(*map(int, b.split('-')))
                try:
                    return b + timedelta(days=d)
                except OverflowError:
                    return b
            v = self.near(f, self.DATES, step)
            if self.chance(0.12):
                v = datetime(v.year, v.month, v.day, r.randint(0, 23), r.randint(0, 59))
            return v
        if ty == 'time':
            def step(b, d):
                if d is None:
                    return time(*map(int, b.split(':')))
                s = (b.hour * 3600 + b.minute * 60 + b.second + d) % 86400
                return time(s // 3600, s // 60 % 60, s % 60)
            v = self.near(f, self.TIMES, step)
            if self.p['subsec'] and self.chance(0.15):
                v = v.replace(microsecond=r.choice([1, 500000, 999999]))
            if self.p['aware_time'] and self.chance(0.1):
                v = self.aware(v)
            return v
        if ty == 'datetime':
            def step(b, d):
                if d is None:
                    return datetime.strptime(b, '%Y-%m-%dT%H:%M:%SZ').replace(tzinfo=tz(0))
                try:
                    return b + timedelta(seconds=d)
                except OverflowError:
                    return b
            v = self.near(f, self.DTS, step)
            if v.tzinfo is not None and self.chance(0.5):
                try:
                    v = v.astimezone(tz(r.choice(self.OFFS)))
                except OverflowError:
                    pass
            elif v.tzinfo is None and self.chance(0.5):
                v = self.aware(v)
            if self.p['subsec'] and self.chance(0.15):
                v = v.replace(microsecond=r.choice([1, 500000, 999999]))
            return v
        if ty == 'field':
            return self.junk(1)
        if ty in ('object', 'error', 'definition', 'surrogate'):
            return self.special_native(f)
        return self.container(f, self.native)

    def special_native(self, f):
        raise NotImplementedError(f['ty'])

    NUMBERISH = ['1,5', '1,000', '1,000.5', '1.5.', '1 000', '1e', 'e5', '+-1', '0b1', '0o7', '1L', '12abc', '½', '−5', '1.0', '.',
                 '+', '-', '1__0', '_1', '1_', '1e400', '-0', '00012', '1\n', '1\x00', 'true', 'True', 'None', '1/2', '50%', '$5',
                 '1.0e0', "'1'", '1e-3', '1.', '+.5', '1E5', '( 1 )', '1;', '\u30001', '1\u00a0', b'1.5', b'1', '1j',
                 'Infinity', 'infinity', 'INF', '+inf', '1.5f', '1d', '0x10', '१', '1.٥', '²', '1e1_0', '1 .5', '- 1', '1e+3',
                 '12345678901234567890123', '0.1', '-1.50', '1000000000000000000000.5', False, True, [], {}, (1,), '5.0', '5.9', '-5.9']

    def serialized(self, f):
        """a serialized value, usually one f accepts"""
        r = self.r
        ty = f['ty']
        if ty in STRUCTURAL:
            return self.container(f, self.serialized)
        if ty in ('ref', 'undefined'):
            return self.container(f, self.serialized)
        v = self.native(f)
        if self.chance(0.1):
            return v
        if ty in ('integer', 'float', 'decimal') and v is not None and self.chance(0.15):
            return r.choice(self.NUMBERISH)
        if ty == 'integer' and v is not None:
            return r.choice([v, str(v), ' %d ' % v, '+%d' % abs(v), float(v) if abs(v) < 2 ** 53 else v, str(float(v % 1000)),
                             Decimal(v), v + 0.5 if abs(v) < 100 else v, '%d_0' % v, '٣', '0x1f', '', 'abc', b'12', '1e3', '1,%03d' % (abs(v) % 1000), '%d,5' % v])
        if ty == 'float' and v is not None:
            return r.choice([v, repr(v), str(v), ' %r ' % v, '1e3', 'nan' if self.p['nan'] else '1', 'inf', '-Infinity', '1_0.5', 12, True,
                             '', 'x', '.5', '1.', Decimal('1.25'), 10 ** 400, '1,5', '1,000', '1,000.5'])
        if ty == 'decimal' and v is not None:
            return r.choice([v, str(v), ' %s ' % v, '1_000', '1E+2', 'NaN' if self.p['nan'] else '1', 'Infinity', 12, True, 1.5, '', 'x', '١٢', '0.1e1', '1,5', '1,000',
                             (0, (1, 2), -1), [1, 2], (0, (1,))])
        if ty == 'binary' and isinstance(v, bytes):
            s = urlsafe_b64encode(v)
            if self.chance(0.25):
                s = r.choice([s + b'=', s[:-1], b'\n' + s, s.replace(b'-', b'+'), b'*' + s, s.rstrip(b'='), b'A', b'AB=',
                              s.decode(), b'AB==', b'AA=A', b'====', b'\xff'])
            return s
        if ty == 'date' and isinstance(v, date):
            y, m, d = v.year, v.month, v.day
            return r.choice(['%04d-%02d-%02d', '%04d-%02d-%02d', '%04d-%02d-%02d', '%d-%d-%d', '%04d-%d-%02d',
                             '%04d-%02d-%02d ', ' %04d-%02d-%02d', '%04d/%02d/%02d', '%04d%02d%02d', '%04d-%02d-%02dT00:00:00Z',
                             '%04d-%02d-%2d', '-%04d-%02d-%02d', '%04d-1%d-%02d', '%04d-%02d-3%d', '+%04d-%02d-%02d',
                             '%04d-%02d-%02d\n', '%04d-0%02d-%02d', '%05d-%02d-%02d']) % (y, m, d)
        if ty == 'time' and isinstance(v, time):
            return r.choice(['%02d:%02d:%02d', '%02d:%02d:%02d', '%02d:%02d:%02d', '%d:%d:%d', '%02d:%02d:%02d.5',
                             '%02d:%02d:%02d ', '%02d:%02d:%02dZ', '2%d:%02d:%02d', '%02d:6%d:%02d', '%02d:%02d:6%d',
                             '%02d.%02d.%02d', '%02d:%02d:%02d\n', '%02d:%02d:%02d:00', '-%d:%d:%d']) % (v.hour, v.minute, v.second)
        if ty == 'datetime' and isinstance(v, datetime):
            return r.choice(['%04d-%02d-%02dT%02d:%02d:%02dZ'] * 5 + ['%d-%d-%dT%d:%d:%dZ', '%04d-%02d-%02dt%02d:%02d:%02dz',
                             '%04d-%02d-%02d %02d:%02d:%02dZ', '%04d-%02d-%02dT%02d:%02d:%02d', '%04d-%02d-%02dT%02d:%02d:%02d+00:00',
                             '%04d-%02d-%02dT%02d:%02d:%02d.000Z', ' %04d-%02d-%02dT%02d:%02d:%02dZ', '%04d-%02d-3%dT%02d:%02d:%02dZ',
                             '%04d-%02d-%02dT2%d:%02d:%02dZ', '%04d-%02d-%02dT%02d:%02d:6%dZ', '%04d-%02d-%02dTT%02d:%02d:%02dZ']) % (
                                 v.year, v.month, v.day, v.hour, v.minute, v.second)
        return v

    JUNK = [None, True, False, 0, 1, -7, 2 ** 40, 1.5, 0.0, '', 'a', 'b', 'x y', '12', '2020-01-02', '10:11:12', 'true',
            b'', b'ab', b'YQ==', Decimal('1.5'), Decimal('2'), date(2020, 1, 2), datetime(2020, 1, 2, 3, 4, 5), time(1, 2, 3),
            [], {}, (), [1], ['a', 'b'], (1, 2), {'a': 1}, {'a': None, 'b': 'x'}, {1: 2}, [[1], {}], ([],), {'type': 'one'},
            {'a': {'b': [1, 'x']}}, [None], 'one', [1, 1], float('inf')]

    def junk(self, deep=0):
        """any value of any type"""
        return dec(enc(self.r.choice(self.JUNK)))

    def hostile(self, f, depth=2):
        """values chosen to upset a naive implementation"""
        r = self.r
        leaf = [float('nan'), float('inf'), -float('inf'), Decimal('NaN'), Decimal('Infinity'), Decimal('-0'), -0.0,
                -10 ** 30, '', ' ', '\x00', '\ud800', '\n', b'', b'\xff\xfe', b'=', b'A', 'nan', 'inf',
                '-', '+', '.', 'e', '1e', '1e400', '0x', '0b1', '\u0660', '12:00', '24:00:00', '2020-02-30', '0000-01-01',
                '10000-01-01', '9999-12-31T23:59:59Z', '0001-01-01T00:00:00Z', '2020-06-30T23:59:60Z', '%s', '%(x)s', '{}', '${x}',
                datetime(1, 1, 1), datetime(9999, 12, 31, 23, 59, 59), datetime(1, 1, 1, tzinfo=tz(3600)),
                datetime(9999, 12, 31, 23, 59, 59, tzinfo=tz(-3600)), time(0, 0, tzinfo=tz(3600)), time(23, 59, 59, 999999), date(1, 1, 1),
                datetime(2020, 1, 1, tzinfo=tz(-43200)), datetime(2020, 1, 1), True, False, None, 0, -1, 1.5, (), [], {}, ((),), [[]],
                {(1, 2): 3}, {None: 1}, {1: {}}, {'a': [{}]}, ([1],), [None, None], (None,), {'': ''}, {True: 1}, {1.5: 2},
                {b'k': 1}, {date(2020, 1, 1): 1}, {'%s': '%d'}, (0, (1, 2), 'F'), (1, 2, 3), [1, [2, [3, [4]]]]]
        if depth and f['ty'] in STRUCTURAL and self.chance(0.6):
            return self.container(f, lambda h: self.hostile(h, depth - 1))
        v = r.choice(leaf)
        if self.chance(0.01):
            v = r.choice([10 ** 400, '9' * 400, 'a' * 300])
        if self.chance(0.15):
            v = r.choice([[v], (v,), {'a': v}, [v, r.choice(leaf)]])
        return v

    def candidate(self, f, ser, bad=0.12):
        """a candidate value for f; each position is junk with probability bad"""
        make = self.serialized if ser else self.native
        self._bad = bad
        self._make = make
        if f['ty'] in STRUCTURAL or f['ty'] in ('ref', 'undefined'):
            return self.container(f, lambda g: self.candidate(g, ser, bad)) if not self.chance(bad / 2) else self.junk()
        if self.chance(bad):
            return self.junk()
        if self.chance(0.06):
            return None
        return make(f)

    def container(self, f, sub):
        r = self.r
        ty = f['ty']
        if ty == 'ref':
            f = self.env[f['id'] - 1]
            self._deep = getattr(self, '_deep', 0) + 1
            try:
                return None if self._deep > 6 else (sub(f) if f['ty'] not in STRUCTURAL else self.container(f, sub))
            finally:
                self._deep -= 1
        if ty == 'undefined':
            return self.junk()
        if ty == 'sequence':
            n = min(self.sized(f, 4), 6)
            items = [sub(f['item']) for _ in range(n)]
            if f['unique']:
                items = [x for x in items if not self.nanny(enc(x))]
                if items and self.chance(0.3):
                    items.append(items[0])
            return items
        if ty == 'tuple':
            items = [sub(x) for x in f['values']]
            if self.chance(0.08):
                items = items[:-1] if self.chance(0.5) else items + [1]
            return tuple(items) if self.chance(0.7) else items
        if ty == 'map':
            out = {}
            names = [dec(k) for k in (f['reqkeys'][0] if f['reqkeys'] and self.chance(0.8) else [])]
            for _ in range(r.randint(0, 3)):
                if f['key']:
                    try:
                        k = sub(f['key'][0])
                        hash(k)
                    except TypeError:
                        k = 'odd'
                else:
                    k = r.choice(self.MAPNAMES)
                    if self.chance(self.p['oddkeys']):
                        k = r.choice([1, None, (1, 2), True, 2.5])
                names.append(k)
            for k in names:
                if isinstance(k, float) and k != k or isinstance(k, Decimal) and k.is_nan():
                    k = 'nan'
                out[k] = sub(f['value'])
            return out
        if ty == 'union':
            return sub(r.choice(f['fields']))
        # structure
        out = {}
        defs = f['struct']
        if f['poly']:
            disc = text(f['poly'][0]['name'][0])
            v = r.choice(f['variants'])
            defs = list(v['s']) + list(f['common'])
            if not self.chance(0.06):
                ident = dec(v['id'])
                if self.chance(0.06):
                    ident = self.junk()
                elif sub is not self.native and isinstance(ident, int) and not isinstance(ident, bool) and self.chance(0.2):
                    ident = str(ident)
                elif sub is not self.native and self.chance(0.8):
                    if isinstance(ident, (date, time)):
                        ident = ident.replace(tzinfo=None).isoformat() + 'Z' if isinstance(ident, datetime) else ident.isoformat()
                    elif isinstance(ident, (Decimal, float)):
                        ident = str(ident)
                elif isinstance(ident, datetime) and self.chance(0.3):
                    ident = ident.astimezone(tz(3600))
                out[disc] = ident
            if self.chance(0.1) and len(f['variants']) > 1:
                defs = defs + list(r.choice(f['variants'])['s'])
        for m in defs:
            g = m['f']
            have = 0.93 if g['required'] and not g['default'] else 0.6
            if self.chance(have):
                out.setdefault(text(m['k']), sub(g))
                if self.chance(0.05):
                    out[text(m['k'])] = None
        if self.chance(0.12):
            out[r.choice(['zz', 'extra', 'a', 'b', ''])] = self.junk()
        if self.chance(self.p['oddkeys'] / 3):
            out[r.choice([1, None, (1,)])] = 1
        items = list(out.items())
        if self.chance(0.3):
            r.shuffle(items)
        return dict(items)
