"""C12-C16: documents of each format; what is written and what is read."""
import contextlib
import csv
import io
import json
import os
import re
import shutil
import tempfile
from datetime import date, datetime
from decimal import Decimal
from xml.dom import minidom
from xml.sax.saxutils import escape

import yaml

from cases_fields import TZ, build
from cases_ops import accepted, has
from facts import Facts
from gen import Gen, SCALARS, STRUCTURAL, WORDS
from nodes import NULL, codes, dec, enc, nd, text, walk
from project import outcome

JNUMBER = re.compile(r'-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?')
PIECES = ['a', 'b', 'Zed', ' ', '  ', '\n', '\n\n', '\t', ':', ': ', '#', ' #', '-', '- ', '?', "'", "''", '"', '|', '>', '{', '}', '[', ']',
          ',', ', ', '&', '*', '!', '%', '@', '`', '\\', '\\n', '/', '=', '<', '<<', '~', '.', '..', '...', '---', '0', '1', '12', '1.5', '1e3',
          '0x1f', '0o7', '1_000', '12:30:45', '2020-01-02', '2020-01-02T03:04:05Z', 'true', 'True', 'null', 'Null', 'yes', 'No', 'on', 'off',
          'é', 'ñ', '日本', '\u2028', '\x85', '\xa0', '\ufeff', '\U0001f600', '\x07', '\x1b', '\x7f', '\r', '\r\n', 'x' * 30, 'word ' * 24, 'y' * 110,
          '<a>', '&amp;', ']]>', '<![CDATA[', '||0||', '+', '%41', ';', 'a=b&c=d', '{a:1}', '[1,2]', '$', '^', '(', ')', '\x0b', '\x0c', '\x00', 'inf', '.inf', 'nan']
ODD = ['', ' ', 'null', 'Null', '~', 'true', 'FALSE', 'yes', 'n', 'off', '1', '-1', '+1', '0.5', '1e5', '.5', '1_000', '0b1', '0x1F', '012', '1:30', '190:20:30',
       '.inf', '-.inf', '.nan', 'inf', '2020-01-02', '2020-01-02 03:04:05', '- a', '-', '--- ', '---', '...', '? a', '? ', ': a', 'a: b', 'a:', ':', 'a #b', '#a',
       '&a', '*a', '!a', '!!int 3', '|', '|-', '>', '%a', '@a', '`a', "'a'", '"a"', "it's", '"', "'", '{', '{}', '[', '[]', '[a]', '{a: b}', '=', '<<', 'a\n', '\na', 'a\n\n',
       ' a', 'a ', '\ta', 'a\t', 'a\n b', ' a\nb', 'a\n\n b\n', 'a\nb: c', '- a\n- b', '\n', '\n\n', 'a\r\nb', 'a\rb', 'word ' * 40, 'w' * 130, ('word ' * 30).strip() + ': x',
       ' ' + 'word ' * 30, "it's " * 30, 'word ' * 25 + '\n' + 'word ' * 25, 'a' * 101, 'a' * 99, 'a' * 100, 'a\u2028b', 'a\x85b', '\ufeffa', 'a\u00a0b', 'true\n', '# a\nb', 'a\n# b',
       '---\na', 'a\n---\nb', 'a\n...\n', '%TAG', 'a\\', '\\', '\\n', 'a\\nb', '/', 'é' * 60, '0', '00', '-0', 'a,b', ',', 'a;b', 'a|b', '"a,b"', '""', "''", '\U0001f600']


def xmlchar(c):
    return c in '\t\n\r' or ' ' <= c <= '\ud7ff' or '\ue000' <= c <= '\ufffd' or c >= '\U00010000'


class FGen(Gen):
    """schemas and values within a format's domain"""

    def __init__(self, key, fmt, **profile):
        p = dict(pre=0, nan=False, aware_time=False, subsec=False, oddkeys=0, constant=0.05)
        p.update(profile)
        Gen.__init__(self, key, **p)
        self.fmt, self.deep = fmt, False
        texts = [t for t in SCALARS if t != 'binary']
        rich = fmt in ('json', 'yaml')
        self.p['scalars'] = texts + ['text', 'text', 'text'] if rich else [t for t in texts if t != 'field'] + ['text', 'text']
        if fmt in ('xml', 'csv'):
            self.p['structural'] = [t for t in STRUCTURAL if t != 'union']
        if not rich:
            self.ENUMS = [['a', 'b', 'c'], ['alpha', 'beta'], ['a b', 'c-d'], ['é', 'b'], ['1', '2']]
        else:
            self.ENUMS = [x for x in Gen.ENUMS if not any(isinstance(y, (tuple, dict)) for y in x)] + [[1.5, 2, [1, 'a']]]
        if fmt == 'xml':
            self.KEYS = ['a', 'b', 'c', 'd', 'name', 'type', 'x-y', 'été', 'k.1']
            self.MAPKEYS = ['text', 'token', 'enumeration']
            self.MAPNAMES = ['a', 'b', 'name', 'x-y', 'été']
            self.ENUMS = [['a', 'b', 'c'], ['alpha', 'beta'], ['é', 'b'], ['', 'a']]
            self.IDS = ['one', 'two', 'é', 'x y', 'a b']
        if fmt in ('structuredtext', 'urlencoded'):
            self.MAPNAMES = ['a', 'b', 'name', 'x-y', 'été', '', 'k 1', '7']
            self.DISCS = ['auto', 'auto', 'enum']
        if fmt == 'csv':
            self.DISCS = ['auto', 'enum']
        if fmt == 'yaml':
            self.MAPNAMES = ['a', 'name', '', ' '] + [x for x in ODD if len(x) < 60]
            self.KEYS = Gen.KEYS + ['1', 'null', 'true', 'a: b', '- x', '#k', "it's", '2020-01-02', '', ' a', '?', '0.5', 'yes', '&x']
            self.NAMES = ['name', 'x']
        if fmt == 'json':
            self.MAPNAMES = Gen.MAPNAMES + ['"', '\\', '\n', '\u2028', '\U0001f600', 'null']
        if fmt == 'json':
            self.FLOATS = [x for x in Gen.FLOATS if x - x == 0]

    def fit(self, s):
        if self.fmt == 'xml':
            return ''.join(c for c in s if xmlchar(c))
        if self.fmt == 'csv':
            return s.replace('\x00', '')
        if self.fmt in ('structuredtext', 'urlencoded'):
            s = re.sub(r'[,|\\]', '', s)
            return s + 'q' if s.lower() in ('true', 'false', 'null') else s
        return s

    def text_value(self, f):
        if f.get('pat') or self.chance(0.25):
            return self.fit(Gen.text_value(self, f))
        if self.chance(0.45):
            return self.fit(self.r.choice(ODD))
        return self.fit(''.join(self.r.choice(PIECES) for _ in range(self.r.randint(1, 6))))

    def word(self):
        return self.fit(Gen.word(self))

    def spec_text(self):
        f = Gen.spec_text(self)
        if self.chance(0.6):
            f['minl'] = f['maxl'] = []
            f['pat'] = []
            f['strip'] = self.pick(0, 1)
        return f

    def native(self, f):
        if f['ty'] == 'field' and not f['constant']:
            return self.nested(self.pick(2, 3, 4)) if self.deep and self.chance(0.5) else self.data(2)
        v = Gen.native(self, f)
        if isinstance(v, str) and f['ty'] == 'email':
            return self.fit(v)
        return v

    def data(self, deep):
        r = self.r
        k = r.randint(0, 9)
        if deep and k < 2:
            return [self.data(deep - 1) for _ in range(r.choice([0, 1, 2, 2, 3, 3, 5]))]
        if deep and k < 4:
            return dict((r.choice(['a', 'b', 'x y', '', '0']), self.data(deep - 1)) for _ in range(r.randint(0, 3)))
        if deep and k < 5:
            return [self.data(0) for _ in range(r.choice([1, 3, 9, 14]))]
        if self.fmt == 'yaml' and r.random() < 0.1:
            return r.choice([date(2020, 1, 2), date(1999, 12, 31), datetime(2020, 1, 2, 3, 4, 5), datetime(1987, 6, 5)])
        if self.fmt in ('structuredtext', 'urlencoded'):
            return r.choice([None, True, False, 0, 1, -7, 1.5, -0.25, 1e100, '', 'a', '-0.5', '.5', '+1.5', '1.', '-3', '12', '1e5', '-1.5e-3', '1_0',
                             '1.5.2', '-.5', 'a.b', '-', '.', 'é', '{', ']', '[a', 'x{y}', '1 2', ' 1', '٣', '0x1f', '007', '-0', 'nan', 'inf', 'a:b'])
        return r.choice([None, True, False, 0, 1, -7, 2 ** 70, 1.5, -0.25, 1e100, 5e-324, '', 'a', '12', 'null', 'é\n', '\\"/'])

    def nested(self, deep):
        """containers all the way down"""
        r = self.r
        if not deep:
            return self.data(1)
        n = r.choice([1, 2, 2, 3])
        if r.random() < 0.6:
            return [self.nested(deep - 1) if r.random() < 0.7 else self.data(0) for _ in range(n)]
        return dict((r.choice(['a', 'b', 'x y', 'c']), self.nested(deep - 1) if r.random() < 0.7 else self.data(0)) for _ in range(n))

    def opaque(self):
        f = self.base('field', pre='none', default=[], constant=[])
        if self.chance(0.3):
            f = self.base('sequence', minl=[], maxl=[], unique=0, item=f, pre='none', default=[])
        elif self.chance(0.3):
            f = self.base('map', value=f, key=[], reqkeys=[], pre='none', default=[])
        return f

    def junk(self, deep=0):
        return self.r.choice(['zz', 1, True, None, [], {}, ['a'], 1.5, {'a': 'b'}, '12'])

    def container(self, f, sub):
        v = Gen.container(self, f, sub)
        if isinstance(v, dict):
            v = dict((self.fit(k) if isinstance(k, str) else k, x) for k, x in v.items())
        if isinstance(v, dict) and self.fmt == 'xml' and f['ty'] == 'map' and (not f['key'] or f['key'][0]['ty'] == 'text'):
            v = dict((k if k in ('z',) + tuple(self.MAPNAMES) else self.r.choice(self.MAPNAMES), x) for k, x in v.items())
        return v


def leaves(v):
    if isinstance(v, dict):
        for k, x in v.items():
            yield k
            for y in leaves(x):
                yield y
    elif isinstance(v, (list, tuple)):
        for x in v:
            for y in leaves(x):
                yield y
    else:
        yield v


def in_domain(fmt, s, top=True):
    """is the serialized value one the notation can express"""
    if fmt in ('json', 'yaml'):
        for x in leaves(s):
            if isinstance(x, (bytes, Decimal)) or fmt == 'json' and isinstance(x, float) and x - x != 0:
                return False
            if x is not None and not isinstance(x, (str, int, float, bool)):
                if fmt == 'json' or not isinstance(x, date) or x.year < 1000 or isinstance(x, datetime) and (x.tzinfo or x.microsecond):
                    return False
            if isinstance(x, str) and any('\ud800' <= c <= '\udfff' for c in x):
                return False
        return short_keys(s) and sortable(s) if fmt == 'yaml' else distinct(s)
    if fmt == 'xml':
        return all(xmlchar(c) for x in leaves(s) if isinstance(x, str) for c in x)
    if fmt == 'csv':
        return not any('\x00' in x for x in leaves(s) if isinstance(x, str))
    if fmt == 'urlencoded' and top and not isinstance(s, dict):
        return False
    if isinstance(s, dict):
        return distinct(s) and all(type(k) in (str, int, float) and not re.search(r'[][{},:|\\]', str(k)) and in_domain(fmt, x, False) for k, x in s.items())
    if isinstance(s, (list, tuple)):
        return list(s) != [''] and all(in_domain(fmt, x, False) for x in s)
    if isinstance(s, str):
        return not re.search(r'[,|\\]', s) and s.lower() not in ('true', 'false', 'null') and not any('\ud800' <= c <= '\udfff' for c in s)
    return True


def short_keys(s):
    if isinstance(s, dict):
        return all(len(str(k)) < 90 and short_keys(x) for k, x in s.items())
    return not isinstance(s, (list, tuple)) or all(short_keys(x) for x in s)


def distinct(s):
    """no two keys of a mapping are written alike"""
    if isinstance(s, dict):
        return len(set(map(str, s))) == len(s) and all(distinct(x) for x in s.values())
    return not isinstance(s, (list, tuple)) or all(distinct(x) for x in s)


def sortable(s):
    if isinstance(s, dict):
        return len(set(isinstance(k, str) for k in s)) < 2 and None not in s and all(sortable(x) for x in s.values())
    return not isinstance(s, (list, tuple)) or all(sortable(x) for x in s)


def element(e):
    kids = [k for k in e.childNodes if k.nodeType == k.ELEMENT_NODE]
    own = ''
    for k in e.childNodes:
        if k.nodeType == k.ELEMENT_NODE:
            break
        if k.nodeType in (k.TEXT_NODE, k.CDATA_SECTION_NODE):
            own += k.data
    return dict(tag=codes(e.tagName), null=int(bool(e.getAttribute('null'))), text=codes(own),
                kids=[element(k) for k in kids], ord=0)


def texts_in(e):
    yield text(e['text'])
    for k in e['kids']:
        for x in texts_in(k):
            yield x


def parsed(fmt, document):
    """(what a standard reader makes of the document, the texts in it)"""
    try:
        if fmt == 'yaml':
            return [enc(yaml.safe_load(document))], []
        if fmt == 'xml':
            e = element(minidom.parseString(document.encode('utf-8')).documentElement)
            return [e], list(texts_in(e))
    except Exception:
        return [], []
    try:
        if fmt == 'csv':
            return [], [c for row in csv.reader(io.StringIO(document, newline='')) for c in row]
        if fmt == 'json':
            d = json.loads(document)
        else:
            import scheme
            d = scheme.Format.unserialize(document, fmt)
        ds = [d]
        if fmt == 'structuredtext':
            ds.append(scheme.Format.unserialize(document, fmt, parse_numbers=True))
        return [], ds + [x for d in ds for x in leaves(d)]
    except Exception:
        return [], []


def stnum(t):
    if '.' in t:
        try:
            return [enc(float(t))]
        except ValueError:
            pass
    try:
        return [enc(int(t))]
    except ValueError:
        return []


def facts_for(f, fmt, document, *things):
    fx = Facts(TZ)
    doc, texts = parsed(fmt, document)
    for x in things:
        for y in leaves(x):
            texts.append(y)
            if not isinstance(y, (str, int, bool, type(None))):
                fx.pstr(enc(y))
            texts.append(str(y))
    if fmt == 'json':
        for m in JNUMBER.finditer(document):
            if m.group(1) or m.group(2):
                v = enc(float(m.group(0)))
                fx.add('jsonfloat', enc(m.group(0)), [v])
                texts.append(dec(v))
    if fmt == 'structuredtext':
        for t in texts:
            if isinstance(t, str):
                r = stnum(t)
                fx.add('stnum', enc(t), r)
                texts.extend(dec(x) for x in r)
    uniq = dict((repr(n), n) for n in map(enc, texts))
    fx.collect(f, doc, list(uniq.values()), *[enc(x) for x in things])
    for n in list(uniq.values()):
        if n['t'] == 'str':
            for op in (float, Decimal):     # a number read from text is compared and written again
                try:
                    fx.collect(f, enc(op(text(n['n']))))
                except Exception:
                    pass
    return fx, doc


def write(rec, f, fld, fmt, v, columns=None, path=None, **opts):
    node, before = enc(v), enc(v)
    buf = io.StringIO()
    kw = dict(opts)
    if columns is not None:
        kw['columns'] = columns
    if path is not None:
        kw['path'] = path
    with contextlib.redirect_stdout(buf):
        out, res = outcome(lambda: fld.serialize(v, fmt, **kw))
    try:
        s = fld.serialize(v)
    except Exception:
        s = None
    fx, doc = facts_for(f, fmt, res if isinstance(res, str) else '', v, s)
    cols = columns.split(',') if isinstance(columns, str) else columns or []
    rec('write', f=f, v=node, fmt=fmt, cx=fx.cx(), out=out, doc=doc, columns=[codes(c) for c in cols],
        path=[codes(k) for k in (path or '').split('.') if k], printed=codes(buf.getvalue()),
        mut=[] if enc(v) == before else ['value'])
    return res if out['r'] == 'ok' and isinstance(res, str) else None


def read(rec, f, fld, fmt, document, exact=None, numbers=False):
    if numbers:
        out, res = outcome(lambda: fld.unserialize(document, fmt, parse_numbers=True))
    else:
        out, res = outcome(lambda: fld.unserialize(document, fmt))
    s = None
    if exact is not None:
        try:
            s = fld.serialize(exact[0])
        except Exception:
            pass
    fx, doc = facts_for(f, fmt, document, s, exact, res if out['r'] == 'ok' else None)
    rec('read', f=f, text=codes(document), fmt=fmt, cx=fx.cx(), out=out, doc=doc, numbers=int(numbers),
        exact=[] if exact is None else [enc(exact[0])], mut=[])
    return out, res


def tupled(v):
    if isinstance(v, dict):
        return any(tupled(x) for x in v.values())
    if isinstance(v, list):
        return any(tupled(x) for x in v)
    return isinstance(v, tuple)


def exactly(fmt, f, v, s):
    """may the format be expected to give v back, when conversion itself does"""
    if has(f, lambda h: h['ty'] in ('union', 'field') or h['ty'] == 'map' and not h['key']) and \
            not all(isinstance(k, str) for k in keys_in(s)):
        return False
    if tupled(s) and has(f, lambda h: h['ty'] in ('field', 'union')):
        return False
    if fmt != 'yaml' and not all(isinstance(k, str) for k in keys_in(s)) and (
            has(f, lambda h: h['ty'] == 'map' and h['key'] and h['key'][0]['ty'] == 'enumeration')
            or not all(type(k) in (str, int, float) for k in keys_in(s))):
        return False
    if fmt in ('structuredtext', 'urlencoded') and has(f, lambda h: h['ty'] == 'union' or h['ty'] == 'structure' and h['poly'] and h['poly'][0]['ty'] == 'boolean'):
        return False
    return True


def keys_in(s):
    if isinstance(s, dict):
        for k, x in s.items():
            yield k
            for y in keys_in(x):
                yield y
    elif isinstance(s, (list, tuple)):
        for x in s:
            for y in keys_in(x):
                yield y


def trips(rec, g, f, fld, fmt, n=3, numbers=False):
    for j in range(n):
        if g.chance(0.12):                      # possibly not acceptable at all
            v = g.candidate(f, False, 0.2)
            if in_domain(fmt, v):
                try:
                    s = fld.serialize(v)
                except Exception:
                    s = None
                if s is None or in_domain(fmt, s):
                    write(rec, f, fld, fmt, v)
            continue
        got = accepted(g, f, fld)
        if not got or got[0] is None and not g.chance(0.1):
            continue
        v = got[0]
        try:
            s = fld.serialize(v)
        except Exception as e:
            s = None
        if s is not None and not in_domain(fmt, s):
            continue
        document = write(rec, f, fld, fmt, v)
        if document is None:
            continue
        ok = exactly(fmt, f, v, s)
        if fmt in ('structuredtext', 'urlencoded') and has(f, lambda h: h['ty'] == 'field'):
            ok = False
            if numbers:
                read(rec, f, fld, fmt, document, None, True)
        if numbers and not has(f, lambda h: h['ty'] == 'decimal') and not any(isinstance(x, str) and stnum(x) for x in leaves(v)):
            read(rec, f, fld, fmt, document, [v] if ok else None, True)
        read(rec, f, fld, fmt, document, [v] if ok else None)


# ------------------------------------------------------------------- JSON
def hand_json(g, v, deep=0):
    """a JSON text for v, written unlike the library would"""
    r = g.r
    sp = lambda: r.choice(['', '', '', ' ', '\n', '\t', ' \r\n '])
    if v is None or v is True or v is False:
        return json.dumps(v)
    if isinstance(v, float):
        t = repr(v)
        return r.choice([t, t.upper(), '%.3e' % v, '%.20f' % v if abs(v) < 1e10 else t, t if 'e' in t else t + 'e0', t if 'e' in t or '.' not in t else t + '00'])
    if isinstance(v, int):
        return r.choice(['%d' % v, '%d' % v, '%d.0' % v if abs(v) < 2 ** 50 else '%d' % v, '-0' if v == 0 else '%d' % v])
    if isinstance(v, str):
        out = ''
        for c in v:
            o = ord(c)
            if c in '"\\' or o < 32:
                out += r.choice([{'"': '\\"', '\\': '\\\\', '\n': '\\n', '\t': '\\t', '\r': '\\r', '\b': '\\b', '\f': '\\f'}.get(c, '\\u%04x' % o), '\\u%04X' % o])
            elif o > 0xffff:
                out += c if r.random() < 0.5 else '\\u%04x\\u%04x' % (0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff))
            elif c == '/' and r.random() < 0.5:
                out += '\\/'
            else:
                out += c if r.random() < 0.85 else '\\u%04x' % o
        return '"%s"' % out
    if isinstance(v, dict):
        items = ['%s%s%s:%s%s%s' % (sp(), hand_json(g, str(k)), sp(), sp(), hand_json(g, x, deep + 1), sp()) for k, x in v.items()]
        if items and r.random() < 0.1:          # the last of equal keys counts
            items.insert(0, '"%s":%s' % (json.dumps(str(list(v)[0]))[1:-1], r.choice(['1', '[]', '"x"'])))
        return '{%s%s}' % (','.join(items), sp())
    return '[%s%s]' % (','.join(sp() + hand_json(g, x, deep + 1) + sp() for x in v), sp())


def c12(key, i, tier, rec):
    g = FGen(key, 'json')
    f = g.spec(g.pick(0, 1, 2, 2, 3))
    if g.chance(0.1):
        g.deep = True
        f = g.opaque()
    b, fld = build(rec, f)
    if fld is None:
        return
    if i % 3 < 2:
        trips(rec, g, f, fld, 'json')
    else:
        for j in range(3):
            v = g.candidate(f, True, g.pick(0, 0.05, 0.3))
            if v is not None and not all(x is None or isinstance(x, (str, int, float, bool)) and x == x and x not in (float('inf'), -float('inf')) for x in leaves(v)):
                continue
            t = hand_json(g, v)
            if any('\ud800' <= c <= '\udfff' for c in t) or re.search('[0-9]{60}', t):
                continue
            read(rec, f, fld, 'json', t)


# ------------------------------------------------------------------- YAML
def c13(key, i, tier, rec):
    g = FGen(key, 'yaml', unmatched=0)
    if i % 4 == 0:
        f = g.spec(0, types=['text'])
        f['strip'], f['pat'], f['minl'], f['maxl'] = 0, [], [], []
        for _ in range(g.pick(0, 1, 2, 3, 4)):
            if g.chance(0.5):
                f = g.base('sequence', minl=[], maxl=[], unique=0, item=f)
            elif g.chance(0.5):
                f = g.base('map', value=f, key=[], reqkeys=[])
            else:
                f = g.base('structure', strict=1, poly=[], variants=[], common=[], korder=[],
                           struct=[dict(k=codes('a'), f=f), dict(k=codes('b'), f=g.spec(0, types=['text', 'integer']))])
    elif i % 4 == 1 and g.chance(0.3):
        g.deep = True
        f = g.opaque()
    else:
        f = g.spec(g.pick(0, 1, 2, 2, 3))
    b, fld = build(rec, f)
    if fld is None:
        return
    if i % 5 < 4:
        trips(rec, g, f, fld, 'yaml')
    else:
        for j in range(2):
            v = g.candidate(f, True, g.pick(0, 0.05, 0.3))
            if not in_domain('yaml', v) or tupled(v):
                continue
            try:
                t = yaml.safe_dump(v, default_flow_style=g.pick(True, False), indent=g.pick(None, 2, 4), allow_unicode=g.pick(True, False),
                                   explicit_start=g.pick(True, False), default_style=g.pick(None, None, '"', "'"), width=g.pick(20, 80, 1000))
            except Exception:
                continue
            read(rec, f, fld, 'yaml', t)


# -------------------------------------------------------------------- XML
def hand_xml(g, e):
    """the same element written differently"""
    r = g.r
    attr = r.choice([' null="true"', " null='yes'", ' other="x" null="1"']) if e['null'] else r.choice(['', '', ' other="x"', ' '])
    tag = text(e['tag'])
    if e['kids']:
        sp = lambda: r.choice(['', '\n', '  ', '\n\t', '<!-- c -->', '\n<!--c-->\n', '<?pi x?>'])
        return '<%s%s>%s</%s>' % (tag, attr, ''.join(sp() + hand_xml(g, k) for k in e['kids']) + sp(), tag)
    t = text(e['text'])
    if t and ']]>' not in t and '\r' not in t and r.random() < 0.3:
        t = '<![CDATA[%s]]>' % t
    else:
        t = ''.join('&#%d;' % ord(c) if r.random() < 0.1 or c == '\r' else '&#x%x;' % ord(c) if r.random() < 0.1 else escape(c) for c in t)
    if not t and r.random() < 0.5:
        return '<%s%s/>' % (tag, attr)
    return '<%s%s>%s</%s>' % (tag, attr, t, tag)


def c14(key, i, tier, rec):
    g = FGen(key, 'xml')
    f = g.spec(g.pick(0, 1, 2, 2, 3))
    b, fld = build(rec, f)
    if fld is None:
        return
    for j in range(3):
        got = accepted(g, f, fld)
        if not got or got[0] is None and not g.chance(0.2):
            continue
        v = got[0]
        try:
            s = fld.serialize(v)
        except Exception:
            s = None
        if s is not None and not in_domain('xml', s):
            continue
        if not all(isinstance(k, str) and k[:1].isalpha() and all(c.isalpha() or c in '0123456789._-' for c in k) for k in keys_in(s)):
            continue
        kw = dict(preamble=False) if g.chance(0.1) else {}
        t = write(rec, f, fld, 'xml', v, **kw)
        if t is None:
            continue
        ok = exactly('xml', f, v, s)
        read(rec, f, fld, 'xml', t, [v] if ok else None)
        if g.chance(0.4):
            try:
                e = element(minidom.parseString(t.encode('utf-8')).documentElement)
            except Exception:
                continue
            t = g.pick('', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n', '<!-- x -->') + hand_xml(g, e)
            read(rec, f, fld, 'xml', t, [v] if ok else None)


# -------------------------------------------------------------------- CSV
def c15(key, i, tier, rec):
    g = FGen(key, 'csv', default=0.1, constant=0.03, nonnull=0.1, poly=0)
    s = g.spec(2, types=['structure'])
    for m in s['struct']:
        if g.chance(0.85):
            m['f']['required'] = 0
    if not s['struct'] or g.chance(0.6):
        s['struct'] = [m for m in s['struct'] if m['f']['ty'] not in STRUCTURAL]
        s['struct'] += g.members([k for k in ['c1', 'c2', 'C3', 'with, comma', 'quo"te', 'line\nbreak', 'été']
                                  if g.chance(0.4)], 1)
    s['struct'] = list(dict((text(m['k']), m) for m in s['struct']).values())
    scalar = [text(m['k']) for m in s['struct'] if m['f']['ty'] not in STRUCTURAL]
    if not scalar:
        return
    f = g.base('sequence', minl=[], maxl=[], unique=0, item=s, pre='none')
    f['pre'] = 'none'
    root, path = f, None
    if g.chance(0.15):
        root = g.base('structure', strict=1, poly=[], variants=[], common=[], korder=[], struct=[dict(k=codes('rows'), f=f)])
        path = 'rows'
        if g.chance(0.5):
            root = g.base('structure', strict=1, poly=[], variants=[], common=[], korder=[], struct=[dict(k=codes('top'), f=root)])
            path = 'top.rows'
    b, fld = build(rec, root)
    if fld is None:
        return
    for j in range(3):
        got = accepted(g, f, fld if path is None else fld_at(fld, path))
        if not got or got[0] is None:
            continue
        v = rows = got[0]
        for k in reversed((path or '').split('.') if path else []):
            v = {k: v}
        if not in_domain('csv', v):
            continue
        columns = None
        if g.chance(0.4):
            columns = [c for c in scalar if g.chance(0.6)] + [c for c in ['zz', text(g.pick(*s['struct'])['k'])] if g.chance(0.15)]
            g.r.shuffle(columns)
            columns = list(dict.fromkeys(columns))
            if not [c for c in columns if c in scalar]:
                columns = None
            elif not any(',' in c for c in columns) and g.chance(0.5):
                columns = ','.join(columns)
        t = write(rec, root, fld, 'csv', v, columns=columns, path=path)
        if t is None or path:
            continue
        cols = columns.split(',') if isinstance(columns, str) else columns or scalar
        want = [dict((k, x) for k, x in row.items() if x is not None and x != '' and k in cols and k in scalar) for row in rows]
        read(rec, f, fld, 'csv', t, [want])
        if g.chance(0.4):
            try:
                table = list(csv.reader(io.StringIO(t, newline='')))
            except Exception:
                continue
            buf = io.StringIO(newline='')
            w = csv.writer(buf, quoting=g.pick(csv.QUOTE_MINIMAL, csv.QUOTE_ALL), lineterminator=g.pick('\n', '\r\n'))
            order = list(range(len(table[0])))
            g.r.shuffle(order)
            if len(order) > 1:
                for row in table:
                    w.writerow([row[k] for k in order])
                    if g.chance(0.1):
                        buf.write(w.dialect.lineterminator)
                if '\r' not in ''.join(''.join(row) for row in table):
                    read(rec, f, fld, 'csv', buf.getvalue(), [want])


def fld_at(fld, path):
    for k in path.split('.'):
        fld = fld.get(k)
    return fld


# -------------------------------------------- structured text, URL encoding
def c16(key, i, tier, rec):
    fmt = 'structuredtext' if i % 2 else 'urlencoded'
    g = FGen(key, fmt, default=0.15)
    f = g.spec(g.pick(1, 2, 2, 3), types=['structure', 'map'] if fmt == 'urlencoded' else None)
    if fmt == 'structuredtext' and g.chance(0.25):
        g.deep = True
        f = g.opaque()
    b, fld = build(rec, f)
    if fld is None:
        return
    trips(rec, g, f, fld, fmt, 3, numbers=fmt == 'structuredtext' and g.chance(0.4))


# ------------------------------------------------------------------ files
EXPLICIT = {'json': ['json', 'application/json', '.json', 'class'], 'yaml': ['yaml', 'application/x-yaml', '.yaml', '.yml', 'class'],
            'xml': ['xml', 'application/xml', '.xml', 'class'], 'csv': ['csv', 'application/csv', '.csv', 'class'],
            'structuredtext': ['structuredtext', 'text/plain', 'class'],
            'urlencoded': ['urlencoded', 'application/x-www-form-urlencoded', 'class']}
EXTENSION = {'json': ['.json', '.JSON', '.Json'], 'yaml': ['.yaml', '.yml', '.YML', '.bak.yaml'], 'xml': ['.xml', '.XML', '.json.xml'],
             'csv': ['.csv', '.CSV'], 'structuredtext': [''], 'urlencoded': ['']}
UNKNOWN_EXT = ['', '.txt', '.jsonx', '.json.bak', '.', '.yam']
UNKNOWN_FMT = ['nope', 'JSON', 'xls', 'text/html', '.txt', 'json ']


def snapshot(root, names):
    out = []
    for d, _, files in os.walk(root):
        for n in files:
            p = os.path.relpath(os.path.join(d, n), root)
            with open(os.path.join(d, n), 'rb') as fh:
                out.append(dict(p=codes(p), c=codes(fh.read().decode('utf-8', 'surrogateescape'))))
    return out


def c17(key, i, tier, rec):
    import scheme
    from scheme import formats
    classes = dict(json=formats.Json, yaml=formats.Yaml, xml=formats.Xml, csv=formats.Csv,
                   structuredtext=formats.StructuredText, urlencoded=formats.UrlEncoded)
    g = FGen(key, 'xml' if i % 3 else 'csv', default=0.1)
    root = tempfile.mkdtemp(prefix='c17-')
    fields = []
    try:
        for _ in range(2):
            if g.fmt == 'csv':
                s = g.spec(1, types=['structure'])
                s['struct'] = [m for m in s['struct'] if m['f']['ty'] not in STRUCTURAL]
                if not s['struct'] or s['poly']:
                    continue
                f = g.base('sequence', minl=[], maxl=[], unique=0, item=s, pre='none')
            else:
                f = g.spec(g.pick(1, 2), types=['structure', 'map', 'structure', 'sequence'])
            b, fld = build(rec, f)
            if fld is None:
                return
            fields.append((f, fld))
        if not fields:
            return
        os.mkdir(os.path.join(root, 'sub'))
        os.mkdir(os.path.join(root, 'd.json'))
        paths = []
        for _ in range(3):
            stem = g.pick('a', 'b', 'x.y', 'é', '.hidden', 'sub/a', 'd.json/a', 'UPPER', 'a b')
            paths.append(stem + (g.pick(*sum(EXTENSION.values(), [])) if g.chance(0.85) else g.pick(*UNKNOWN_EXT)))
        if g.chance(0.2):
            paths.append('nosuch/dir.json')
        written = {}
        steps = []
        for _ in range(g.pick(3, 5, 8)):
            path = g.pick(*paths)
            reading = g.chance(0.5) and (written or g.chance(0.15))
            if reading and written and g.chance(0.9):
                path = g.pick(*sorted(written))
            if os.path.isdir(os.path.join(root, path)):
                continue
            full = os.path.join(root, path)
            explicit, cls, api = None, '', scheme.Format
            known = None
            if g.chance(0.4) or path in written and written[path][0] not in ('json', 'yaml', 'xml', 'csv') and g.chance(0.8):
                fmt = g.pick(*sorted(EXPLICIT))
                if path in written and written[path][0] and g.chance(0.8):
                    fmt = written[path][0]
                explicit = g.pick(*EXPLICIT[fmt]) if g.chance(0.9) else g.pick(*UNKNOWN_FMT)
                known = classes[fmt] if explicit == 'class' else explicit
                if explicit == 'class':
                    explicit = fmt
            via = g.pick('field', 'field', 'format', 'class')
            if via == 'class':
                cls = g.pick(*sorted(classes))
                if path in written and written[path][0] and g.chance(0.7):
                    cls = written[path][0]
                api = classes[cls]
            # which format that means, by the harness's own reckoning (only to choose suitable values)
            ext = os.path.splitext(path)[1].lower()
            guess = explicit if explicit in classes else cls if not explicit else None
            if explicit and explicit not in classes:
                guess = ([n for n, xs in EXPLICIT.items() if explicit in xs] + [None])[0]
            if not guess and not explicit:
                guess = ([n for n, xs in EXTENSION.items() if ext and ext in xs] + [None])[0]
            f, fld = g.pick(*fields)
            schema = 1
            step = dict(path=codes(path), explicit=[] if explicit is None else [codes(explicit)], cls=cls, doc=[], exact=[], quiet=0, dom=0,
                        place=int(os.path.isdir(os.path.dirname(full))), v=NULL)
            if not reading:
                got = accepted(g, f, fld) if g.chance(0.85) else [g.candidate(f, False, 0.5)]
                if not got:
                    continue
                v = got[0]
                try:
                    s = fld.serialize(v)
                except Exception:
                    s = None
                if via != 'field':           # no processing: the data as it is
                    if s is None:
                        continue
                    v, schema = s, 0
                if via == 'field':
                    out, res = outcome(lambda: fld.write(full, v) if known is None else fld.write(full, v, known))
                else:
                    out, res = outcome(lambda: api.write(full, v, known, fld))
                step.update(op='write', v=enc(v), out=out)
                if guess and (s is not None or v is None):
                    step['dom'] = int(suits(guess, f, s))
                if out['r'] == 'ok':
                    written[path] = (guess, f, v if via == 'field' else None, step['dom'])
                doc_text, things = '', [v, s]
                if out['r'] == 'ok' and os.path.exists(full):
                    doc_text = open(full, 'rb').read().decode('utf-8', 'surrogateescape')
                out['v'] = NULL
            else:
                if path in written and g.chance(0.8):
                    f, fld = [x for x in fields if x[0] is written[path][1]][0]
                quiet = int(g.chance(0.25))
                if via == 'field':
                    quiet = 0
                    out, res = outcome(lambda: fld.read(full) if known is None else fld.read(full, known))
                else:
                    schema = 0
                    out, res = outcome(lambda: api.read(full, known, fld, bool(quiet)) if quiet else api.read(full, known, fld))
                step.update(op='read', out=out, quiet=quiet)
                w = written.get(path)
                if w and w[0] == guess and w[1] is f and via == 'field' and w[2] is not None and w[3] and guess != 'csv' and exactly(guess, f, w[2], fld.serialize(w[2])):
                    step['exact'] = [enc(w[2])]
                doc_text, things = '', [w[2] if w else None, res if out['r'] == 'ok' else None]
                if w and w[2] is not None:
                    things.append(fld_serialized(w, fields))
                if os.path.exists(full):
                    doc_text = open(full, 'rb').read().decode('utf-8', 'surrogateescape')
            fx, step['doc'] = facts_for(f, guess or 'json', doc_text, *things)
            step.update(schema=schema, f=f, cx=fx.cx(), after=snapshot(root, paths))
            steps.append(step)
        rec('files', steps=steps)
    finally:
        shutil.rmtree(root)


def fld_serialized(w, fields):
    fld = [x[1] for x in fields if x[0] is w[1]][0]
    try:
        return fld.serialize(w[2])
    except Exception:
        return None


def suits(fmt, f, s):
    """can the format represent this serialized value of this field"""
    if fmt == 'csv':
        return f['ty'] == 'sequence' and f['item']['ty'] == 'structure' and not f['item']['poly'] and s is not None \
            and None not in s and any(m['f']['ty'] not in STRUCTURAL for m in f['item']['struct']) and in_domain('csv', s)
    if fmt == 'urlencoded' and not isinstance(s, dict):
        return False
    if fmt == 'xml' and not all(isinstance(k, str) and k[:1].isalpha() and all(c.isalpha() or c in '0123456789._-' for c in k) for k in keys_in(s)):
        return False
    return in_domain(fmt, s)


CASES = {'C17': c17, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16}
