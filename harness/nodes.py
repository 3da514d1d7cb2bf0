"""Python values <-> model nodes (see spec/Values.tla)."""
import struct
from collections import OrderedDict
from datetime import date, datetime, time, timedelta, timezone
from decimal import Decimal
from math import copysign


def nd(t, n=(), c=()):
    return {'t': t, 'n': list(n), 'c': list(c)}


NULL = nd('null')


def limbs(value):
    if value == 0:
        return [0]
    sign = -1 if value < 0 else 1
    value = abs(value)
    out = []
    while value:
        value, r = divmod(value, 10000)
        out.append(r)
    return [sign] + out[::-1]


def unlimbs(n):
    value = 0
    for limb in n[1:]:
        value = value * 10000 + limb
    return n[0] * value


def codes(s):
    return [ord(c) for c in s]


def s(text):
    return nd('str', codes(text))


def text(n):
    return ''.join(map(chr, n))


def float_node(v):
    if v != v:
        return nd('float', [3, 0, 0, 0, 0, 0])
    if v == 0 and copysign(1, v) < 0:
        return dict(float_node(0.0), c=[nd('neg')])
    bits = struct.unpack('>Q', struct.pack('>d', v))[0]
    bits = (~bits & (2 ** 64 - 1)) if bits >> 63 else bits | (1 << 63)
    key = [(bits >> k) & 0xffff for k in (48, 32, 16, 0)]
    finite = v not in (float('inf'), float('-inf'))
    c = []
    if finite and v.is_integer():
        tail = [1] + limbs(int(v))
    else:
        tail = [0]
        if finite:
            d = Decimal(v)
            if len(d.as_tuple().digits) <= 30:
                c = [dec_node(d)]
    return nd('float', [0 if finite else 1] + key + tail, c)


def unfloat(n):
    if n[0] == 3:
        return float('nan')
    bits = (n[1] << 48) | (n[2] << 32) | (n[3] << 16) | n[4]
    bits = (bits & (2 ** 63 - 1)) if bits >> 63 else (~bits & (2 ** 64 - 1))
    return struct.unpack('>d', struct.pack('>Q', bits))[0]


def dec_node(v):
    sign, digits, exp = v.as_tuple()
    sg = -1 if sign else 1
    if exp == 'F':
        return nd('dec', [1, sg, 0])
    if exp in ('n', 'N'):
        return nd('dec', [3, sg, 0] + list(digits))
    digits = list(digits)
    while digits and digits[0] == 0:
        digits.pop(0)
    return nd('dec', [0, sg, exp] + digits)


def undec(n):
    sg = 1 if n[1] < 0 else 0
    if n[0] == 1:
        return Decimal((sg, (0,), 'F'))
    if n[0] == 3:
        return Decimal((sg, tuple(n[3:]), 'n'))
    return Decimal((sg, tuple(n[3:]) or (0,), n[2]))


def offset_of(v):
    off = v.utcoffset()
    return [0, 0] if off is None else [1, off.days * 86400 + off.seconds]


REGISTRY = {}      # tag payload -> object, for values only known by identity


def register(key, obj):
    REGISTRY[key] = obj
    return obj


def name_of(obj):
    for k, v in REGISTRY.items():
        if v is obj:
            return k
    return None


class Wrapped(object):
    """what the instantiator with this tag makes of a value"""

    def __init__(self, tag, value, key):
        self.tag, self.value, self.key = tag, value, key


class NS(object):
    """an object with attributes"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def enc(v, special=None):
    if special is not None:
        r = special(v)
        if r is not None:
            return r
    if v is None:
        return NULL
    if v is True or v is False:
        return nd('bool', [int(v)])
    tp = type(v)
    if tp is int:
        return nd('int', limbs(v))
    if tp is float:
        return float_node(v)
    if tp is Decimal:
        return dec_node(v)
    if tp is str:
        return nd('str', codes(v))
    if tp is bytes:
        return nd('bytes', list(v))
    if tp is datetime:
        return nd('dt', [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
                  + offset_of(v))
    if tp is date:
        return nd('date', [v.year, v.month, v.day])
    if tp is time:
        return nd('time', [v.hour, v.minute, v.second, v.microsecond] + offset_of(v))
    if tp is OrderedDict:
        return nd('odict', (), [nd('kv', (), [enc(k, special), enc(x, special)]) for k, x in v.items()])
    if tp is dict:
        return nd('dict', (), [nd('kv', (), [enc(k, special), enc(x, special)]) for k, x in v.items()])
    if tp is list:
        return nd('list', (), [enc(x, special) for x in v])
    if tp is tuple:
        return nd('tuple', (), [enc(x, special) for x in v])
    if tp is Wrapped:
        return nd('inst', [v.tag], [enc(v.value, special), enc(v.key, special)])
    if tp is NS:
        return nd('ns', (), [nd('kv', (), [enc(k, special), enc(x, special)]) for k, x in v.__dict__.items()])
    key = name_of(v)
    if key is not None:
        return nd('obj', codes(key))
    return nd('other', codes('%s:%r' % (tp.__name__, v) if not hasattr(v, 'process') else tp.__name__))


def tz(off):
    return timezone(timedelta(seconds=off))


def dec(node):
    t, n, c = node['t'], node['n'], node['c']
    if t == 'null':
        return None
    if t == 'bool':
        return bool(n[0])
    if t == 'int':
        return unlimbs(n)
    if t == 'float':
        return -0.0 if c and c[0]['t'] == 'neg' else unfloat(n)
    if t == 'dec':
        return undec(n)
    if t == 'str':
        return text(n)
    if t == 'bytes':
        return bytes(n)
    if t == 'dt':
        return datetime(*n[:7], tzinfo=tz(n[8]) if n[7] else None)
    if t == 'date':
        return date(*n)
    if t == 'time':
        return time(*n[:4], tzinfo=tz(n[5]) if n[4] else None)
    if t == 'list':
        return [dec(x) for x in c]
    if t == 'tuple':
        return tuple(dec(x) for x in c)
    if t == 'dict':
        return dict((dec(x['c'][0]), dec(x['c'][1])) for x in c)
    if t == 'odict':
        return OrderedDict((dec(x['c'][0]), dec(x['c'][1])) for x in c)
    if t == 'inst':
        return Wrapped(n[0], dec(c[0]), dec(c[1]))
    if t == 'ns':
        return NS(**dict((text(x['c'][0]['n']), dec(x['c'][1])) for x in c))
    if t == 'obj':
        return REGISTRY[text(n)]
    raise ValueError(t)


def walk(node):
    yield node
    for x in node['c']:
        if x['t'] != 'neg':
            for y in walk(x):
                yield y
