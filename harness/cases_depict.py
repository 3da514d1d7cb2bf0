"""C39: the texts of fields, objects and surrogates themselves."""
import json
import sys
import types
from collections import OrderedDict
from datetime import date, datetime, time
from decimal import Decimal
from uuid import UUID

from build import Builder
from gen import Gen
from nodes import codes, enc, nd
from shape import spec_of

import scheme
from scheme.element import Element
from scheme.surrogate import surrogate

TEXTS = ['x', 'a title', '', "it's", '"', 'é', 'a\nb', 'back\\slash', '0', "'\"", '%s', ', ', '()']
VALUES = [None, 0, 1, False, True, '', 'v', 1.5, Decimal('0.10'), date(2020, 1, 2), time(1, 2), datetime(2020, 1, 2, 3), b'b', UUID(int=7),
          [], [1, 'a'], {}, {'k': [None]}, (), (1,), ('a', 2), {1: 'x'}, 12345678901234567890, -3, float('inf')]


class Unfit(Exception):
    """something whose text is not Python's own affair of plain values"""


def literals(v, out):
    """the texts of the scalars inside a value"""
    if type(v) is dict:
        for k, x in v.items():
            literals(k, out), literals(x, out)
    elif type(v) in (list, tuple):
        for x in v:
            literals(x, out)
    elif type(v) is str:
        if not all(c.isprintable() or c < ' ' or c == '\x7f' for c in v):
            raise Unfit
    elif v is None or type(v) in (bool, int):
        pass
    elif type(v) in (float, bytes, Decimal, date, time, datetime, UUID):
        if v != v:
            raise Unfit
        row = [enc(v), codes(repr(v))]
        if row not in out:
            out.append(row)
    else:
        raise Unfit
    return out


def inside(f, out, seen):
    if any(f is x for x in seen):
        return out
    seen.append(f)
    for k in ('name', 'default', 'title'):
        literals(getattr(f, k), out)
    if f.type in ('integer', 'float', 'decimal', 'time'):
        literals(f.minimum, out), literals(f.maximum, out)
    if f.type == 'enumeration':
        literals(list(f.enumeration), out)
    if f.type == 'map':
        keys = literals(list(f.required_keys or ()), out)
        if len(set(map(type, f.required_keys or ()))) > 1 or any(type(k) not in (str, int) for k in f.required_keys or ()):
            raise Unfit
        kids = [f.value] + ([f.key] if f.key else [])
    elif f.type == 'sequence':
        kids = [f.item]
    elif f.type in ('tuple', 'union'):
        kids = list(f.values if f.type == 'tuple' else f.fields)
    elif f.type == 'structure':
        kids = []
        parts = [f.structure]
        if f.polymorphic_on:
            literals(list(f.structure), out)
            literals(f.polymorphic_on.name, out)
            parts = list(f.structure.values())
        for part in parts:
            literals(list(part), out)
            kids += list(part.values())
    else:
        kids = []
    for x in kids:
        inside(x, out, seen)
    return out


def depict(rec, what, fn, shape=None, reps=(), cls='', attrs=(), v=None, before=None):
    r, out = 'ok', []
    try:
        out = codes(fn())
    except Exception as e:
        r = type(e).__name__
    rec('depict', what=what, shape=shape or {}, reps=list(reps), cls=codes(cls), attrs=list(attrs), v=enc(v), r=r, out=out,
        mut=[] if before is None or before() else ['changed'])


def field(rec, f):
    try:
        reps = inside(f, [], [])
        shape = spec_of(f)
    except Unfit:
        return
    if '"undefined"' in json.dumps(shape):
        return
    depict(rec, 'field', lambda: repr(f), shape, reps, before=lambda: spec_of(f) == shape)


def direct(g):
    """the kinds of field no value is made for here"""
    kw = {}
    if g.chance(0.4):
        kw['name'] = g.pick('one', 'two words', 'é')
    for k in ('nonnull', 'required', 'ignore_null', 'nonempty'):
        if g.chance(0.25):
            kw[k] = g.pick(True, True, False)
    for k, p in (('title', 0.3), ('description', 0.2), ('notes', 0.1)):
        if g.chance(p):
            kw[k] = g.r.choice(TEXTS)
    if g.chance(0.3):
        kw['default'] = g.r.choice(VALUES)
    if g.chance(0.25):
        kw['constant'] = g.r.choice(VALUES)
    kind = g.pick('surrogate', 'definition', 'error', 'object', 'field', 'text', 'integer')
    if kind == 'surrogate':
        return scheme.Surrogate(g.pick(None, 'b a', ['x', 'y.z', 'a'], ('only',), []), **kw)
    if kind == 'definition':
        return scheme.Definition(g.pick(None, 'text integer', ['text']), **kw)
    if kind == 'text':
        return scheme.Text(min_length=g.pick(None, 0, 2), max_length=g.pick(None, 0, 12), strip=g.pick(True, False), **kw)
    if kind == 'integer':
        return scheme.Integer(minimum=g.pick(None, 0, -1), maximum=g.pick(None, 0, 99999), **kw)
    return {'error': scheme.Error, 'object': scheme.Object, 'field': scheme.Field}[kind](**kw)


def around(g, f):
    kind = g.pick('sequence', 'map', 'tuple', 'union', 'structure')
    if kind == 'sequence':
        return scheme.Sequence(f, min_length=g.pick(None, 0, 1), max_length=g.pick(None, 0, 9), unique=g.chance(0.3))
    if kind == 'map':
        return scheme.Map(f, key=g.pick(None, None, scheme.Integer(), scheme.Enumeration(['a', 'b'])),
                          required_keys=g.pick(None, None, [], ['b', 'a', 'B'], 'x y a', (10, 9, -1)))
    if kind == 'structure':
        return scheme.Structure({'a': f, 'b': scheme.Integer()}, strict=g.chance(0.7), key_order=g.pick(None, 'b a', ['a'], []))
    return scheme.Tuple((f,) if g.chance(0.5) else (f, scheme.Text())) if kind == 'tuple' else scheme.Union((f,) if g.chance(0.5) else (f, scheme.Text()))


def loop(g, f):
    """puts f inside itself"""
    kind = f.type
    if kind == 'sequence':
        f.item = g.pick(f, scheme.Map(f))
    elif kind == 'map':
        f.value = g.pick(f, scheme.Tuple((f, f)))
    elif kind == 'tuple':
        f.values = f.values + (g.pick(f, scheme.Union((scheme.Integer(), f))),)
    elif kind == 'union':
        f.fields = f.fields + (scheme.Structure({'x': f}),)
    elif kind == 'structure' and not f.polymorphic_on:
        f.structure['loop'] = g.pick(f, scheme.Sequence(f))


def things(g, rec):
    class Thing(Element):
        schema = scheme.Structure({'id': scheme.Field(), 'name': scheme.Field(), 'title': scheme.Field(), 'other': scheme.Field()}, name='thing')

    class Part(Element):
        schema = scheme.Structure({'title': scheme.Text(default='none'), 'size': scheme.Integer()}, name='part')

    for _ in range(2):
        cls = g.pick(Thing, Thing, Part)
        given = dict((k, g.r.choice(VALUES)) for k in ('id', 'name', 'title', 'other') if g.chance(0.6))
        if cls is Part:
            given = dict((k, v) for k, v in given.items() if k == 'title')
        x = cls(**given)
        if g.chance(0.2):
            x.name = g.r.choice(TEXTS)
        attrs = [(k, x.__dict__.get(k)) for k in ('id', 'name', 'title') if k in x.__dict__]
        reps = literals([v for k, v in attrs], [])
        before = dict(x.__dict__)
        depict(rec, 'element', lambda: repr(x), reps=reps, cls=cls.__name__, attrs=[[codes(k), enc(v)] for k, v in attrs],
               before=lambda: x.__dict__ == before)
    v = dict((k, g.r.choice(VALUES)) for k in g.r.sample(['a', 'b', 'two words', "it's", '_'], g.r.randint(0, 3)))
    s = surrogate(v)
    depict(rec, 'surrogate', lambda: repr(s), reps=literals(v, []), cls='scheme.surrogate.surrogate', v=v, before=lambda: dict(s) == v)


def c39(key, i, tier, rec):
    g = Gen(key, inst=0, pre=0.05, nan=False, default=0.2, constant=0.1, nonnull=0.3, texts=0.3)
    if i % 8 == 7:
        return things(g, rec)
    if i % 8 in (3, 5):
        f = direct(g)
        field(rec, f)
        for _ in range(g.pick(0, 1, 2)):
            f = around(g, f)
            field(rec, f)
        if g.chance(0.25):
            loop(g, f)
            field(rec, f)
        return
    spec = g.spec(g.pick(0, 1, 1, 2, 2, 3))
    spec['required'] = int(spec['required'] or g.chance(0.3))
    try:
        f = Builder().build(spec)
    except Exception:
        return
    field(rec, f)
    if g.chance(0.25):
        field(rec, f.clone(name=g.pick('copy', None), required=g.chance(0.5)))
    if f.type == 'enumeration' and g.chance(0.5):
        f.redefine(g.pick(['new'], 'p q'), g.pick('append', 'replace'))
        field(rec, f)
    if g.chance(0.15):
        loop(g, f)
        field(rec, f)


CASES = {'C39': c39}
