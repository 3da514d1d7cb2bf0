"""C29: histories of declaring field classes, of making, cloning and changing fields, and what each of them then is."""
import datetime
import json
import re
from copy import deepcopy

from build import CLASSES
from gen import Gen
from nodes import codes, enc, nd, s as snode, text

from scheme import fields as F
from scheme.exceptions import InvalidTypeError, StructuralError, ValidationError
from scheme.field import Field, FieldError, FieldMeta, INBOUND, OUTBOUND

HOLE = re.compile(r'%%|%\((\w+)\)s')
CTOR = {'field': dict(name=None, title=None, notes=None, nonnull=False, required=False, ignore_null=False, default=None,
                      description=None, constant=None),
        'boolean': {}, 'integer': dict(minimum=None, maximum=None), 'token': dict(segments=None),
        'text': dict(min_length=None, max_length=None, strip=True), 'email': dict(extended=False, multiple=False, strip=False)}
USED = ['field', 'boolean', 'integer', 'text', 'email', 'token']
NAMES = ['Color', 'Size', 'Unit', 'Amount', 'MyInteger', 'integer', 'TEXT', 'Email', 'Field', 'X', 'Größe', 'Boolean', 'color']
TOKENS = ['invalid', 'nonnull', 'pattern', 'wrong', 'too-much', 'minimum', 'overflow']
ATTRS = ['color', 'size', 'unit', 'x', '_y', 'flag']
INDEX = 'segments'


class Fail(object):
    """a value which makes the fields of this module fail with an error of theirs"""

    def __init__(self, token, kind, params):
        self.token, self.kind, self.params = token, kind, params

    def strip(self, *args):
        return self
    lower = strip


def validate(cls):
    def _validate_value(self, value, ancestry):
        if isinstance(value, Fail):
            raise value.kind(identity=ancestry, field=self, value=value).construct(value.token, **value.params)
        return super(cls[0], self)._validate_value(value, ancestry)
    return _validate_value


def segments(message):
    out, at = [], 0
    for m in HOLE.finditer(message):
        if m.start() > at:
            out.append(snode(message[at:m.start()]))
        out.append(snode('%') if m.group() == '%%' else nd('hole', codes(m.group(1))))
        at = m.end()
    if at < len(message):
        out.append(snode(message[at:]))
    return out


def error(e):
    return nd('ferr', [int(bool(e.show_field)), int(bool(e.show_value))], [snode(e.title), nd('list', (), segments(e.message))])


def kvs(d, fn=enc):
    return [nd('kv', (), [snode(k), fn(v)]) for k, v in d.items()]


def errors_of(x):
    if isinstance(x, dict):
        bad = [k for k, e in x.items() if not isinstance(e, FieldError) or e.token != k]
        return kvs(x, lambda e: error(e)) if not bad else [nd('kv', (), [snode('misplaced'), snode(str(bad[0]))])]
    return [nd('kv', (), [snode('not a mapping'), snode(type(x).__name__)])]


def make_init(cell, own):
    def __init__(self, **params):
        mine = dict((k, params.pop(k, d)) for k, d in own.items())
        super(cell[0], self).__init__(**params)
        for k, v in mine.items():
            setattr(self, k, v)
    return __init__


class World(object):
    def __init__(self, g, used):
        self.g, self.r = g, g.r
        self.real, self.cs, self.custom = [], [], []
        self.fields, self.steps, self.dicts = [], [], []
        self.n = 0
        self.seen, self.index = [], {}
        for name in used:
            self.known(CLASSES[name], name)
        self.facts = [dict(low=codes(x), cls=k + 1) for k, x in enumerate(used)]
        self.lows = list(used)
        self.builtins = len(used)

    def known(self, cls, name):
        self.real.append(cls)
        fields = [c for c in cls.__mro__ if c in self.real]
        self.cs.append(dict(
            name=codes(cls.__name__), plain=0, bases=[self.real.index(b) + 1 for b in cls.__bases__ if b in self.real],
            mro=[self.real.index(c) + 1 for c in fields], errs=errors_of(cls.errors), params=kvs(cls.parameters),
            ctor=kvs(CTOR.get(name, {})), fixed=[codes('strip')] if name == 'email' else [],
            attrs=kvs(dict(type=cls.type, structural=cls.structural)),
            single=errors_of(dict((e.token, e) for e in cls.single_errors)) if name == 'email' else [],
            multi=errors_of(dict((e.token, e) for e in cls.multiple_errors)) if name == 'email' else []))

    # -------------------------------------------------------- observation
    def once(self, x):
        """the number of what was seen"""
        k = json.dumps(x, sort_keys=True)
        if k not in self.index:
            self.seen.append(x)
            self.index[k] = len(self.seen)
        return self.index[k]

    def snap(self, op):
        classes = []
        for k, c in enumerate(self.real if op == 'last' or op == 'class' and len(self.steps) % 3 == 0 else []):
            plain = self.cs[k]['plain']
            classes.append(self.once(dict(errs=[] if plain else errors_of(c.errors), params=[] if plain else kvs(c.parameters),
                                type=[] if plain else codes(c.type))))
        types = []
        for low in sorted(set(self.lows)):
            c = Field.types.get(low)
            types.append(dict(low=codes(low), cls=([k + 1 for k, x in enumerate(self.real) if x is c] or [-1 if c else 0])[0]))
        fields = []
        for f in self.fields:
            reads = dict((a, getattr(f, a)) for a in ATTRS + self.probes)
            fields.append(self.once(dict(cls=([k + 1 for k, x in enumerate(self.real) if x is type(f)] or [-1])[0],
                               errs=errors_of(f.errors), reads=kvs(reads), desc=kvs(f.describe()))))
        return dict(classes=classes, types=types, fields=fields)

    probes = ['name', 'title', 'notes', 'nonnull', 'required', 'strip', 'multiple', 'minimum', 'type']

    def step(self, op, fn, **kw):
        st = dict(op=op, k=0, o=0, params=[], errs=[], asp=[], given=0, named=0, tok=[])
        st['as'] = []
        st['class'] = {}
        st['out'] = dict(r='ok')
        st.update(kw)
        try:
            got = fn()
        except Exception as e:
            got = None
            st['out'] = dict(r=type(e).__name__)
        if op in ('new', 'clone', 'build', 'rebuild') and st['out']['r'] == 'ok':
            self.fields.append(got)
        elif op in ('describe', 'fail') and st['out']['r'] == 'ok':
            st['out'] = dict(got, r='ok')
        st['snap'] = self.snap(op)
        self.steps.append(st)

    # ------------------------------------------------------------- making
    def error(self):
        g = self.g
        self.n += 1
        token = g.r.choice(TOKENS)
        bits = ['%(field)s', 'is bad', ' 100%% ', 'é', ': ', str(self.n)] + ['%(x)s'] * (token in ('wrong', 'too-much'))
        msg = ''.join(g.r.choice(bits) for _ in range(g.r.randint(1, 4)))
        e = FieldError(token, g.pick('error %d' % self.n, 'wrong', 'value %d' % self.n), 'm%d %s' % (self.n, msg))
        if g.chance(0.2):
            e = FieldError(e.token, e.title, e.message, g.chance(0.5), g.chance(0.5))
        return e

    def errs(self):
        """what is passed, and as entries"""
        g = self.g
        made = [self.error() for _ in range(g.pick(0, 1, 1, 2, 3))]
        flat = dict((e.token, e) for e in made)
        return (flat if g.chance(0.4) else g.pick(list, tuple)(made)), errors_of(flat)

    def value(self):
        g = self.g
        v = g.pick(1, 2, 3, True, False, 'red', 'green', None, 1.5, [1, 2], (1, 'a'), {'k': 1}, datetime.date(2020, 1, 2), [datetime.date(2020, 1, 2)])
        return deepcopy(v)

    def family(self, k):
        """the built-in class a class belongs to"""
        for m in self.cs[k]['mro']:
            if m - 1 < self.builtins and m != 1:
                return m - 1
        return 0

    def declare(self):
        g = self.g
        n = len(self.real)
        name = g.r.choice(NAMES) if g.chance(0.7) else 'Kind%d' % n
        known = [k for k in range(n) if not self.cs[k]['plain']]
        some = self.custom or known[:6]
        base = g.r.choice(some) if g.chance(0.6) else g.r.choice(known[:6])
        bases = [base]
        if g.chance(0.3):
            for _ in range(g.pick(1, 1, 2)):
                extra = g.r.choice([k for k in some + [0] if len(set([self.family(k), 0] + [self.family(b) for b in bases])) <= 2 and k not in bases] or [base])
                if extra not in bases:
                    bases.insert(g.r.randint(0, len(bases)), extra)
        plains = [k for k in range(n) if self.cs[k]['plain']]
        if plains and g.chance(0.3):
            bases.insert(0, g.r.choice(plains))
        declared = [self.error() for _ in range(g.pick(0, 0, 1, 1, 2, 3))]
        params = dict((a, g.pick(None, 1, 2, True, False)) for a in g.r.sample(ATTRS[:4] + ['flag', 'multiple'], g.pick(0, 0, 1, 2)))
        own = {}
        if g.chance(0.4):
            for a in g.r.sample(['color', 'size', 'flag'], g.pick(1, 1, 2)):
                own[a] = g.pick(None, None, 1, 5, False)
            if g.chance(0.7):
                params.update(own)
        attrs = {}
        if g.chance(0.2):
            attrs[g.pick('unit', 'x', 'size', 'color')] = g.pick(1, 2, 'red', 7)
        cell = []
        space = dict(attrs)
        if declared or g.chance(0.3):
            space['errors'] = g.pick(list, tuple)(declared)
        if params or g.chance(0.3):
            space['parameters'] = dict(params)
        if own:
            space['__init__'] = make_init(cell, own)
        space['_validate_value'] = validate(cell)
        try:
            mro = self.order(bases)
        except TypeError:
            return
        c = dict(name=codes(name), plain=0, bases=[b + 1 for b in bases], mro=[n + 1] + [b + 1 for b in mro],
                 errs=errors_of(dict((e.token, e) for e in declared)), params=kvs(params), ctor=kvs(own), fixed=[],
                 attrs=kvs(dict(attrs, type=name.lower())), single=[], multi=[])

        def fn():
            cls = FieldMeta(name, tuple(self.real[b] for b in bases), space)
            cell.append(cls)
            self.real.append(cls)
        self.cs.append(c)
        self.lows.append(name.lower())
        self.custom.append(n)
        self.step('class', fn, **{'class': c})

    def order(self, bases):
        """the linearisation of classes with these bases, from classes shaped alike"""
        alike = {}

        def of(k):
            if k not in alike:
                alike[k] = type('A', tuple(of(b - 1) for b in self.cs[k]['bases']) or (object,), {})
            return alike[k]
        t = type('A', tuple(of(b) for b in bases), {})
        back = dict((v, k) for k, v in alike.items())
        return [back[c] for c in t.__mro__ if c in back]

    def plain(self):
        n = len(self.real)
        attrs = dict([(self.g.pick('unit', 'x', 'size'), self.g.pick(4, 'blue'))]) if self.g.chance(0.6) else {}
        c = dict(name=codes('Mixin%d' % n), plain=1, bases=[], mro=[n + 1], errs=[], params=[], ctor=[], fixed=[], attrs=kvs(attrs), single=[], multi=[])
        self.cs.append(c)
        self.step('class', lambda: self.real.append(type('Mixin%d' % n, (object,), attrs)), **{'class': c})

    def params(self, k):
        g = self.g
        out = dict((a, self.value()) for a in g.r.sample(ATTRS, g.pick(0, 1, 1, 2, 3)))
        if g.chance(0.5):
            out['name'] = g.pick('f', 'g', 'naïve name')
        if g.chance(0.2):
            out[g.pick('title', 'notes')] = 'text'
        if g.chance(0.3):
            out['nonnull'] = True
        fam = USED[self.family(k)] if self.family(k) < 6 else ''
        if fam == 'integer' and g.chance(0.4):
            out['minimum'] = g.pick(1, 2, 3)
        if fam in ('text', 'email') and g.chance(0.3):
            out['strip'] = g.chance(0.5)
        if fam == 'email' and g.chance(0.4):
            out['multiple'] = True
        return out

    def new(self):
        g = self.g
        k = g.r.choice([k for k in self.custom + list(range(6))])
        params = self.params(k)
        kw = dict(params)
        given, errs = self.errs() if g.chance(0.5) else (None, [])
        if given is not None:
            kw['errors'] = given
        asp = {}
        if g.chance(0.35):
            if self.dicts and g.chance(0.5):
                asp = g.r.choice(self.dicts)
            else:
                asp = dict((a, self.value()) for a in g.r.sample(ATTRS, g.pick(0, 1, 2)))
                self.dicts.append(asp)
            kw['aspects'] = asp
        self.step('new', lambda: self.real[k](**kw), k=k + 1, params=kvs(params), errs=errs, asp=kvs(asp))

    def clone(self, o):
        g = self.g
        params, kw, errs, given = {}, {}, [], 0
        f = self.fields[o]
        if g.chance(0.6):
            params = self.params(self.real.index(type(f)))
            params.pop('multiple', None)
            kw = dict(params)
            if g.chance(0.4):
                kw['errors'], errs = self.errs()
                given = 1
        if not kw and g.chance(0.5):
            fn = lambda: deepcopy(f)
        else:
            fn = lambda: f.clone(**kw)
        self.step('clone', fn, o=o + 1, params=kvs(params), errs=errs, given=given)

    def change(self, o):
        g = self.g
        a, v = g.r.choice(ATTRS), self.value()
        f = self.fields[o]
        what = g.pick('set', 'set', 'aspect', 'touch')
        if what == 'set':
            if g.chance(0.15):
                a, v = 'name', g.pick('h', None)
            self.step('set', lambda: setattr(f, a, v), o=o + 1, params=kvs({a: v}))
        elif what == 'aspect':
            def fn():
                f.aspects[a] = v
            self.step('aspect', fn, o=o + 1, params=kvs({a: v}))
        elif self.dicts:
            d = g.r.choice(self.dicts)
            self.step('touch', lambda: d.update({a: v}))

    def wrapped(self, o, how):
        f = self.fields[o]
        if how == 'structure':
            return F.Structure({'k': f}), lambda v: {'k': v}, lambda w: w.structure['k']
        if how == 'sequence':
            return F.Sequence(f), lambda v: [v], lambda w: w.item
        if how == 'tuple':
            return F.Tuple((f,)), lambda v: (v,), lambda w: w.values[0]
        if how == 'map':
            return F.Map(f), lambda v: {'k': v}, lambda w: w.value
        return f, lambda v: v, lambda w: w

    def wrap(self, o, how):
        box = []
        self.step('wrap', lambda: box.append(self.wrapped(o, how)), o=o + 1, named=int(how == 'structure'), **{'as': codes('k')})
        return box[0] if box else None

    def rebuild(self, o):
        g = self.g
        w = self.wrap(o, g.pick('direct', 'direct', 'structure', 'sequence', 'tuple', 'map'))
        if w is None:
            return
        cls = g.r.choice([Field] + [self.real[k] for k in self.custom if k < len(self.real)])
        self.step('rebuild', lambda: w[2](cls.reconstruct(w[0].describe())), o=o + 1)

    def by_name(self):
        g = self.g
        low = g.r.choice(self.lows + ['color', 'nothing', 'Integer', 'Color'])
        params = dict((a, self.value()) for a in g.r.sample(ATTRS, g.pick(0, 1, 2)))
        if g.chance(0.3):
            params['name'] = 'built'
        d = dict(params, fieldtype=low)
        if low in self.lows[6:self.builtins]:
            return
        if g.chance(0.1):
            d = params
            self.step('build', lambda: Field.reconstruct(dict(params)), params=kvs(d))
        elif g.chance(0.5):
            self.step('build', lambda: Field.reconstruct(low, **params), params=kvs(d))
        else:
            self.step('build', lambda: Field.reconstruct(dict(d) if g.chance(0.7) else list(d.items())), params=kvs(d))

    def describe(self, o):
        g = self.g
        f = self.fields[o]
        extra = dict((a, None) for a in g.r.sample(ATTRS + ['nowhere'], g.pick(0, 1, 2)))
        params = dict((a, g.pick(1, 'z', [1])) for a in g.r.sample(ATTRS, g.pick(0, 0, 1)))
        verbose = g.chance(0.5)
        self.step('describe', lambda: dict(v=kvs(f.describe(extra, verbose, **params))), o=o + 1, asp=kvs(extra), params=kvs(params), given=int(verbose))

    def fail(self, o):
        g = self.g
        f = self.fields[o]
        k = self.real.index(type(f))
        w = self.wrap(o, g.pick('direct', 'direct', 'structure', 'sequence', 'tuple', 'map'))
        if w is None:
            return
        kinds = []
        if k in self.custom and not f.multiple:
            kinds += ['custom'] * 3
        if f.nonnull:
            kinds.append('null')
        if self.family(k):
            kinds.append('bad')
        if not kinds:
            return
        kind = g.r.choice(kinds)
        tok, params, value = 'invalid', {}, object()
        if kind == 'null':
            tok, value = 'nonnull', None
        elif kind == 'custom':
            tok = g.r.choice([t for t, e in sorted(f.errors.items()) if e.message.startswith('m') or e.token in ('invalid', 'nonnull')])
            params = dict(x=g.pick('thing', '7', '%'))
            if g.chance(0.15):
                params['field'] = 'another'
            value = Fail(tok, g.pick(ValidationError, InvalidTypeError), params)

        def fn():
            try:
                w[0].process(w[1](value), g.pick(INBOUND, OUTBOUND))
            except StructuralError as e:
                inner = e
                while inner.structure is not None:
                    st = inner.structure
                    inner = [x for x in (st.values() if isinstance(st, dict) else st) if isinstance(x, StructuralError)][0]
                ser = e.serialize()
                flat = ser[0] if ser[1] is None else None
                if flat is None:
                    flat = ser[1]['k'] if isinstance(ser[1], dict) else ser[1][0]
                lines = str(e).split('\n')
                head = [x[5:] for x in lines if x.startswith('[01] ')][0]
                d = flat[0]
                return dict(tok=codes(d['token']), title=codes(d['title']), msg=codes(d['message']), path=codes(''.join(inner.identity)),
                            head=codes(head), field=int(any(x.startswith('     Field: ') for x in lines)),
                            value=int(any(x.startswith('     Value: ') for x in lines)))
            return dict(r='accepted')
        self.step('fail', fn, o=o + 1, tok=codes(tok), params=kvs(params), given=int(kind != 'null'))


def c29(key, i, tier, rec):
    g = Gen(key)
    before = dict(Field.types)
    try:
        used = list(USED)
        if i % 40 == 0:
            used += [x for x in CLASSES if x not in used]
        w = World(g, used)
        base = list(w.cs)
        if g.chance(0.3):
            w.plain()
        for _ in range(g.pick(1, 2, 2, 3)):
            w.declare()
        w.new()
        for _ in range(g.r.randint(2, 9) if len(used) == 6 else 3):
            o = g.r.randrange(len(w.fields)) if w.fields else 0
            what = g.pick('declare', 'new', 'new', 'clone', 'clone', 'change', 'rebuild', 'by_name', 'describe', 'fail', 'fail', 'fail')
            if len(w.real) != len(w.cs) or not w.fields:
                break
            if what in ('clone', 'change', 'rebuild', 'describe', 'fail'):
                getattr(w, what)(o)
            else:
                getattr(w, what)()
        w.step('last', lambda: None)
        rec('registry', cs=base, ts=w.facts, seen=w.seen, steps=w.steps)
    finally:
        Field.types.clear()
        Field.types.update(before)


CASES = {'C29': c29}
