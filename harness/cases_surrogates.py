"""C26: histories of surrogates and of the versions of their schemas."""
import copy
import json
import sys
import types

from build import Builder
import cases_fields
from cases_fields import PHASE
from cases_ops import Interp, clean, equivalent, has, valid_defaults
from facts import Facts
from gen import Gen, SCALARS, STRUCTURAL
from nodes import NS, codes, dec, enc, nd, text, walk
from project import NOERR, outcome
from shape import spec_of

from scheme.surrogate import surrogate

PLAIN = 'scheme.surrogate.surrogate'


def flat(x):
    """a shape in an order of its own"""
    if isinstance(x, dict):
        return dict((k, sorted(map(flat, v), key=repr) if k in ('asp', 'enum') else flat(v)) for k, v in x.items() if k != 'pre')
    if isinstance(x, list):
        return [flat(y) for y in x]
    return x


def foreign(n):
    return n['t'] == 'other' or any(foreign(x) for x in n['c'])


def tidy(f):
    """no defaults holding surrogates"""
    if isinstance(f, dict):
        if f.get('default') and foreign(f['default'][0]):
            f['default'] = []
        if f.get('constant') and (f['ty'] == 'surrogate' or foreign(f['constant'][0])):
            f['constant'] = []
        for k, v in f.items():
            if k not in ('default', 'constant', 'enum', 'prev', 'ign'):
                tidy(v)
    elif isinstance(f, list):
        for v in f:
            tidy(v)
    return f


class SGen(Gen):
    def spec(self, depth=2, types=None):
        return tidy(super(SGen, self).spec(depth, types))

    def spec_surrogate(self):
        f = self.base('surrogate')
        ids = [text(c['id']) for c in self.world.impls]
        f['valid'] = []
        if self.chance(0.3):
            f['valid'] = [[codes(x) for x in self.r.sample(ids, self.r.randint(1, len(ids)))]]
        return f

    def native(self, f):
        if f['ty'] == 'surrogate':
            return self.world.some()
        if f['ty'] == 'field' and self.chance(0.2):
            return self.world.some()
        return super(SGen, self).native(f)

    def serialized(self, f):
        if f['ty'] == 'surrogate':
            s = self.world.some()
            if self.chance(0.1):
                return s
            return self.world.mess(self.world.wire(s))
        return super(SGen, self).serialized(f)


class World(object):
    def __init__(self, g, tag):
        self.g, self.r = g, g.r
        g.world = self
        self.module = types.ModuleType(tag)
        self.impls = [dict(id=codes(PLAIN), schemas=[], stamp=[])]
        self.classes = [surrogate]
        self.dyn, self.fields, self.shapes = [], [], []
        self.objects, self.steps, self.texts = [], [], []

    # ---------------------------------------------------------- projection
    def special(self, v):
        if isinstance(v, surrogate):
            k = [i for i, c in enumerate(self.classes) if type(v) is c]
            d = 0
            if v.schema is not None:
                s = flat(spec_of(v.schema))
                d = ([i + 1 for i, x in enumerate(self.shapes) if x == s] or [-1])[0]
            return nd('surr', [k[0] + 1 if k else 0, v.version or 0, d], enc(dict(v), self.special)['c'])
        return None

    def enc(self, v):
        return enc(v, self.special)

    def clone(self, v):
        if isinstance(v, surrogate):
            return type(v)(dict((k, self.clone(x)) for k, x in v.items()), v.schema, v.version)
        if type(v) in (list, tuple):
            return type(v)([self.clone(x) for x in v])
        if isinstance(v, dict):
            return type(v)([(k, self.clone(x)) for k, x in v.items()])
        return copy.deepcopy(v)

    def step(self, op, out=None, k=0, o=1, v=None, dyn=0, ver=0, par=None, f=None, ph='in', ser=1, key=None, mut=()):
        self.steps.append(dict(op=op, k=k + 1, o=o, v=v if v is not None else [], dyn=dyn, ver=ver,
                               par=par if par is not None else enc({}), f=f or {}, ph=ph, ser=ser, key=enc(key),
                               out=out or dict(ok(), v=enc(None)), mut=list(mut),
                               all=[self.enc(x) for x in self.objects]))

    # --------------------------------------------------------- the world
    def schema(self):
        g = self.g
        g.p['poly'] = 0.15
        f = g.spec(g.pick(1, 1, 2), types=['structure'] * 9 + ['map'])
        if f['ty'] == 'map':
            f['key'] = []
        f['nonnull'] = 0
        return tidy(f)

    def declare(self):
        g = self.g
        name = 'Surr%d' % len(self.impls)
        space = dict(__module__=self.module.__name__, schemas=None)
        c = dict(schemas=[], stamp=[])
        if g.chance(0.75):
            c['schemas'] = [self.schema() for _ in range(g.pick(1, 1, 2, 3))]
            space['schemas'] = [Builder().build(f) for f in c['schemas']]
            if g.chance(0.3):
                space['schemas'] = tuple(space['schemas'])
        if g.chance(0.25):
            key, x = g.pick('a', 'b', 'stamp'), g.pick(1, 'x', None)
            c['stamp'] = [codes(key), enc(x)]
            space['contribute'] = classmethod(lambda cls, value, version: value.__setitem__(key, x))
        base = g.r.choice(self.classes)
        if base is not surrogate and not space.get('contribute'):
            c['stamp'] = self.impls[self.classes.index(base)]['stamp']
        cls = type(surrogate)(name, (base,), space)
        if g.chance(0.2):       # inside another class
            holder = type('Holder', (object,), {})
            space['__qualname__'] = 'Holder%d.%s' % (len(self.impls), name)
            cls = type(surrogate)(name, (base,), space)
            setattr(holder, name, cls)
            setattr(self.module, 'Holder%d' % len(self.impls), holder)
            c['id'] = codes('%s.Holder%d.%s' % (self.module.__name__, len(self.impls), name))
        else:
            setattr(self.module, name, cls)
            c['id'] = codes('%s.%s' % (self.module.__name__, name))
        self.impls.append(c)
        self.classes.append(cls)

    def dynamic(self):
        f = self.schema()
        valid_defaults(self.g, f)
        tidy(f)
        if not equivalent(f):
            return
        fld = Builder().build(f)
        shape = flat(spec_of(fld))
        if shape in self.shapes or any("'%s':" % k in repr(fld.describe()) for k in ('representation', 'timezone')):
            return          # attributes which clones leak into their descriptions
        self.dyn.append(dict(f=f, desc=enc(fld.describe())))
        self.fields.append(fld)
        self.shapes.append(shape)

    # ------------------------------------------------------------- values
    def some(self):
        """a surrogate, of its own"""
        g = self.g
        if self.objects and g.chance(0.8):
            return self.clone(g.r.choice(self.objects))
        plain = [c for c, m in zip(self.classes, self.impls) if not m['schemas']]
        return g.r.choice(plain)({'id': g.pick(1, 'x', [1, 'a'], None)})

    def wire(self, s):
        try:
            return self.clone(s.serialize())
        except Exception:
            return dict(self.clone(s), _=s.surrogate)

    def mess(self, v, p=0.25):
        g = self.g
        if not isinstance(v, dict) or not g.chance(p):
            return v
        what = g.pick('_', '_', 'version', 'version', 'schema', 'drop', 'extra')
        if what == '_':
            v['_'] = g.pick(None, 'nowhere.at.all', 3, text(g.r.choice(self.impls)['id']), PLAIN)
            if g.chance(0.2):
                del v['_']
        elif what == 'version':
            v['__version__'] = g.pick(0, 1, 2, 3, 4, -1, None, '1', 'x')
            if g.chance(0.2):
                del v['__version__']
        elif what == 'schema':
            v['__schema__'] = g.pick({}, None, 'x', {'fieldtype': 'nosuch'}, 0)
            if self.dyn and g.chance(0.5):
                v['__schema__'] = copy.deepcopy(dec(g.r.choice(self.dyn)['desc']))
        elif what == 'drop' and v:
            del v[g.r.choice(sorted(v, key=repr))]
        else:
            v[g.pick('zz', 'a', 'b')] = g.pick(1, None, 'x')
        return v

    def schema_of(self, s):
        k = self.classes.index(type(s))
        if s.schema is not None:
            return [x['f'] for x, fl in zip(self.dyn, self.shapes) if fl == flat(spec_of(s.schema))][0]
        if self.impls[k]['schemas']:
            return self.impls[k]['schemas'][s.version - 1]
        return None

    def value(self, f):
        g = self.g
        if f is None:
            return g.pick({}, {'id': 1}, {'a': [1, {'k': 2}], 'b': None}, dict(g.hostile_map()) if hasattr(g, 'hostile_map') else {'x': 'y'})
        v = g.candidate(f, False, g.pick(0, 0, 0, 0.1))
        return v

    # -------------------------------------------------------------- actions
    def pick(self):
        g = self.g
        return g.r.randint(0 if g.chance(0.25) else min(1, len(self.impls) - 1), len(self.impls) - 1)

    def construct(self):
        g, k = self.g, self.pick()
        impl, cls = self.impls[k], self.classes[k]
        n = len(impl['schemas'])
        dyn = g.r.randint(1, len(self.dyn)) if self.dyn and g.chance(0.5 if not n else 0.06) else 0
        ver = g.r.randint(1, n) if n and g.chance(0.5) else 0
        if n and g.chance(0.08):
            ver = g.pick(-1, n + 1, n + 2)
        at = (ver if 1 <= ver <= n else n) if n else 0
        f = self.dyn[dyn - 1]['f'] if dyn else impl['schemas'][at - 1] if n else None
        v = self.value(f)
        if isinstance(v, dict) and g.chance(0.2) and all(isinstance(x, str) and x.isidentifier() for x in v):
            v = NS(**v)
        par = {}
        if g.chance(0.2):
            par = {g.pick('a', 'b', 'c', 'extra'): g.pick(1, 'x', None, [1])}
        if g.chance(0.08):
            v = None
        kw = {}
        if dyn:
            kw['schema'] = self.fields[dyn - 1]
        if ver:
            kw['version'] = ver
        kw.update(par)
        shown = [] if v is None else [self.enc(v)]
        shownp = self.enc(par)
        form = g.pick('class', 'impl', 'name')
        if form == 'class':
            call = lambda: cls.construct(value=v, **kw)
        elif form == 'impl':
            call = lambda: g.r.choice(self.classes).construct(cls, v, **kw)
        else:
            call = lambda: surrogate.construct(text(impl['id']), v, **kw)
        out, res = outcome(call, self.special)
        if out['r'] == 'ok' and isinstance(res, surrogate):
            self.objects.append(res)
        self.step('construct', out, k=k, v=shown, dyn=dyn, ver=ver, par=shownp,
                  mut=[] if v is None or self.enc(v) == shown[0] else ['value'])

    def acquire(self):
        g, k = self.g, self.pick()
        impl, cls = self.impls[k], self.classes[k]
        n = len(impl['schemas'])
        ver = g.r.randint(1, n) if n and g.chance(0.5) else 0
        if n and g.chance(0.08):
            ver = n + 1
        at = (ver if 1 <= ver <= n else n) if n else 0
        v = self.some() if g.chance(0.2) else self.value(impl['schemas'][at - 1] if n else None)
        if v is None:
            return
        shown = [self.enc(v)]
        asked = []
        cls._acquire_surrogate = classmethod(lambda c, version, **params: asked.append((version, params)) or v)
        try:
            kw = dict(version=ver) if ver else {}
            par = g.pick({}, {'p': 1})
            if g.chance(0.5):
                call = lambda: surrogate.acquire(text(impl['id']), **dict(kw, **par))
            else:
                call = lambda: surrogate.acquire(cls, **dict(kw, **par))
            out, res = outcome(call, self.special)
        finally:
            del cls._acquire_surrogate
        if asked and asked != [(ver or n, par)]:
            out['r'], out['x'] = 'exc', 'acquire asked for %r' % asked
        if out['r'] == 'ok' and not isinstance(v, surrogate) and isinstance(res, surrogate):
            self.objects.append(res)
        self.step('acquire', out, k=k, v=shown, ver=ver)

    def serialize(self):
        o = self.g.r.randint(1, len(self.objects))
        out, res = outcome(self.objects[o - 1].serialize, self.special)
        self.step('serialize', out, o=o)
        if out['r'] == 'ok' and self.g.chance(0.7):
            self.back(self.clone(res))

    def back(self, v):
        g = self.g
        if g.chance(0.25):
            v = self.mess(v, 0.8)
        shown = self.enc(v)
        impl = g.r.choice(self.classes)         # which class reads it makes no difference
        out, res = outcome(lambda: impl.unserialize(v), self.special)
        if out['r'] == 'ok':
            self.objects.append(res)
        self.step('unserialize', out, v=[shown], mut=[] if self.enc(v) == shown else ['value'])

    def process(self):
        g = self.g
        g.p['poly'] = 0.1
        f = g.spec_surrogate() if g.chance(0.5) else tidy(g.spec(1))
        ser, ph = g.pick(0, 1, 1), g.pick('in', 'in', 'out')
        v = g.candidate(f, ser and ph == 'in', g.pick(0, 0, 0.1))
        shown = self.enc(v)
        fld = Builder().build(f)
        out, res = outcome(lambda: fld.process(v, PHASE[ph], bool(ser)), self.special)
        mut = [] if self.enc(v) == shown else ['value']
        if ph == 'in' and ser and isinstance(res, surrogate) and out['r'] == 'ok' and not isinstance(v, surrogate):
            self.objects.append(self.clone(res))
        self.step('process', out, v=[shown], f=f, ph=ph, ser=ser, mut=mut)

    def interpolate(self):
        g = self.g
        it = Interp(g)
        s = self.some()
        f = self.schema_of(s)
        if f is None and g.chance(0.8):
            return
        v = it.value(f) if f else {'id': 1}
        if not isinstance(v, dict) or isinstance(v, surrogate):
            return
        v = dict(v)
        v['_'] = s.surrogate
        if s.schema is not None:
            v['__schema__'] = s.schema.describe()
        elif s.version and g.chance(0.6):
            v['__version__'] = s.version
        v = self.mess(v, 0.15)
        field = tidy(g.spec_surrogate())
        if has(field, lambda x: 0):
            return
        v = it.ref(v) if g.chance(0.15) else v
        if g.chance(0.1):
            v = it.ref(s) if g.chance(0.6) else g.pick(s, 'x', 3, None, [1])
        if not clean(plain(v)) or not clean(plain(it.params)):
            return
        shown, par = self.enc(v), self.enc(it.params)
        self.say(it.params)
        if isinstance(v, dict) and not isinstance(v, surrogate) and g.chance(0.4):
            out, res = outcome(lambda: g.r.choice(self.classes).interpolate(v, it.params), self.special)
            op = 'interpolate0'
        else:
            fld = Builder().build(field)
            out, res = outcome(lambda: fld.interpolate(v, it.params), self.special)
            op = 'interpolate'
        mut = [] if self.enc(v) == shown and self.enc(it.params) == par else ['value or parameters']
        if out['r'] == 'ok' and isinstance(res, surrogate) and isinstance(v, dict) and not isinstance(v, surrogate):
            self.objects.append(self.clone(res))
        self.step(op, out, v=[shown], par=par, f=field, mut=mut)

    def say(self, x):
        """how surrogates, and what holds them, look as text"""
        if isinstance(x, (dict, list, tuple)):
            n = self.enc(x)
            if any(y['t'] == 'surr' for y in walk(n)):
                self.texts.append((n, str(x)))
            for y in x.values() if isinstance(x, dict) else x:
                self.say(y)

    def put(self):
        g = self.g
        o = g.r.randint(1, len(self.objects))
        s = self.objects[o - 1]
        f = self.schema_of(s)
        k = g.r.choice(sorted(s, key=repr)) if s and g.chance(0.7) else g.pick('a', 'b', 'put')
        x = g.pick(1, 'x', None, [1])
        if f and f['ty'] == 'structure' and g.chance(0.7):
            ms = dict((text(m['k']), m['f']) for m in f['struct'] + f['common'])
            if k in ms:
                x = g.candidate(ms[k], False, 0)
        shown = self.enc(x)
        s[k] = x
        self.step('put', o=o, v=[shown], key=k)

    def grow(self):
        ks = [k for k in range(1, len(self.impls)) if self.impls[k]['schemas']]
        if not ks:
            return
        k, f = self.g.r.choice(ks), self.schema()
        cls = self.classes[k]
        if isinstance(cls.schemas, list):
            cls.schemas.append(Builder().build(f))
        else:
            cls.schemas = cls.schemas + (Builder().build(f),)
        self.impls[k]['schemas'] = self.impls[k]['schemas'] + [f]
        self.step('grow', k=k, f=f)


def plain(v):
    if isinstance(v, dict):
        return dict((k, plain(x)) for k, x in v.items())
    if type(v) in (list, tuple):
        return [plain(x) for x in v]
    return v


def ok():
    return dict(r='ok', e=NOERR, s=dict(toks=[], sk='none', sub=[]), rep=[], x='')


def c26(key, i, tier, rec):
    g = SGen(key, pre=0, nan=False, default=0.2, constant=0.04, nonnull=0.15, oddkeys=0, inst=0)
    g.p['scalars'] = SCALARS + ['surrogate', 'surrogate', 'surrogate']
    w = World(g, 'verifsurr%d' % i)
    sys.modules[w.module.__name__] = w.module
    try:
        for _ in range(g.pick(1, 2, 3)):
            w.declare()
        for _ in range(g.pick(0, 1, 2)):
            w.dynamic()
        first = copy.deepcopy(w.impls)
        acts = ['construct'] * 4 + ['serialize'] * 4 + ['process'] * 3 + ['interpolate'] * 2 + ['put', 'put', 'grow', 'acquire']
        for _ in range(g.r.randint(5, 13)):
            what = g.r.choice(acts)
            if what in ('serialize', 'put') and not w.objects:
                what = 'construct'
            getattr(w, what)()
        fx = Facts(cases_fields.TZ).collect(first, w.dyn, w.steps)
        for s in w.steps:
            if s['op'].startswith('interpolate'):
                fx.texts(s['par'])
        for x, t in w.texts:
            fx.add('pstr', x, [enc(t)])
        rec('surrogates', steps=w.steps, cx=dict(fx.cx(), impls=first, dyn=w.dyn))
    finally:
        del sys.modules[w.module.__name__]
        for k in [k for k in surrogate.cache if isinstance(k, str) and k.startswith('verifsurr')]:
            del surrogate.cache[k]


CASES = {'C26': c26}
