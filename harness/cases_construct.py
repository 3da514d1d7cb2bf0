"""C33: which definitions make a field, and which field; C34: fields holding definitions."""
import os
from datetime import date
from decimal import Decimal

from build import Builder, CLASSES
from cases_fields import process
from cases_ops import bare
from facts import Facts
from gen import Gen, STRUCTURAL
from nodes import REGISTRY, codes, dec, enc, nd, register, text
from project import outcome
from shape import spec_of

from scheme.field import Field

TZ = os.environ.get('VERIF_TZ', 'UTC')
KINDS = sorted(CLASSES)
EXTRA = ['object', 'error', 'surrogate', 'definition']


class DefGen(Gen):
    def spec_object(self):
        return self.base('object')

    def spec_error(self):
        return self.base('error')

    def spec_surrogate(self):
        f = self.base('surrogate')
        f['valid'] = [[codes(x) for x in self.pick(['a.b'], ['x', 'y.z'])]] if self.chance(0.5) else []
        return f

    def spec_definition(self):
        f = self.base('definition')
        f['valid'] = [[codes(x) for x in self.r.sample(KINDS, self.r.randint(1, 4))]] if self.chance(0.6) else []
        return f

    def special_native(self, f):
        return 'x'


def words(g, xs):
    """a list of strings, or the space-delimited string standing for it"""
    if xs and all(isinstance(x, str) and x and ' ' not in x for x in xs) and g.chance(0.4):
        return ' '.join(xs)
    return list(xs)


def define(g, f):
    """a definition making f, one of several ways"""
    ty = f['ty']
    d = {'fieldtype': ty}
    if f['name']:
        d['name'] = text(f['name'][0])
    minl = f.get('minl')
    if f['nonnull'] and f['required'] and (ty not in ('text', 'email', 'binary') or minl) and g.chance(0.7):
        d['nonempty'] = True
        if minl == [1] and ty != 'sequence' and g.chance(0.6):
            minl = []
    for k, a in (('nonnull', 'nonnull'), ('required', 'required'), ('ignull', 'ignore_null')):
        if f[k] and not (d.get('nonempty') and a != 'ignore_null') or g.chance(0.1):
            d[a] = bool(f[k]) if g.p.get('exact') else g.pick(True, True, 1) if f[k] else g.pick(False, None, 0)
    for k in ('default', 'constant'):
        if f[k]:
            d[k] = dec(f[k][0])
        elif g.chance(0.05):
            d[k] = None
    for k, x in zip(('title', 'description', 'notes'), f.get('texts', ())):
        if x:
            d[k] = dec(x[0])
    for a in f.get('asp', ()):
        d[a[0]] = dec(a[1])
    if g.chance(0.1):
        d[g.pick('_hidden', '_x')] = g.pick(5, 'a')
    if g.chance(0.05):
        d['nothing'] = None
    for k, a in (('min', 'minimum'), ('max', 'maximum')):
        if f.get(k):
            d[a] = dec(f[k][0])
    for k, a, xs in (('minl', 'min_length', minl), ('maxl', 'max_length', f.get('maxl'))):
        if xs:
            d[a] = xs[0]
        elif xs is not None and g.chance(0.05):
            d[a] = None
    for k in ('utc', 'unique', 'multiple', 'extended'):
        if f.get(k) or k in f and g.chance(0.1):
            d[k] = bool(f[k])
    if ty in ('text', 'structure') and (not f['strip' if ty == 'text' else 'strict'] or g.chance(0.2)):
        d['strip' if ty == 'text' else 'strict'] = bool(f['strip' if ty == 'text' else 'strict'])
    if ty == 'token' and f['segs']:
        d['segments'] = f['segs'][0]
    if ty == 'enumeration':
        d['enumeration'] = words(g, [dec(x) for x in f['enum']])
        if f['ign']:
            d['ignored_values'] = words(g, [dec(x) for x in f['ign'][0]])
    if ty in ('surrogate', 'definition') and f['valid']:
        d['valid_surrogates' if ty == 'surrogate' else 'valid_fields'] = words(g, [text(x) for x in f['valid'][0]])
    sub = lambda h: define(g, h)
    if ty == 'sequence':
        d['item'] = sub(f['item'])
    if ty in ('tuple', 'union'):
        k = 'values' if ty == 'tuple' else 'fields'
        d[k] = g.pick(list, tuple)(sub(h) for h in f[k])
    if ty == 'map':
        d['value'] = sub(f['value'])
        if f['key']:
            d['key'] = sub(f['key'][0])
        if f['reqkeys']:
            d['required_keys'] = words(g, [dec(x) for x in f['reqkeys'][0]])
    if ty == 'structure':
        if f['korder']:
            d['key_order'] = words(g, [text(k) for k in f['korder'][0]])
        elif g.chance(0.1):
            d['key_order'] = g.pick([], '', None)
        members = lambda ms: dict((text(m['k']), sub(m['f'])) for m in ms)
        if f['poly']:
            s = d['structure'] = dict((dec(v['id']), members(v['s'])) for v in f['variants'])
            if f['common']:
                s['*'] = members(f['common'])
            d['polymorphic_on'] = text(f['poly'][0]['name'][0]) if f.get('auto') else sub(f['poly'][0])
        else:
            d['structure'] = members(f['struct'])
    if ty in STRUCTURAL and g.chance(0.2):
        d['structural'] = True
    items = list(d.items())
    if g.chance(0.3):
        g.r.shuffle(items)
    return dict(items)


def definitions(d, out, skip=('default', 'constant')):
    """every definition inside d"""
    if isinstance(d, dict):
        if 'fieldtype' in d and isinstance(d['fieldtype'], str):
            out.append(d)
        for k, x in d.items():
            if k not in skip:
                definitions(x, out, skip)
    elif isinstance(d, (list, tuple)):
        for x in d:
            definitions(x, out, skip)
    return out


ODD = [5, -1, 0, 1.5, 'x', '', 'text', [], (), {}, None, True, False, Decimal('1.5'), date(2020, 1, 2), [5], [None], ('x',), ['a', 'b'], '2020-01-02',
       '12:00:00', '2020-01-02T03:04:05Z', '1.5', 'a b', [Decimal('1')], {'a': 5}, {'a': 'text'}, {'a': None}, {'a': {}}, ['text'], 'nan x', '-3']
TEXTUAL = ('name',)
COUNTED = ('segments',)


def spoil(g, d):
    """one change somewhere in a definition, often one that makes it malformed"""
    ds = definitions(d, [])
    x = g.r.choice(ds)
    ty = x['fieldtype']
    own = dict(sequence=['item', 'min_length', 'max_length'], tuple=['values'], union=['fields'], map=['value', 'key', 'required_keys'],
               structure=['structure', 'key_order', 'polymorphic_on', 'generate_default', 'structure'], enumeration=['enumeration', 'ignored_values'],
               text=['min_length', 'max_length'], email=['min_length', 'both'], binary=['min_length', 'max_length'],
               definition=['valid_fields'], surrogate=['valid_surrogates'])
    for k in ('integer', 'float', 'decimal', 'date', 'time', 'datetime'):
        own[k] = ['minimum', 'maximum']
    k = g.r.choice(own.get(ty, []) * 3 + ['fieldtype', 'fieldtype', 'drop', 'flag'])
    various = [y for y in ds if y['fieldtype'] == 'structure' and y.get('polymorphic_on')]
    if various and g.chance(0.15):
        x, k = g.r.choice(various), 'generate_default'
    if k == 'both':
        x['multiple'], x['extended'] = True, g.pick(True, False, 1)
    elif k == 'fieldtype':
        nested = len(definitions(x, [])) > 1
        v = g.pick('Text', 'str', '', None, 5, 'fieldmeta', 'undefined', 'field ', True, ['text'])
        if g.chance(0.5) and not nested:
            v = g.r.choice(KINDS)
        if g.chance(0.2):
            del x['fieldtype']
        else:
            x['fieldtype'] = v
    elif k == 'drop':
        names = [n for n in x if n != 'fieldtype' and (n in ('item', 'values', 'fields', 'value', 'structure', 'enumeration') or g.chance(0.2))]
        if names:
            del x[g.r.choice(names)]
    elif k == 'flag':
        x[g.pick('nonnull', 'required', 'nonempty', 'ignore_null')] = g.pick(1, 0, 'x', '', [], [1], 2.5, 0.0, None, True, False)
    elif k == 'generate_default':
        x[k] = g.pick(True, True, True, False, None, 1, 0, '', 'one', 'two', 'é')
        kinds = x.get('structure')
        if x.get('polymorphic_on') and isinstance(kinds, dict) and kinds and g.chance(0.7):
            x[k] = g.r.choice(sorted(kinds, key=repr))
        if g.chance(0.5):
            x['default'] = g.pick({'a': 5}, {'kind': 'one', 'x': 'y'}, {}, {'a': {}}, None)
    elif k == 'structure' and isinstance(x.get(k), dict) and x[k] and g.chance(0.7):
        n = g.r.choice(sorted(x[k], key=repr))
        if isinstance(x[k][n], dict) and 'fieldtype' not in x[k][n] and x[k][n] and g.chance(0.5):
            x[k][n][g.r.choice(sorted(x[k][n], key=repr))] = g.pick(5, None, 'text', {}, [])
        else:
            x[k][n] = g.pick(5, None, 'text', {}, [])
    elif k == 'valid_surrogates':
        x[k] = g.pick([], None, 'a', 'a b', ['a', 'b'])
    elif k == 'valid_fields':
        x[k] = g.pick([], '', None, 'text', 'text nope', ['text', 'integer'], ['nope'], 5, {'text': 1}, True, ('text',), ['Text'], 'text ')
    elif k == 'polymorphic_on':
        x[k] = g.pick('kind', 5, True, None, ['kind'], {'fieldtype': 'text', 'name': 'kind'})
    elif k == 'key_order':
        x[k] = g.pick('a', 'a b', '', [], ['b', 'a'], ('a',), 5, True, 0, None, {}, {'a': 1})
    elif k in ('required_keys', 'ignored_values', 'enumeration') and g.chance(0.6):
        x[k] = g.pick('a', 'a b', '', [], ['b', 'a'], ('a',), 5, True, 0, None, ['a', Decimal('1')], [date(2020, 1, 1), 'b'], ('a', Decimal('2')))
        if k == 'required_keys' and isinstance(x[k], (list, tuple)):
            x[k] = type(x[k])(y for y in x[k] if isinstance(y, str))
    elif k in ('min_length', 'max_length'):
        x[k] = g.pick(-1, -5, 0, 1, 7, 1.0, 2.5, '3', '', [], Decimal('2'), None, 10 ** 6)
    else:
        v = g.r.choice(ODD)
        if k in ('values', 'fields') and isinstance(x.get(k), (list, tuple)) and g.chance(0.5):
            v = list(x[k])
            v[g.r.randrange(len(v))] = g.pick(5, None, 'text', {}, [])
            v = g.pick(list, tuple)(v)
        x[k] = v
    return k


def modelled(d):
    """what the model says nothing about: parameters nobody checks, of the wrong type; definitions as plain values"""
    for x in definitions(d, []):
        if not isinstance(x.get('name', ''), str) or x.get('name') == '':
            return False
        if isinstance(x.get('enumeration'), dict) or x.get('valid_surrogates') == '':
            return False
        st = x.get('structure')
        if isinstance(st, dict) and x['fieldtype'] == 'structure':
            po = x.get('polymorphic_on')
            if po and st.get('*') in ([], ()):      # no members at all, in a form of its own
                return False
            if isinstance(po, dict) and po.get('fieldtype') is not None and not po.get('name'):
                return False
            if isinstance(po, dict) and po.get('fieldtype') in STRUCTURAL:
                return False
            names = [list(st)] if not po else [list(v) for v in st.values() if isinstance(v, dict)]
            if any(not isinstance(n, str) for ns in names for n in ns):
                return False
            if isinstance(po, str) and po and any(not isinstance(n, str) for n in st):
                return False
            if po and 'fieldtype' in st:
                return False
    return True


def construct(rec, d, f, how, build=None):
    """makes a field of a definition and records it"""
    node, before = enc(d), enc(d)
    try:
        fld = build() if build else Field.reconstruct(d)
        r, x, shape = 'ok', '', None
    except Exception as e:
        fld, r, x, shape = None, 'refused', type(e).__name__ + ': ' + str(e)[:200], dict(ty='none', name=[])
    shape = shape or spec_of(fld)
    fx = Facts(TZ).collect(f, dict(ty='decimal'), node)
    rec('construct', d=node, how=how, r=r, x=x, shape=shape, cx=fx.cx(), mut=[] if enc(d) == before else ['definition'])
    return fld


def direct(d):
    """the constructor called directly, the fields inside made beforehand"""
    def arg(v):
        if isinstance(v, dict):
            if isinstance(v.get('fieldtype'), str):
                return Field.reconstruct(v)
            return dict((k, arg(x)) for k, x in v.items())
        if isinstance(v, (list, tuple)):
            return type(v)(arg(x) for x in v)
        return v
    params = dict((k, arg(v)) for k, v in d.items() if k != 'fieldtype')
    return lambda: CLASSES[d['fieldtype']](**params)


def mixed(g, v, top=True):
    """some of the definitions inside made into fields beforehand"""
    if isinstance(v, dict):
        if not top and isinstance(v.get('fieldtype'), str) and g.chance(0.4):
            try:
                return Field.reconstruct(v)
            except Exception:
                pass
        return type(v)((k, x if k in ('default', 'constant') else mixed(g, x, False)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)(mixed(g, x, False) for x in v)
    return v


def plain(f):
    """leaves out what a definition cannot say"""
    if isinstance(f, dict):
        if f.get('ty') == 'text':
            f['pat'] = []
        if f.get('ty') == 'binary':
            f['default'] = []
        for x in f.values():
            plain(x)
    elif isinstance(f, list):
        for x in f:
            plain(x)
    return f


def c33(key, i, tier, rec):
    g = DefGen(key, pre=0, asp=0.2, texts=0.2, default=0.25, nonnull=0.4)
    if i % 8 == 7:
        f = g.spec(0, types=EXTRA)
    else:
        f = g.spec(g.pick(0, 0, 1, 1, 2))
    for _ in range(5 if i % 20 == 3 else 0):
        f = g.spec(1, types=['structure'])
        if f['poly']:
            break
    plain(f)
    if g.chance(0.4):
        f['required'] = 1
    d = define(g, f)
    if i % 5 == 0 and f['ty'] == 'structure' and not f['poly'] and f['struct'] and not f['korder']:
        m = f['struct'][0]                       # a member called like the key naming the kind of a field
        d['structure']['fieldtype'] = d['structure'].pop(text(m['k']))
        m['k'] = codes('fieldtype')
    spoiled = ''
    if i % 2:
        for _ in range(g.pick(1, 1, 1, 2)):
            if not definitions(d, []):
                break
            spoiled = spoil(g, d)
        if not modelled(d):
            return
    kind = d.get('fieldtype')
    if g.chance(0.3) and isinstance(kind, str) and kind in CLASSES and isinstance(d, dict):
        try:
            call = direct(d)
        except Exception:
            call = None
        if call:
            construct(rec, d, f, 'class', call)
            return
    if g.chance(0.15) and isinstance(kind, str) and not any(isinstance(x, dict) for x in d.values()):
        params = dict((k, v) for k, v in d.items() if k != 'fieldtype')
        construct(rec, d, f, 'name', lambda: Field.reconstruct(kind, **params))
        return
    if g.chance(0.3) and isinstance(d, dict) and len(definitions(d, [])) > 1:
        given = mixed(g, d)
        construct(rec, d, f, 'mixed', lambda: Field.reconstruct(given))
        return
    fld = construct(rec, d, f, 'reconstruct')
    if fld is not None and not spoiled and f['ty'] not in EXTRA:
        for j in range(2):
            ser, ph = g.pick(0, 1, 1), g.pick('in', 'in', 'out')
            process(rec, f, fld, g.candidate(f, ser and ph == 'in', g.pick(0, 0.1)), ph, ser)


DISCS = ['integer', 'boolean']  # the description of a cloned enumeration has an entry of its own, 'representation'


class FieldGen(DefGen):
    """values which are fields"""
    pool = ()

    def special_native(self, f):
        if f['ty'] != 'definition' or not self.pool:
            return 'x'
        if f['valid'] and self.chance(0.6):
            fit = [x for x in self.pool if codes(x.type) in f['valid'][0]]
            if fit:
                return self.r.choice(fit)
        return self.r.choice(self.pool)

    def serialized(self, f):
        if f['ty'] != 'definition':
            return DefGen.serialized(self, f)
        r = self.r.random()
        if r < 0.15:
            return self.special_native(f)
        if r < 0.3:
            return self.pick('text', 'integer', 'boolean', 'nope', 'field', 'structure', 'Text', '', 'sequence', 'uuid', 'email')
        if r < 0.36:
            return self.junk()
        kind = None
        if f['valid'] and self.chance(0.6):
            kind = [k for k in (text(x) for x in f['valid'][0]) if k not in STRUCTURAL]
        sub = DefGen(self.r.random(), pre=0, asp=0.2, texts=0.2, default=0.2, poly=0.1, exact=1)
        sub.DISCS = DISCS
        h = plain(sub.spec(0, types=kind) if kind else sub.spec(self.pick(0, 0, 1)))
        simple(h)
        d = define(sub, h)
        if self.chance(0.2) and definitions(d, []):
            spoil(sub, d)
            if not modelled(d) or not exact(d) or not isinstance(d.get('default'), (int, str, type(None))):
                return 'nope'
        return d


def exact(d):
    return all(isinstance(x.get(k, False), bool) for x in definitions(d, [])
               for k in ('nonnull', 'required', 'ignore_null', 'nonempty', 'utc', 'unique', 'strict', 'strip', 'multiple', 'extended'))


def simple(f):
    """no defaults of containers"""
    if isinstance(f, dict):
        if f.get('ty') in STRUCTURAL:
            f['default'] = []
        for x in f.values():
            simple(x)
    elif isinstance(f, list):
        for x in f:
            simple(x)


def usable(f):
    """no duplicate tests among fields, which are equal only to themselves"""
    if isinstance(f, dict):
        if f.get('ty') == 'sequence':
            f['unique'] = 0
        if f.get('ty') == 'map' and f['key'] and f['key'][0]['ty'] == 'float':
            f['key'] = []  # two keys, both nan
        if f.get('ty') == 'definition':
            f['constant'], f['default'] = [], [x for x in f['default'] if x['t'] == 'obj']
        for x in f.values():
            usable(x)
    elif isinstance(f, list):
        for x in f:
            usable(x)


def c34(key, i, tier, rec):
    g = FieldGen(key, pre=0.02, inst=0, scalars=['definition', 'definition', 'integer', 'text'], default=0.15)
    pool = DefGen(key + 'pool', pre=0, asp=0.2, texts=0.2, default=0.2, poly=0.15)
    pool.DISCS = DISCS
    specs, fields = [], []
    for n in range(4):
        h = plain(pool.spec(g.pick(0, 0, 1, 2)))
        simple(h)
        fields.append(Builder().build(h))
        specs.append(h)
    g.pool = fields
    REGISTRY.clear()
    for n, x in enumerate(fields):
        register('F%d' % n, x)
    f = g.spec(g.pick(0, 1, 1, 2), types=['definition'] if i % 3 == 0 else ['structure', 'sequence', 'tuple', 'map', 'union'])
    usable(f)
    if f['ty'] == 'definition' and g.chance(0.3):
        f['nonnull'] = 1
    try:
        fld = Builder().build(f)
    except Exception as e:
        rec('build', x=type(e).__name__, f=f)
        return
    known = [dict(k=codes('F%d' % n), f=h) for n, h in enumerate(specs)]
    before = [spec_of(x) for x in fields]

    def special(v):
        if isinstance(v, Field) and not any(v is x for x in fields):
            return nd('made', [], [blank(enc(bare(v.describe(verbose=True))))])

    def step(v, ph, ser):
        node, was = enc(v), enc(v)
        out, res = outcome(lambda: fld.process(v, {'in': 'inbound', 'out': 'outbound'}[ph], bool(ser)), special)
        fx = Facts(TZ).collect(f, specs, dict(ty='decimal'), node, out['v'])
        cx = fx.cx()
        cx['fields'] = known
        rec('process', f=f, v=node, ph=ph, ser=ser, partial=0, cx=cx, out=out, mut=[] if enc(v) == was else ['value'])
        return res if out['r'] == 'ok' else None

    for j in range(4):
        ser, ph = g.pick(0, 1, 1, 1), g.pick('in', 'in', 'out')
        v = g.candidate(f, ser and ph == 'in', g.pick(0, 0, 0.15))
        res = step(v, ph, ser)
        if ser and ph == 'out' and res is not None:
            v, ph = res, 'in'
            res = step(v, ph, 1)
        if ser and ph == 'in' and g.chance(0.4):       # the fields made are changed, and the same is read again
            there = [x for x in made(res, []) if not any(x is y for y in fields)]
            for x in there:
                x.title, x.nonnull, x.name = 'changed', not x.nonnull, 'changed'
                if x.type == 'structure' and not x.polymorphic_on:
                    x.insert(Field(name='put'), True)
            if there:
                step(v, ph, 1)
    for x, s, h in zip(fields, before, specs):
        rec('unchanged', before=s, after=spec_of(x), what='field')


def made(v, out):
    """the fields inside a value"""
    if isinstance(v, Field):
        out.append(v)
    for x in v.values() if isinstance(v, dict) else v if isinstance(v, (list, tuple)) else ():
        made(x, out)
    return out


def blank(n):
    """a description without the entries that are null, the values of an enumeration as a list however they were given"""
    if n['t'] == 'kv' and n['c'][0] == ENUMERATION and n['c'][1]['t'] == 'tuple':
        return dict(n, c=[n['c'][0], dict(n['c'][1], t='list')])
    return dict(n, c=[blank(x) for x in n['c'] if not (x['t'] == 'kv' and x['c'][1]['t'] == 'null')])


ENUMERATION = enc('enumeration')
CASES = {'C33': c33, 'C34': c34}
