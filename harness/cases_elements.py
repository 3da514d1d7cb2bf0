"""C25: histories of declaring schema-based classes and of making, changing and serializing their objects."""
import copy
import json

from build import Builder
from cases_late import positions
from cases_ops import accepted
from facts import Facts
from gen import Gen, SCALARS
from nodes import codes, dec, enc, nd, text
from project import outcome

import scheme
from scheme.element import Element

import cases_fields


class Classy(Builder):
    """takes the schemas of classes for the positions which name them"""

    def __init__(self, made):
        super(Classy, self).__init__()
        self.made = made

    def build(self, f):
        if f.get('elem') and self.made.get(f['elem']) is not None:
            return self.made[f['elem']].schema
        return super(Classy, self).build(f)


class World(object):
    def __init__(self, g):
        self.g, self.r = g, g.r
        self.classes, self.made, self.objects, self.steps = [], {}, [], []

    def special(self, v):
        if isinstance(v, Element):
            for k, c in self.made.items():
                if type(v) is c:
                    return nd('elem', [k], [enc(v.__dict__, self.special)])
            return nd('elem', [0], [enc(v.__dict__, self.special)])
        return None

    def enc(self, v):
        return enc(v, self.special)

    def step(self, op, cls=1, o=1, v=None, path=(), k=None, out=None, klass=None):
        self.steps.append(dict(op=op, cls=cls, o=o, v=self.enc(v), path=list(path), k=enc(k),
                               out=out or dict(ok(), v=enc(None)), all=[self.enc(x) for x in self.objects], how='', left=0,
                               **{'class': klass or self.classes[0]}))

    # ------------------------------------------------------------- classes
    def schema(self, n):
        g = self.g
        kind = g.pick('structure', 'structure', 'poly', 'value')
        g.p['poly'] = 1 if kind == 'poly' else 0.1
        f = g.spec(g.pick(1, 1, 2), types=['structure'] if kind != 'value' else None)
        spots = positions(f)
        known = [k for k in self.made if not self.classes[k - 1]['base']]
        if known and spots:
            for h, k in self.r.sample(spots, min(len(spots), g.pick(0, 1, 1, 2, 3))):
                h[k] = self.classes[g.r.choice(known) - 1]['f']
        f['name'] = [codes('v%d' % n if g.chance(0.5) else g.pick('amount', 'entry', 'wörd'))]
        f['elem'] = n
        return f

    def keyed(self, f):
        """maps of objects with keys of their own"""
        g = self.g
        known = [k for k in self.made if not self.classes[k - 1]['base'] and self.classes[k - 1]['key']]
        if known and f['ty'] == 'structure' and not f['poly'] and g.chance(0.5):
            h = g.base('map', pre='none')
            h.update(value=self.classes[g.r.choice(known) - 1]['f'], key=g.pick([], [g.base('boolean', pre='none')]), reqkeys=[])
            f['struct'].append(dict(k=codes('keyed'), f=h))

    def declare(self, step=False):
        g, n = self.g, len(self.classes) + 1
        roots = [k for k in self.made if not self.classes[k - 1]['base'] and self.classes[k - 1]['f'].get('poly')]
        c = dict(base=0, ident=[], key=[])
        if roots and (step or g.chance(0.6)):
            k = g.r.choice(roots)
            c['f'] = self.classes[k - 1]['f']
            c['base'] = k
            ids = [v['id'] for v in c['f']['variants']]
            c['ident'] = [g.r.choice(ids) if g.chance(0.9) else enc(g.pick('nowhere', 1.0, 2, True))]
            parents = [k] + [j + 1 for j, d in enumerate(self.classes) if d['base'] == k]
            space = dict(polymorphic_identity=dec(c['ident'][0]))
            base = self.made[g.r.choice(parents)]
        elif step:
            return
        else:
            c['f'] = self.schema(n)
            self.keyed(c['f'])
            if g.chance(0.4):
                c['key'] = [codes(g.pick('id', 'key', 'a', 'b'))]
            space = dict(schema=Classy(self.made).build(c['f']))
            if c['key']:
                space['key_attr'] = text(c['key'][0])
            base = Element
            if g.chance(0.2):
                base = type('Plain', (Element,), {})
        self.classes.append(c)
        self.made[n] = type(Element)('Class%d' % n, (base,), space)
        if step:
            self.step('impl', klass=c)

    def refuse(self):
        """a class which cannot be declared"""
        g = self.g
        how = g.pick('identity', 'unnamed', 'other')
        fld = None
        if how == 'identity':
            flat = [self.made[k] for k in self.made if not self.classes[k - 1]['base'] and not self.classes[k - 1]['f'].get('poly')]
            bases = (g.r.choice(flat + [Element, type('Plain', (Element,), {})]),)
            poly = [self.made[k] for k in self.made if self.classes[k - 1]['base'] or self.classes[k - 1]['f'].get('poly')]
            if poly and bases[0] is not Element and g.chance(0.5):
                bases += (g.r.choice(poly),)
            ids = [v['id'] for c in self.classes for v in c['f'].get('variants') or []]
            space = dict(polymorphic_identity=dec(g.r.choice(ids)) if ids and g.chance(0.7) else g.pick(0, 1, '', 'one', False))
            if g.chance(0.3):
                space['schema'] = fld = scheme.Structure({'a': scheme.Text()}, name='x')
        else:
            bases = (g.pick(Element, type('Plain', (Element,), {})),)
            if how == 'unnamed':
                fld = g.pick(scheme.Integer(), scheme.Text(name=''), scheme.Sequence(scheme.Integer()), scheme.Map(scheme.Text(), default={}))
                space = dict(schema=fld)
            else:
                space = dict(schema=g.pick(5, 'text', {}, [], scheme.Integer, {'a': scheme.Integer()}, (), 0, False))
        out, res = outcome(lambda: type(Element)('Refused', bases, space))
        left = int(fld is not None and (fld.instantiator is not None or fld.extractor is not None))
        self.step('refuse', out=out)
        self.steps[-1].update(how=how, left=left)

    # ------------------------------------------------------------- actions
    def part(self, h):
        """a value for a position of schema h, as it is inside objects"""
        g = self.g
        if g.chance(0.15):
            return g.candidate(h, False, 0.3)
        fld = Classy(self.made).build(h)
        got = accepted(g, h, fld)
        if not got:
            return None
        try:
            return fld.instantiate(got[0])
        except Exception:
            return None

    def members(self, f, ident=None):
        if f['ty'] != 'structure':
            return {text(f['name'][0]): f}
        if f['poly']:
            var = [v for v in f['variants'] if v['id'] == ident][0]
            out = dict((text(m['k']), m['f']) for m in f['common'])
            out.update((text(m['k']), m['f']) for m in var['s'])
            return out
        return dict((text(m['k']), m['f']) for m in f['struct'])

    def new(self, k):
        g, f = self.g, self.classes[k - 1]['f']
        params, ident = {}, None
        if f['ty'] == 'structure' and f['poly']:
            ident = g.r.choice(f['variants'])['id']
            params[text(f['poly'][0]['name'][0])] = dec(ident)
        bare = dict(f, elem=0)
        for name, h in self.members(f, ident).items():
            if g.chance(0.55):
                params[name] = self.part(h if f['ty'] == 'structure' else bare)
        if g.chance(0.1):
            params['beside'] = 1
        shown = self.enc(params)
        out, res = outcome(lambda: self.made[k](**params), self.special)
        if out['r'] == 'ok':
            self.objects.append(res)
        self.step('new', k, out=out)
        self.steps[-1]['v'] = shown

    def unser(self, k):
        g, f = self.g, self.classes[k - 1]['f']
        v = g.candidate(f, True, g.pick(0, 0, 0, 0.1))
        if g.chance(0.4):
            self.falsy(f, v)
        shown = enc(v)
        given, args = v, ()
        if g.chance(0.2) and exact(v):
            given, args = json.dumps(v), ('json',)
        out, res = outcome(lambda: self.made[k].unserialize(given, *args), self.special)
        if out['r'] == 'ok' and isinstance(res, Element):
            self.objects.append(res)
        self.step('unser', k, out=out)
        self.steps[-1]['v'] = shown

    def falsy(self, f, v):
        """puts entries of objects with keys of their own under keys which count as false"""
        if f['ty'] == 'structure' and not f['poly'] and isinstance(v, dict):
            for m in f['struct']:
                self.falsy(m['f'], v.get(text(m['k'])))
        elif f['ty'] == 'sequence' and isinstance(v, list):
            for x in v:
                self.falsy(f['item'], x)
        elif f['ty'] == 'map' and isinstance(v, dict) and v:
            n = f['value'].get('elem')
            kind = f['key'][0]['ty'] if f['key'] else 'text'
            if n and self.classes[n - 1]['key'] and kind in ('text', 'integer', 'boolean', 'float'):
                v[dict(text='', integer=0, boolean=False, float=0.0)[kind]] = v.pop(self.r.choice(list(v)))
            for x in v.values():
                self.falsy(f['value'], x)

    def ser(self, o):
        obj = self.objects[o - 1]
        k = self.kind(obj)
        out, res = outcome(obj.serialize, self.special)
        if out['r'] == 'ok' and self.g.chance(0.2) and exact(res):
            out, res = outcome(lambda: json.loads(obj.serialize('json')), self.special)
        self.step('ser', k, o, out=out)
        if out['r'] == 'ok' and res is not None and self.g.chance(0.6):
            out, again = outcome(lambda: type(obj).unserialize(copy.deepcopy(res)), self.special)
            if out['r'] == 'ok' and isinstance(again, Element):
                self.objects.append(again)
            self.step('unser', k, out=out)
            self.steps[-1]['v'] = enc(res)

    def kind(self, obj):
        return [k for k, c in self.made.items() if c is type(obj)][0]

    def put(self, o):
        """changes an object, or something inside it, in place"""
        g, v, path = self.g, self.objects[o - 1], []
        while True:
            inner = []
            if isinstance(v, Element):
                inner = [(enc(k), x) for k, x in v.__dict__.items()]
            elif isinstance(v, dict):
                inner = [(enc(k), x) for k, x in v.items()]
            elif type(v) in (list, tuple):
                inner = [(nd('at', [i + 1]), x) for i, x in enumerate(v)]
            inner = [(k, x) for k, x in inner if type(x) is not tuple or self.deep(x)]
            inner = [(k, x) for k, x in inner if isinstance(x, (Element, dict, list, tuple))]
            if not inner or type(v) is not tuple and g.chance(0.3):
                break
            k, v = g.r.choice(inner)
            path.append(k)
        x, k = g.pick(1, 'put', [1], {'k': []}, None), None
        if isinstance(v, list):
            act = lambda: v.append(x)
        elif isinstance(v, dict):
            k = g.r.choice(sorted(v, key=repr)) if v and g.chance(0.4) else 'put'
            act = lambda: v.__setitem__(k, x)
        else:
            k = g.r.choice(sorted(v.__dict__)) if v.__dict__ and g.chance(0.8) else 'put'
            f = self.classes[self.kind(v) - 1]['f']
            if g.chance(0.7):
                ms = {}
                if f['ty'] != 'structure':
                    ms[text(f['name'][0])] = dict(f, elem=0)
                for m in (f.get('struct') or []) + (f.get('common') or []) + [m for w in f.get('variants') or [] for m in w['s']]:
                    ms[text(m['k'])] = m['f']
                if k in ms:
                    x = self.part(ms[k])
            act = lambda: setattr(v, k, x)
        shown = self.enc(x)
        out, res = outcome(act)
        self.step('put', o=o, k=k, path=path, out=out)
        self.steps[-1]['v'] = shown

    @staticmethod
    def deep(x):
        """a tuple with something changeable inside"""
        return any(isinstance(y, (Element, dict, list)) or type(y) is tuple and World.deep(y) for y in x)


def exact(v):
    """whether JSON text keeps a value as it is"""
    try:
        return enc(json.loads(json.dumps(v))) == enc(v)
    except Exception:
        return False


def ok():
    from project import NOERR
    return dict(r='ok', e=NOERR, s=dict(toks=[], sk='none', sub=[]), rep=[], x='')


def c25(key, i, tier, rec):
    g = Gen(key, pre=0.02, nan=False, default=0.45, constant=0.05, nonnull=0.2)
    g.p['structural'] = ['structure', 'sequence', 'tuple', 'map']
    w = World(g)
    for _ in range(g.pick(1, 2, 3, 4)):
        try:
            w.declare()
        except Exception as e:
            rec('build', x=type(e).__name__, f=w.classes[-1]['f'] if w.classes else {})
            return
    first = copy.deepcopy(w.classes)
    for _ in range(g.r.randint(5, 14)):
        k = g.r.randint(1, len(w.classes))
        what = g.pick('new', 'unser', 'unser', 'ser', 'ser', 'put', 'put', 'put', 'impl', 'refuse')
        if what == 'impl':
            if g.chance(0.4):
                w.declare(True)
        elif what == 'refuse':
            if g.chance(0.4):
                w.refuse()
        elif what in ('new', 'unser') or not w.objects:
            (w.new if what == 'new' else w.unser)(k)
        else:
            getattr(w, what)(g.r.randint(1, len(w.objects)))
    fx = Facts(cases_fields.TZ).collect(first, w.steps)
    rec('elements', steps=w.steps, cx=dict(fx.cx(), classes=first))


CASES = {'C25': c25}
