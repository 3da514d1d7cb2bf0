"""C19, C20: schemas derived from one another and edited, as histories over a heap of fields."""
from build import Builder
from cases_fields import PHASE, TZ
from cases_ops import filter_params, pairs
from facts import Facts
from gen import Gen, STRUCTURAL
from nodes import codes, dec, enc, text
from project import DETAIL, outcome
from shape import spec_of

from scheme.field import Field

SCALARS = ['integer', 'text', 'boolean', 'enumeration', 'float', 'date', 'token', 'field', 'decimal', 'binary', 'email']
FLAGS = {'required': 'required', 'nonnull': 'nonnull', 'ignull': 'ignore_null'}
TEXTS = ['title', 'description', 'notes']


def kids(f):
    ty = f.type
    if ty == 'sequence':
        return [f.item]
    if ty == 'map':
        return [f.value] + ([f.key] if f.key else [])
    if ty == 'tuple':
        return list(f.values)
    if ty == 'union':
        return list(f.fields)
    if ty == 'structure':
        if f.polymorphic_on:
            return [x for st in f.structure.values() for k, x in st.items() if k != f.polymorphic_on.name]
        return list(f.structure.values())
    return []


def reach(f, out=None):
    """every field object inside, by identity"""
    out = {} if out is None else out
    if id(f) not in out:
        out[id(f)] = f
        for x in kids(f):
            reach(x, out)
    return out


class HGen(Gen):
    NAMES = ['a', 'b', 'one', 'x']
    KEYS = ['a', 'b', 'c', 'd']
    ENUMS = [['a', 'b', 'c'], ['alpha', 'beta'], [1, 2, 3], ['1', 1, 2], [True, 'x'], [0, 'zero'], ['é', 'b']]
    DISCS = ['auto', 'enum', 'integer']
    MAPKEYS = ['text', 'integer', 'enumeration']

    def spec_structure(self, depth):
        f = super(HGen, self).spec_structure(depth)
        f['common'] = []
        if f['korder'] and not f['korder'][0]:
            f['korder'] = []
        return f

    def spec_text(self):
        f = super(HGen, self).spec_text()
        f['pat'] = []
        f.pop('pats', None)
        return f


def complete(s):
    """a shape as a specification good enough to make values for"""
    if isinstance(s, dict) and 'ty' in s:
        s = dict((k, complete(v)) for k, v in s.items())
        if s['ty'] == 'text':
            s['pat'] = []
        if s['ty'] == 'structure':
            s['common'] = []
            s['struct'] = s['struct']
        s['tyn'] = codes(s['ty'])
        return s
    if isinstance(s, dict):
        return dict((k, complete(v)) for k, v in s.items())
    if isinstance(s, list):
        return [complete(v) for v in s]
    return s


class History(object):
    def __init__(self, g, rec):
        self.g, self.rec, self.steps, self.h, self.seen = g, rec, [], [], []

    def structures(self, editable=True):
        return [i for i, f in enumerate(self.h) if f.type == 'structure' and not (editable and f.polymorphic_on)]

    def free(self, target, exclude=()):
        """handles which may be put inside target without any tree holding a field twice"""
        t = self.h[target]
        out = []
        for i, f in enumerate(self.h):
            if i in exclude:
                continue
            mine = set(reach(f))
            if id(t) in mine:
                continue
            if not any(id(t) in r and mine & set(r) for r in map(reach, self.h)):
                out.append(i)
        return out

    def do(self, st, fn, returns):
        ev = dict(op='', h=0, at=dict(s='', n=0, k=[]), ov=[], slot='none', ms=[], over=0, ks=[], vals=[], fp=[], tt='',
                  x='ok', same=0, obs=[], v=enc(None), ph='in', ser=0)
        ev['wth'] = 0
        ev.update(st)
        res = None
        try:
            res = fn()
        except Exception as e:
            ev['x'] = type(e).__name__
        if returns and ev['x'] == 'ok':
            if not isinstance(res, Field):
                ev['x'] = 'returned ' + type(res).__name__
            else:
                ev['same'] = int(any(res is f for f in self.h))
                self.h.append(res)
                self.seen.append(None)
        for i, f in enumerate(self.h):
            s = spec_of(f)
            if s != self.seen[i]:
                self.seen[i] = s
                ev['obs'].append(dict(h=i + 1, shape=s))
        self.steps.append(ev)

    # ------------------------------------------------------------ operations
    def new(self):
        g = self.g
        f = g.spec(g.pick(0, 1, 1, 2), types=g.pick(['structure'], ['structure'], ['structure'], g.p['structural'], g.p['scalars']))
        for k in ('default',):
            if f['ty'] in ('sequence', 'map', 'field') and g.chance(0.4):
                f[k] = [enc(g.pick(*([[], ['a'], [[1], 2]] if f['ty'] != 'map' else [{}, {'a': [1]}])))]
        self.do(dict(op='new', f=f), lambda: Builder().build(f), True)

    def child(self):
        g = self.g
        h = g.r.randrange(len(self.h))
        f = self.h[h]
        at = dict(s='', n=0, k=[])
        ty = f.type
        if ty == 'sequence':
            at['s'], fn = 'item', lambda: f.item
        elif ty == 'map':
            if f.key and g.chance(0.3):
                at['s'], fn = 'key', lambda: f.key
            else:
                at['s'], fn = 'value', lambda: f.value
        elif ty in ('tuple', 'union'):
            seq = f.values if ty == 'tuple' else f.fields
            n = g.r.randrange(len(seq))
            at.update(s='values' if ty == 'tuple' else 'fields', n=n + 1)
            fn = lambda: (f.values if ty == 'tuple' else f.fields)[n]
            if ty == 'tuple' and g.chance(0.5):
                fn = lambda: f.get(n)
        elif ty == 'structure' and not f.polymorphic_on:
            if not f.structure:
                return
            k = g.r.choice(sorted(f.structure))
            at.update(s='struct', k=codes(k))
            fn = lambda: f.structure[k]
            if g.chance(0.5):
                fn = lambda: f.get(k)
        elif ty == 'structure':
            n = g.r.randrange(len(f.structure))
            ident = list(f.structure)[n]
            names = [k for k in sorted(f.structure[ident]) if k != f.polymorphic_on.name]
            if not names:
                return
            k = g.r.choice(names)
            at.update(s='variant', n=n + 1, k=codes(k))
            fn = lambda: f.structure[ident][k]
        else:
            return
        self.do(dict(op='child', h=h + 1, at=at), fn, True)

    def override(self, f, setting):
        """(model change, python attribute, python value)"""
        g = self.g
        ty = f.type
        opts = ['required', 'nonnull', 'ignull', 'texts', 'asp', 'default', 'name']
        if ty in ('integer', 'float'):
            opts += ['min', 'max'] * 2
        if ty in ('text', 'sequence', 'binary', 'email'):
            opts += ['minl', 'maxl'] * 2
        if ty == 'sequence':
            opts += ['unique'] * 2
        if ty == 'structure':
            opts += ['strict'] * 2
            if not f.polymorphic_on:
                opts += ['korder'] * 2
        if ty not in STRUCTURAL:
            opts += ['constant']
        a = g.r.choice(opts)
        if a in FLAGS:
            v = g.chance(0.6)
            return dict(a=a, n=0, v=int(v)), FLAGS[a], v
        if a == 'texts':
            i = g.r.randint(0, 2)
            v = g.pick('x', 'some title', None)
            return dict(a=a, n=i + 1, v=[] if v is None else [enc(v)]), TEXTS[i], v
        if a == 'asp':
            k = g.pick('level', 'label')
            v = g.pick(1, 2, 'x', ['l'])
            return dict(a=a, n=k, v=[[k, enc(v), codes(k)]]), k, v
        if a in ('default', 'constant'):
            v = g.pick(None, 1, 'a', [1], {'a': 1}, True, 0)
            return dict(a=a, n=0, v=[] if v is None else [enc(v)]), a, v
        if a == 'name':
            v = g.pick('a', 'b', 'other')
            return dict(a=a, n=0, v=[codes(v)]), a, v
        if a in ('min', 'max'):
            v = g.pick(None, 0, 1, 5) if ty == 'integer' else g.pick(None, 0.5, 1.0)
            return dict(a=a, n=0, v=[] if v is None else [enc(v)]), 'minimum' if a == 'min' else 'maximum', v
        if a in ('minl', 'maxl'):
            v = g.pick(None, 0, 1, 3)
            return dict(a=a, n=0, v=[] if v is None else [v]), 'min_length' if a == 'minl' else 'max_length', v
        if a == 'korder':
            v = g.r.sample(g.KEYS, g.r.randint(1, 3)) if g.chance(0.8) else None
            return dict(a=a, n=0, v=[[codes(k) for k in v]] if v else []), 'key_order', v
        v = g.chance(0.5)
        return dict(a=a, n=0, v=int(v)), a, v

    def clone(self):
        g = self.g
        h = g.r.randrange(len(self.h))
        f = self.h[h]
        ov, kw = [], {}
        for _ in range(g.pick(0, 0, 1, 1, 2)):
            o, k, v = self.override(f, False)
            if k not in kw:
                ov.append(o)
                kw[k] = v
        slot, ms, real = 'none', [], []
        if g.chance(0.25):
            pick = lambda: g.r.randrange(len(self.h))
            if f.type == 'sequence':
                slot, key = 'item', 'item'
            elif f.type == 'map':
                slot, key = 'value', 'value'
            elif f.type in ('tuple', 'union'):
                slot = 'values' if f.type == 'tuple' else 'fields'
                key = slot
            elif f.type == 'structure' and not f.polymorphic_on:
                slot, key = 'struct', 'structure'
            if slot in ('item', 'value'):
                i = pick()
                ms, kw[key] = [dict(k=[], h=i + 1)], self.h[i]
            elif slot in ('values', 'fields', 'struct'):
                some = []
                for _ in range(g.r.randint(1, 2)):
                    i = pick()
                    if not any(set(reach(self.h[i])) & set(reach(self.h[j])) for j in some):
                        some.append(i)
                if slot == 'struct':
                    names = g.r.sample(g.KEYS, len(some))
                    ms = [dict(k=codes(k), h=i + 1) for k, i in zip(names, some)]
                    kw[key] = dict((k, self.h[i]) for k, i in zip(names, some))
                else:
                    ms = [dict(k=[], h=i + 1) for i in some]
                    kw[key] = tuple(self.h[i] for i in some)
        self.do(dict(op='clone', h=h + 1, ov=ov, slot=slot, ms=ms), lambda: f.clone(**kw), True)

    def some(self, allowed, names):
        """[(name, handle)] of handles sharing nothing"""
        g, out = self.g, []
        for k in names:
            i = g.r.choice(allowed) if allowed else None
            if i is not None and not any(set(reach(self.h[i])) & set(reach(self.h[j])) for _, j in out):
                out.append((k, i))
        return out

    def edit(self, op):
        g = self.g
        where = self.structures()
        if not where:
            return
        h = g.r.choice(where)
        f = self.h[h]
        known = sorted(f.structure)
        name = lambda: g.r.choice(known) if known and g.chance(0.5) else g.r.choice(g.KEYS + ['other'])
        if op == 'remove':
            ks = [name() for _ in range(g.r.randint(1, 2))]
            self.do(dict(op=op, h=h + 1, ks=[codes(k) for k in ks]), lambda: f.remove(*ks), False)
            return
        if op == 'insert':
            allowed = self.free(h)
            if not allowed:
                return
            i = g.r.choice(allowed)
            over = g.chance(0.5)
            x = self.h[i]
            st = dict(op=op, h=h + 1, over=int(over))
            st['wth'] = i + 1
            self.do(st, lambda: f.insert(x, True) if over else f.insert(x), False)
            return
        names = []
        for _ in range(g.r.randint(1, 3)):
            k = name()
            if k not in names:
                names.append(k)
        if op == 'merge':
            allowed = self.free(h)
        else:       # the copy holds only new fields: anything may go in, once
            allowed = list(range(len(self.h)))
        ms = self.some(allowed, names)
        if not ms:
            return
        d = dict((k, self.h[i]) for k, i in ms)
        over = op == 'merge' and g.chance(0.5)
        st = dict(op=op, h=h + 1, ms=[dict(k=codes(k), h=i + 1) for k, i in ms], over=int(over))
        if op == 'merge':
            self.do(st, lambda: f.merge(d, True) if over else f.merge(d), False)
        else:
            self.do(st, lambda: getattr(f, op)(d), True)

    def set(self):
        g = self.g
        h = g.r.randrange(len(self.h))
        f = self.h[h]
        if f.default is not None and type(f.default) in (list, dict) and g.chance(0.5):
            def change():       # in place, where only this field may notice
                if type(f.default) is list:
                    f.default.append('added')
                else:
                    f.default['added'] = 1
            v = dec(enc(f.default))
            if type(v) is list:
                v.append('added')
            else:
                v['added'] = 1
            self.do(dict(op='set', h=h + 1, ov=[dict(a='default', n=0, v=[enc(v)])]), change, False)
            return
        o, k, v = self.override(f, True)
        if o['a'] == 'asp':
            self.do(dict(op='set', h=h + 1, ov=[o]), lambda: f.aspects.__setitem__(k, v), False)
        elif o['a'] != 'name':
            self.do(dict(op='set', h=h + 1, ov=[o]), lambda: setattr(f, k, v), False)
            if g.chance(0.4):
                self.process(h)

    def ask(self):
        """questions, and operations on what they cannot be done with"""
        g = self.g
        h = g.r.randrange(len(self.h))
        f = self.h[h]
        ty = f.type
        if ty == 'structure' and g.chance(0.5):
            self.do(dict(op='needs', h=h + 1, over=int(f.has_required_fields)), lambda: None, False)
        elif ty == 'enumeration' and g.chance(0.6):
            vals, how = g.pick(['a', 'new'], [1], 'p q'), g.pick('prepend', '', None, 'Replace', 'extend')
            self.do(dict(op='refuse', h=h + 1), lambda: f.redefine(vals, how), False)
        elif ty == 'structure' and not f.polymorphic_on and g.chance(0.5):
            x = g.pick(None, 5, 'text', {}, Field)
            self.do(dict(op='refuse', h=h + 1), lambda: f.insert(x, g.chance(0.5)), False)
        elif not (ty == 'structure' and f.polymorphic_on):
            k = len(f.values) + g.pick(0, 1, 5) if ty == 'tuple' else g.pick('nowhere', 'zz', '')
            self.do(dict(op='absent', h=h + 1), lambda: f.get(k), True)

    def redefine(self):
        g = self.g
        where = [i for i, f in enumerate(self.h) if f.type == 'enumeration']
        if not where:
            return
        h = g.r.choice(where)
        f = self.h[h]
        vals = g.pick(['a', 'new'], ['x', 'y', 'x'], [1, 'b'], [True, 2], 'p q a', ['c'], [[1], 'a', [1]], [{'k': 0}, None, {'k': False}], [1, True, 1.0, 'a'])
        append = g.chance(0.6)
        given = vals
        if isinstance(vals, str):
            vals = vals.split(' ')
        kw = g.pick((), ('append',)) if append else ('replace',)
        self.do(dict(op='redefine', h=h + 1, vals=[enc(x) for x in vals], over=int(append)),
                lambda: f.redefine(given, *kw), False)
        for _ in range(g.pick(0, 1, 1, 2)):
            self.process(h)

    def filter(self):
        g = self.g
        h = self.deep()
        f = self.h[h]
        params = filter_params(g)
        n = len(self.h)
        if g.chance(0.6):
            params = {g.pick('level', 'label', 'required', 'secret'): False}
        over = g.chance(0.4)
        self.do(dict(op='filter', h=h + 1, fp=pairs(params), over=int(over)),
                lambda: f.filter(all=True, **params) if over else f.filter(**params), True)
        self.after(n, h)

    def transform(self):
        g = self.g
        h = self.deep()
        f = self.h[h]
        types = sorted(set(x.type for x in reach(f).values())) + ['text', 'token']
        tt = g.r.choice(types)
        n = len(self.h)
        nf = g.spec(g.pick(0, 0, 1), types=g.pick(['token', 'boolean', 'structure', 'sequence'], g.p['scalars']))
        self.do(dict(op='transform', h=h + 1, tt=tt, f=nf),
                lambda: f.transform(lambda x: Builder().build(nf) if x.type == tt else None), True)
        self.after(n, h)

    def deep(self):
        where = [i for i, f in enumerate(self.h) if kids(f)]
        return self.g.r.choice(where) if where and self.g.chance(0.85) else self.g.r.randrange(len(self.h))

    def after(self, n, h):
        """edits the result of a derivation, or what it was derived from"""
        if len(self.h) > n and self.g.chance(0.5):
            for x in self.g.pick([n], [h], [n, h]):
                if self.h[x].type == 'structure':
                    self.member(self.g.pick('put', 'del', 'del'), x)

    def member(self, op, h=None):
        """members put into and deleted from the mapping of a structure or a variant"""
        g = self.g
        where = self.structures(editable=False)
        if not where:
            return
        h = g.r.choice(where) if h is None else h
        f = self.h[h]
        at, own = dict(s='struct', n=0, k=[]), None
        if f.polymorphic_on:
            n = g.r.randrange(len(f.structure))
            ident = list(f.structure)[n]
            at.update(s='variant', n=n + 1)
            held, own = (lambda: f.structure[ident]), f.polymorphic_on.name
        else:
            held = lambda: f.structure
        known = [k for k in sorted(held()) if k != own]
        if op == 'del':
            if not known:
                return
            k = g.r.choice(known)
            at['k'] = codes(k)
            self.do(dict(op=op, h=h + 1, at=at), lambda: held().pop(k) and None, False)
            return
        k = g.r.choice(known) if known and g.chance(0.5) else g.r.choice(g.KEYS + ['other'])
        allowed = [i for i in self.free(h) if self.h[i].name]
        if not allowed or k == own:
            return
        i = g.r.choice(allowed)
        at['k'] = codes(k)
        st = dict(op=op, h=h + 1, at=at)
        st['wth'] = i + 1
        self.do(st, lambda: held().__setitem__(k, self.h[i]), False)

    def process(self, h=None):
        g = self.g
        bads = (0, 0.1) if h is None else (0, 0.4)
        h = g.r.randrange(len(self.h)) if h is None else h
        f = self.h[h]
        ser, ph = g.pick(0, 1), g.pick('in', 'in', 'out')
        v = g.candidate(complete(spec_of(f)), ser and ph == 'in', g.pick(*bads))
        out, res = outcome(lambda: f.process(v, PHASE[ph], bool(ser)))
        self.do(dict(op='process', h=h + 1, v=enc(v), ph=ph, ser=ser, out=out), lambda: None, False)

    def record(self):
        fx = Facts(TZ).collect(self.steps).reports(self.steps)
        fx.names([s['v'] for s in self.steps if s['op'] == 'process'])
        self.rec('heap', steps=self.steps, cx=fx.cx(), mut=[])


def histories(weights):
    def case(key, i, tier, rec):
        DETAIL[0] = True
        g = HGen(key, pre=0, nan=False, scalars=SCALARS, constant=0.03, asp=0.2, texts=0.1, oddkeys=0, poly=0.25,
                 named=0.3, default=0.25)
        H = History(g, rec)
        H.new()
        for _ in range(g.pick(4, 8, 12) if tier == 'quick' else g.pick(6, 12, 20)):
            op = g.r.choice(weights)
            if op == 'new' or not H.h:
                H.new()
            elif len(H.h) > 7 and op in ('child', 'clone', 'extend', 'replace', 'filter', 'transform'):
                continue
            elif op in ('put', 'del'):
                H.member(op)
            elif op in ('extend', 'replace', 'insert', 'merge', 'remove'):
                H.edit(op)
            else:
                getattr(H, op)()
        H.record()
    return case


c19 = histories(['new', 'child', 'child', 'clone', 'clone', 'clone', 'extend', 'replace', 'insert', 'merge', 'remove',
                 'set', 'set', 'set', 'redefine', 'process', 'process', 'filter', 'filter', 'transform', 'put', 'del'])
c20 = histories(['new', 'new', 'child', 'clone', 'extend', 'extend', 'replace', 'replace', 'insert', 'insert', 'merge',
                 'merge', 'remove', 'remove', 'set', 'redefine', 'redefine', 'process', 'put', 'del',
                 'filter', 'transform', 'ask', 'ask'])

CASES = {'C19': c19, 'C20': c20}
